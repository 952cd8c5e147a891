#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
import plan

SIMD = "experimental/bits/simd.h"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, technique=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  technique=technique, observe=observe))


X86 = ["experimental/bits/simd_x86.h", "experimental/bits/simd_builtin.h"]
ALL = [SIMD, "experimental/bits/simd_builtin.h", "experimental/bits/simd_x86.h", "experimental/bits/simd_fixed_size.h",
       "experimental/bits/simd_scalar.h", "experimental/bits/simd_detail.h"]
INP = ["inputs", "configurations"]
WHY = ("The repository's reliable tests only compile the headers and compare disassembly of a few functions; none of them "
       "looks at the result of {}, and a wrong result needs one particular combination of element type, vector width, "
       "instruction set and operand value.")

prop("C01", "Arithmetic and bit operators equal the scalar operator in every lane",
     "For every vector type, each lane of + - * / % & | ^, unary - ~ +, ++ and -- (and the compound assignments) is the value the "
     "scalar operator gives for that lane's operands, wrapping modulo 2^n for integers narrower or wider than int and following "
     "IEEE 754 for floating point. No lane's result depends on another lane, on unused padding lanes, or on whether operands are "
     "compile-time constants.",
     INP, "all operand values, every lane position, every element type, number of elements and target instruction set",
     WHY.format("an arithmetic operator"), ALL,
     [("vectorised integer division through floating point, 8-bit multiplication through 16-bit lanes", "experimental/bits/simd_x86.h"),
      ("generic element-wise operators", "experimental/bits/simd_builtin.h"), ("chunked operators", "experimental/bits/simd_fixed_size.h")])
prop("C02", "Shifts equal the scalar shift in every lane for every count",
     "Shifting left or right, by one count for all lanes or by a separate count per lane, gives in every lane the scalar shift of "
     "that lane for every count from 0 up to the width of the promoted element type minus one. The result is the same whether or not counts or values "
     "are compile-time constants.",
     INP, "all values, all counts, all lanes, all integral element types, numbers of elements and instruction sets",
     WHY.format("a shift"), [SIMD] + X86,
     [("8-bit shifts emulated with 16-bit shifts and masks", "experimental/bits/simd_x86.h"),
      ("variable shifts emulated through floating-point exponents without AVX2", "experimental/bits/simd_x86.h")])
prop("C03", "Comparisons give exactly the scalar comparison in every lane",
     "==, !=, <, <=, > and >= on two vectors give a mask whose element i is the scalar comparison of the elements i, including "
     "signedness, NaN (all false except !=), infinities and signed zeros; unary ! equals comparison with zero. Mask elements beyond "
     "the size of the vector never become observable.",
     INP, "all operand pairs, lanes, element types, numbers of elements and instruction sets",
     WHY.format("a comparison"), ALL,
     [("unsigned comparison through sign flip, AVX-512 compare-into-mask, per-width dispatch", "experimental/bits/simd_x86.h"),
      ("generic comparisons", "experimental/bits/simd_builtin.h")])
prop("C04", "Mask algebra, element access and mask reductions agree with an array of bool",
     "A mask behaves as an array of its size of bool: &&, ||, !, &, |, ^, their compound forms, == and != work element by element, "
     "and reading or writing one element, loading, storing and converting from and to bitsets keep element order. all_of, any_of, "
     "none_of, some_of, popcount, find_first_set and find_last_set equal their definition over those elements, independent of bits "
     "beyond the size and of compile-time knowledge.",
     INP, "all 2^N masks and pairs of masks, all element types, sizes and instruction sets",
     WHY.format("a mask operation or reduction"), ALL,
     [("reductions through movemask, testc/testz, kortest", "experimental/bits/simd_x86.h"),
      ("bit masks of any size", SIMD), ("conversions between bit masks and vector masks", "experimental/bits/simd_converter.h")])
prop("C05", "where-expressions change exactly the selected elements",
     "Assignment, compound assignment, increment and decrement through a where-expression (mask and vector, mask and mask, or bool and "
     "scalar) give each selected element the value of the unmasked operation and leave every other element bit-identical. Unary operators on a "
     "where-expression give the operator's result in selected elements and the unchanged element elsewhere, and no operation has an effect "
     "(such as a trap) that stems from unselected elements.",
     INP, "all masks, all operand values, element types, sizes and instruction sets",
     WHY.format("a masked assignment"), [SIMD, "experimental/bits/simd_builtin.h", "experimental/bits/simd_x86.h", "experimental/bits/simd_fixed_size.h",
                                         "experimental/bits/simd_scalar.h"],
     [("masked assignment, masked compound assignment, masked unary operations", SIMD), ("blend selection per instruction set", "experimental/bits/simd_x86.h")])
prop("C06", "Loads and stores move exactly the vector's elements in order",
     "Loading reads and storing writes exactly the N consecutive array elements starting at the given address, converting each "
     "element as a static_cast between the memory and the vector element type, for every supported alignment flag and every address the flag permits. Memory outside of these elements "
     "is never written, and never read where that could fault.",
     INP, "all array types, alignments relative to page boundaries, sizes, element types, flags and instruction sets",
     WHY.format("a load or store"), ALL,
     [("partial-register loads and stores, padding elements", "experimental/bits/simd_builtin.h"), ("long converting loads and stores in chunks", "experimental/bits/simd_builtin.h")])
prop("C07", "Masked loads and stores touch only the selected elements",
     "A masked load replaces exactly the selected elements with the converted memory elements and keeps the rest; a masked store writes "
     "exactly the selected memory elements. Memory elements that are not selected are neither written nor (where an access could fault) read, so a mask that "
     "selects nothing makes any address acceptable.",
     INP, "all masks, element and memory types, sizes, positions next to an inaccessible page and instruction sets",
     WHY.format("a masked load or store"), ALL,
     [("maskmov/AVX-512 masked moves, element loop fallback", "experimental/bits/simd_x86.h"), ("bit iteration over selected elements", SIMD)])
prop("C08", "Conversions between vector and mask types are element-wise static_casts",
     "simd_cast, static_simd_cast, converting constructors and conversions between ABIs produce in element i the static_cast of element "
     "i to the target element type, for every value whose scalar conversion is defined. Mask conversions keep element i for every pair of mask types of equal size, and "
     "signed/unsigned conversions are value-exact modulo 2^n.",
     INP, "all pairs of element types, all values, sizes, ABIs and instruction sets",
     WHY.format("a conversion"), [SIMD, "experimental/bits/simd_x86_conversions.h", "experimental/bits/simd_converter.h", "experimental/bits/simd_fixed_size.h"],
     [("table of conversion instruction sequences per type pair and width", "experimental/bits/simd_x86_conversions.h"), ("ABI conversions", "experimental/bits/simd_converter.h")])
prop("C09", "split, concat and resizing keep every element in order",
     "concat of vectors or of an array of vectors yields the arguments' elements in order; split, into a list of sizes or into equal chunks, of a vector or (equal chunks) of a mask, "
     "is its inverse, and split followed by concat is the identity. Resizing casts keep the leading elements and fill the rest with zero or false.",
     INP, "all size lists, values, element types, ABIs and instruction sets",
     WHY.format("split, concat or a resizing cast"), [SIMD], [("subset extraction and concatenation of registers", SIMD)])
prop("C10", "Reductions, min, max, minmax and clamp equal the scalar fold",
     "reduce combines every element exactly once with the given operation (masked: every selected element, or the given or operation-specific identity if "
     "none is selected; the sign of a zero floating-point sum is not specified), hmin and hmax return the smallest and largest (selected) element, and min, max, minmax and clamp "
     "act element by element like the scalar functions. Padding elements never take part.",
     INP, "all values, masks, operations, element types, sizes and instruction sets",
     WHY.format("a reduction"), [SIMD, "experimental/bits/simd_builtin.h", "experimental/bits/simd_x86.h", "experimental/bits/simd_fixed_size.h", "experimental/bits/simd_scalar.h"],
     [("shuffle based reduction trees", "experimental/bits/simd_builtin.h"), ("x86 reductions", "experimental/bits/simd_x86.h"), ("masked reductions with identities", SIMD)])
prop("C11", "Rounding, classification and exact math functions equal the scalar functions",
     "trunc, floor, ceil, round, rint, nearbyint, lround-like conversions, fabs, sqrt, copysign, frexp, ldexp, scalbn, scalbln, remquo, logb, ilogb, modf, fmod, remainder, nextafter, fdim, fmin, fmax, fma, "
     "abs and the classification and comparison functions (isnan, isinf, isfinite, isnormal, signbit, fpclassify, isgreater, isunordered and the like) give in every lane the value of the scalar function, bit-exact apart from the payload of a NaN. "
     "This includes zeros (though fmin and fmax may return either of two zeros), subnormals, infinities and NaN.",
     INP, "all operand values, lanes, floating-point types, sizes and instruction sets",
     WHY.format("a math function"), ["experimental/bits/simd_math.h", "experimental/bits/simd_builtin.h", "experimental/bits/simd_x86.h", "experimental/bits/simd_fixed_size.h", "experimental/bits/simd_scalar.h"],
     [("bit-pattern classification, rounding emulation without SSE4.1", "experimental/bits/simd_x86.h"), ("vectorised frexp, logb, modf", "experimental/bits/simd_math.h")])
prop("C12", "Vectorised transcendental functions agree with the scalar functions to a few ulp",
     "sin, cos, the hypotenuse of two or three values, and every function forwarded to the scalar library give in each lane the scalar function's value within a small fixed number of units "
     "in the last place of the larger of the result and the argument's reduction error (|x| 2^-51 for float and |x| 2^-98 for double sin and cos, zero for all other functions), for every argument, whatever the other lanes hold. "
     "Special values (NaN, infinities, signed zeros) come out exactly.",
     INP, "all argument values, lanes, floating-point types, sizes and instruction sets",
     WHY.format("a transcendental function"), ["experimental/bits/simd_math.h", "experimental/bits/simd_builtin.h", "experimental/bits/simd_scalar.h", "experimental/bits/simd_fixed_size.h"],
     [("argument reduction and polynomials for sin and cos", "experimental/bits/simd_math.h"), ("scaling in hypot", "experimental/bits/simd_math.h")])
prop("C13", "A vector object behaves as an array under every sequence of operations",
     "After any sequence of broadcasts, generator constructions, copies, element reads and writes through element references (assignment, compound "
     "assignment, increment, decrement, swap), masked assignments and whole-vector operations, element i of a vector or mask is what the same "
     "sequence gives on an array, and the result of the operation is what it is for the array. Generators are called exactly once per index, and a reference never writes any other element.",
     ["histories", "inputs", "configurations"], "all operation sequences, values, lanes, element types, sizes and instruction sets",
     "Tests fix a handful of sequences (the reliable ones only inspect generated code); this quantifies over histories of mixed element and whole-vector updates of the same object.",
     ALL, [("element references", SIMD), ("element insertion and extraction", SIMD)])
prop("C14", "ABI selection and type traits are consistent with each other and the vectors",
     "For every element type and size, the deduced, rebound, resized, native, compatible and fixed-size vector types exist exactly where promised, have the requested number of elements, "
     "and every size, alignment, ABI-tag and type predicate agrees with the type it describes. A native vector is never narrower than a compatible one, and vectors and masks of equal ABI have equal size.",
     ["configurations", "programs"], "all element types, all sizes up to the maximum, all instruction sets",
     WHY.format("a trait over the whole space of types and sizes"), [SIMD, "experimental/bits/simd_detail.h"],
     [("ABI deduction and trait definitions", SIMD)])
prop("C17", "Overloads participate exactly when conversions are value-preserving or requested",
     "Implicit broadcasts and vector conversions are accepted exactly for value-preserving source types (plus int and unsigned int as specified), explicit casts exactly where "
     "sizes agree, operators and math functions exactly for the element types for which they are meaningful, and mixed-type operations yield the specified result type. "
     "Nothing else compiles, and rejection is visible to substitution.",
     ["programs", "configurations"], "all pairs of element types, ABIs, sizes and operators",
     WHY.format("overload participation over all type pairs"), [SIMD, "experimental/bits/simd_math.h"],
     [("value-preserving constraints", SIMD), ("return type selection of mixed math calls", "experimental/bits/simd_math.h")])

prop("C15", "Operations on valid operands execute no undefined behaviour",
     "For every operation, operand, mask, memory offset and sequence of operations for which the documented behaviour is defined, the library itself executes no undefined behaviour: no signed overflow or invalid "
     "shift in its own arithmetic (in particular on elements narrower than int, on lanes that are not selected, and on padding), no invalid argument of a compiler builtin, no misaligned or out-of-bounds access, no "
     "use of memory outside of the objects and arrays it was given.",
     ["inputs", "histories", "configurations"], "all operations, operand values, masks, offsets, sequences, element types, sizes and instruction sets",
     "Undefined behaviour usually gives the right result in a test build and a wrong one in another; the reliable tests compare disassembly of a few functions and never run with a sanitizer.",
     ALL + ["experimental/bits/simd_math.h"], [("wrapping arithmetic on narrow elements, iteration over set bits of masks", "experimental/bits/simd_builtin.h"), ("conversion of fixed_size arguments of math functions", "experimental/bits/simd_fixed_size.h")],
     note="Every state inside the stated bounds is executed on the library compiled with g++'s undefined-behaviour and address sanitizers as monitors, and its result is compared with the scalar model. What the sanitizers cannot "
          "see (uninitialised reads, strict aliasing, x87 or builtin preconditions without instrumentation) is covered only through its effect on results.",
     technique="explicit-state enumeration of operands x lanes x masks x sequences x configurations of the real code, instrumented with undefined-behaviour and address monitors, against a scalar reference model")
prop("C16", "Results do not depend on build options",
     "Every result the library promises is the same at every optimisation level, in every supported language standard, with plain char signed or unsigned, with assertions, without exceptions and RTTI, without errno, with "
     "wrapping arithmetic, with other preferred vector widths, without forced inlining, under -ffinite-math-only and -ffast-math for values those options leave alone, and with each of the library's own configuration macros. The headers compile in all of these settings.",
     ["configurations", "inputs"], "all build options named, all operations, operand values, element types, sizes and instruction sets",
     "The build uses one set of options; a header-only library is compiled with its users' options, and a wrong assumption (a signed char, a fully optimised branch, a folded constant) only shows there.",
     ALL + ["experimental/bits/simd_math.h"], [("branches on __OPTIMIZE__, __builtin_constant_p, fast-math macros and configuration macros", "experimental/bits/simd_detail.h"), ("division through floating point", "experimental/bits/simd_x86.h")])
prop("C18", "Expressions of several operators equal the same operators one after the other",
     "The value of an expression that combines several arithmetic, shift, comparison, selection, minimum and conversion operations on vectors is, in every lane, what the scalar operators give step by step, "
     "wrapping modulo 2^n for elements narrower than int and unsigned elements, however the compiler merges, folds or reorders the steps.",
     ["programs", "inputs", "configurations"], "all expressions, operand values, lanes, element types, sizes and instruction sets",
     "An operator that is right in isolation can still be folded wrongly into its neighbours, because the library expresses it through wider, narrower, signed or floating-point operations that the optimiser reasons about.",
     ALL, [("arithmetic of narrow elements through promoted vector types", "experimental/bits/simd_builtin.h"), ("operators and masked assignment", SIMD)])

prop("C19", "Constant expressions give the results of evaluation at run time",
     "Broadcasts, generator constructions, element access, arithmetic and bit operators, comparisons, compound assignments, minimum, maximum and clamp on vectors held in one register, and on "
     "scalar-ABI vectors, may be used in constant expressions with every operand for which the scalar operation is one, and an operation evaluated by the compiler yields the same elements as the scalar operation at run time.",
     ["programs", "inputs", "configurations"], "all operations usable in constant expressions, operand values, lanes, element types, ABIs, instruction sets and language standards",
     "The library has separate branches for constant evaluation that no run-time test ever enters, and the compiler's evaluation of vector builtins differs from its code generation; the tests contain next to no constants.",
     ALL, [("branches on __builtin_is_constant_evaluated", "experimental/bits/simd_x86.h"), ("constexpr operators and constructors", SIMD)],
     note="The compiler evaluates every state of the stated bounds; the resulting objects are compared with scalar operations executed at run time. fixed_size vectors of more than one element, shifts and mask operators are not constant expressions in this version and only checked where they are.",
     technique="explicit-state enumeration of operand tuples x operations x configurations, each evaluated as a constant expression by the compiler on the real code and compared with a scalar reference model")
prop("C20", "Numeric traits agree with the properties of the arithmetic types",
     "For every arithmetic type and every cv-qualification, each numeric trait (digits, radix, extreme, smallest, infinite and NaN values, epsilon, exponents, reciprocal overflow threshold) exists exactly where it is meaningful, "
     "has the value std::numeric_limits or its definition gives, and value_or falls back exactly where a trait has no value.",
     ["configurations", "programs"], "all arithmetic and non-arithmetic types, cv-qualifications, language standards and floating-point options",
     "The vector code derives bit masks, limits and conversion rules from these traits for whatever type it is instantiated with; no test looks at them.",
     ["experimental/bits/numeric_traits.h"], [("trait definitions", "experimental/bits/numeric_traits.h")],
     technique="explicit-state enumeration of the finite space types x qualifications x traits x build options on the real code against numeric_limits")
prop("C21", "Vector and scalar accesses to the same objects take effect in program order",
     "In any sequence of vector loads and stores (plain, masked, converting, of masks), element reads and writes through references, and scalar reads and writes of the same arrays and objects, every access observes exactly the values "
     "the preceding accesses wrote, in any optimised build.",
     ["programs", "histories", "configurations"], "all sequences of accesses, offsets, element and memory types, masks, ABIs and instruction sets",
     "The library reads and writes users' arrays of T through vector types; whether the compiler may reorder or drop an access next to it depends on the whole surrounding program, not on one call, and tests hide exactly this behind opaque calls.",
     ALL, [("_S_load, _S_store, __may_alias", "experimental/bits/simd_builtin.h"), ("masked loads and stores, mask loads", "experimental/bits/simd_x86.h")],
     technique="explicit-state enumeration of all access programs up to a depth, each executed on the real code as one optimised function and compared with the same accesses executed one at a time")

TECH = "explicit-state enumeration: exhaustive bounded exploration of operands x lanes x configurations of the real code against a scalar reference model"
NOTE = ("Every state inside the stated bounds is executed on the library itself (g++ 13, -O2, x86 instruction sets from SSE2 to AVX-512) and "
        "compared with a scalar model; the ARM, POWER and fallback back ends run on a model of their intrinsics; values outside the alphabets and other compilers are not covered. Trusts g++'s "
        "scalar arithmetic and the host CPU.")
NA = {}
EXTRA = {}


def main():
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in plan.CHECKS:
            checks.append({"property": p["id"], "quick_cmd": f"python3 mc.py {p['id']}",
                           "thorough_cmd": f"VERIF_TIER=thorough python3 mc.py {p['id']}",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or TECH,
                           "level": "model_checking", "level_note": p["note"] or NOTE})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet; model checking applies")})
    m = {"version": 1, "setup_cmd": "python3 -m py_compile mc.py plan.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: the library is header-only and is driven through its public interface."}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")


main()
