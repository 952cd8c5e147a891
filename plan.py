"""Which configurations each check enumerates."""
SSE2 = {"sse2"}
AVX512 = {"avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"}
ISAS = {
    "sse2": {"flags": ["-march=x86-64"], "needs": SSE2},
    "ssse3": {"flags": ["-march=core2"], "needs": {"ssse3"}},
    "sse41": {"flags": ["-march=x86-64", "-msse4.1"], "needs": {"sse4_1"}},
    "sse42": {"flags": ["-march=nehalem"], "needs": {"sse4_2", "popcnt"}},
    "avx": {"flags": ["-march=sandybridge"], "needs": {"avx"}},
    "avx2": {"flags": ["-march=haswell"], "needs": {"avx2", "fma", "bmi1", "bmi2"}},
    "knl": {"flags": ["-march=knl", "-mno-avx512er", "-mno-avx512pf", "-mno-prefetchwt1"], "confirm": True, "needs": {"avx512f", "avx512cd"}},
    "skx": {"flags": ["-march=skylake-avx512"], "needs": AVX512},
    # vectors of 256 bits without the scalar popcnt instruction (only in the jobs that name it)
    "avx2np": {"flags": ["-march=haswell", "-mno-popcnt"], "needs": {"avx2", "fma", "bmi1", "bmi2"}},
    # selected by compiler options only, or newer than the others (thorough)
    "f16": {"flags": ["-march=sapphirerapids"], "needs": AVX512},
    "plain2": {"flags": ["-march=x86-64", "-mavx2"], "needs": {"avx2"}},
    "plain1": {"flags": ["-march=x86-64", "-mavx"], "needs": {"avx"}},
    "sse3": {"flags": ["-march=x86-64", "-msse3"], "needs": SSE2},
    # other back ends on the host: see harness/vhtarget.h
    "neon64": {"flags": ["-march=x86-64", "-DVH_NEON64"], "needs": SSE2},
    "neon32": {"flags": ["-march=x86-64", "-DVH_NEON32"], "needs": SSE2},
    "neon7": {"flags": ["-march=x86-64", "-DVH_NEON7"], "needs": SSE2},
    "vsx": {"flags": ["-march=x86-64", "-DVH_VSX"], "needs": SSE2},
    "nosimd": {"flags": ["-march=x86-64", "-DVH_NOSIMD"], "needs": SSE2},
    "avxnp": {"flags": ["-march=sandybridge", "-mno-popcnt"], "needs": {"avx"}},
}
MAIN = ""  # the default type list of the harness
MTYPES = "schar, ushort, int, float, ulong, double"
XTYPES = "char, llong, ullong, wchar_t, char16_t, char32_t, ldouble"

# quick: ABI codes per instruction set (see harness/vh.h: abi_of_impl)
Q = {
    "sse2": [0, 1, 302, 310, 103, 108, 113, 132],
    "ssse3": [1, 310, 107],
    "sse41": [1, 105],
    "sse42": [1, 313, 112],
    "avx": [1, 300, 311, 106, 118],
    "avx2": [1, 300, 310, 311, 424, 101, 109, 116, 132],
    "knl": [1, 300, 311, 312, 114, 131],
    "skx": [1, 300, 301, 302, 310, 311, 312, 204, 102, 115, 132, 416, 432, 464, 448],
}
T = {
    isa: sorted(set([0, 1, 2, 300, 301, 302, 310, 311, 312, 313, 314, 315] + list(range(101, 133)) + [203, 205, 206, 207]
                    + {"skx": [408, 412, 416, 424, 432, 448, 464], "knl": [408, 412, 416, 424, 432, 448, 464], "avx": [412, 424], "avx2": [408, 412, 424]}.get(isa, [406, 412])))
    for isa in Q
}
CQ = {"sse2": [1, 108], "sse42": [1, 310], "avx": [1], "avx2": [1, 311, 113], "knl": [1], "skx": [1, 312, 107, 432]}
CT = {isa: [0, 1, 300, 310, 311, 312, 103, 108, 113, 132] + ([416, 432] if isa == "skx" else []) for isa in Q}


def J(src, isa, abi, const=0, types="", opt="-O2", xflags=(), defs=(), part="", cost=None):
    if cost is None:
        n = abi - 100 if 100 < abi < 200 else 8
        cost = (4 if const else 1) * (n + {"sse2": 8, "ssse3": 6, "avx": 6}.get(isa, 4))
    return dict(src=src, isa=isa, abi=abi, const=const, types=types, opt=opt, xflags=list(xflags), defs=list(defs),
                part=part, cost=cost)


WTYPES = "schar, ushort, int, ulong, float, double"
WQ = {
    "sse2": [0, 1, 302, 310, 108, 113],
    "ssse3": [107],
    "sse41": [1, 105],
    "sse42": [313, 112],
    "avx": [1, 311, 106],
    "avx2": [1, 300, 311, 424, 101, 116, 132],
    "knl": [1, 300, 311],
    "skx": [1, 300, 301, 310, 312, 448, 102, 115, 432],
}
WCQ = {"sse2": [1], "sse42": [310], "avx2": [1, 113], "skx": [1, 107]}
RQ = {
    "sse2": [0, 1, 310, 108, 412],
    "ssse3": [107],
    "sse41": [105],
    "sse42": [313],
    "avx": [1, 311, 424, 106],
    "avx2": [1, 300, 311, 424, 101, 116],
    "knl": [1, 311, 448],
    "skx": [1, 301, 312, 115, 424, 432, 448],
}
RCQ = {"sse2": [1], "avx2": [1], "skx": [107]}
RXQ = [("avx2", 109), ("skx", 0)]
WXQ = [("sse2", 1), ("avx2", 109), ("skx", 0)]
X_Q = [("sse2", 1), ("sse2", 103), ("avx2", 109), ("avx2", 1), ("skx", 1), ("skx", 0)]
SPLIT = [("a", "schar, uchar, short, ushort"), ("b", "int, uint, long, ulong"), ("c", "float, double")]


def grid(src, tier, const=True, xtypes=True, types="", csplit=False, q=None, cq=None, xq=None):
    js = []
    for isa, abis in (T if tier == "thorough" else (q or Q)).items():
        for abi in abis:
            js.append(J(src, isa, abi, types=types))
    if xtypes:
        for isa, abi in ([(i, a) for i in Q for a in (0, 1, 103, 108, 311)] if tier == "thorough" else (xq or X_Q)):
            js.append(J(src, isa, abi, types=XTYPES, part="xtypes"))
    if const:
        for isa, abis in (CT if tier == "thorough" else (cq or CQ)).items():
            for abi in abis:
                if csplit:
                    for p, t in SPLIT:
                        js.append(J(src, isa, abi, const=1, types=t, part=p))
                else:
                    js.append(J(src, isa, abi, const=1, types=types))
    return js


# partially filled registers of every size
PARTIAL_Q = ([("sse2", n, "schar") for n in (9, 10, 11, 12, 13, 14)] + [("avx", 5, "ushort"), ("sse42", 6, "short")] + [("avx2", n, "uchar") for n in (18, 20, 25, 28)]
             + [("avx2", n, "short") for n in (9, 10, 12, 14)] + [("avx2", 5, "float"), ("avx2", 6, "int")] + [("skx", n, "float") for n in (9, 10, 12, 14)]
             + [("skx", 20, "ushort"), ("skx", 40, "schar"), ("skx", 24, "uchar"), ("skx", 5, "double"), ("skx", 6, "long")])


def partials(src, tier):
    if tier == "quick":
        return [J(src, isa, 200 + n, types=t, part=t) for isa, n, t in PARTIAL_Q]
    return [J(src, isa, 200 + n, defs=["VH_DEEP 1"], part="partial") for isa in Q for n in range(2, 33 if isa in ("avx2", "knl", "avx") else 17 if isa not in ("skx",) else 65)]


ALT = ["uchar, short, int, double", "schar, ushort, float, ulong"]


def alternate(js, tier):
    """Quick tier: pure data movement depends on the size and class of the elements, so half of the types per configuration."""
    for i, j in enumerate(js):
        if tier == "quick" and not j["types"]:
            j["types"] = ALT[(i + (j["isa"] in ("avx", "skx"))) % 2]
        elif tier == "thorough":
            j["defs"] = ["VH_DEEP 1"]
    return js


FTYPES = "float, double"


def fgrid(src, tier):
    """Floating-point functions: the integral types and long double only need a few configurations."""
    js = []
    for isa, abis in (T if tier == "thorough" else Q).items():
        for abi in abis:
            js.append(J(src, isa, abi, types=FTYPES, defs=["VH_DEEP 1"] if tier == "thorough" else []))
    for isa, abi in [("sse2", 1), ("sse2", 103), ("ssse3", 1), ("avx", 1), ("avx2", 109), ("avx2", 1), ("skx", 1), ("skx", 107), ("sse2", 302), ("avx2", 311)]:
        js.append(J(src, isa, abi, types="schar, ushort, short, int, long, llong, uint", part="int"))
    for isa, abi in [("sse2", 0), ("avx2", 102), ("skx", 1)]:
        js.append(J(src, isa, abi, types="ldouble", part="ldouble"))
    for isa, abis in (CT if tier == "thorough" else CQ).items():
        for abi in abis:
            js.append(J(src, isa, abi, const=1, types=FTYPES))
    return js


FWDQ = [("sse2", 0), ("sse2", 1), ("avx2", 1), ("avx2", 103), ("skx", 1), ("avx", 310), ("knl", 106)]


def mathgrid(src, tier):
    deep = tier == "thorough"
    d = ["VH_DEEP 1"] if deep else []
    js = [J(src, isa, abi, types=FTYPES, defs=d) for isa, abis in (T if deep else Q).items() for abi in abis]
    js += [J(src, isa, abi, types="ldouble", part="ldouble", defs=d) for isa, abi in [("sse2", 0), ("avx2", 102), ("skx", 1)]]
    for isa, abi in ([(i, a) for i in Q for a in (0, 1, 103, 106, 310)] if deep else FWDQ):
        for t in ("float", "double", "ldouble") if abi == 0 else ("float", "double"):
            js.append(J(src, isa, abi, types=t, defs=d + ["VH_FWD 1"], part="fwd" + t, cost=30))
    for isa, abis in (CT if deep else CQ).items():
        for abi in abis:
            js.append(J(src, isa, abi, const=1, types=FTYPES))
    return js


OTHERMEM = "ldouble, char, llong, ullong, wchar_t, char16_t, char32_t"


def other(src, tier, macro):
    """The element types outside of the default list as the other side of a load, store or cast."""
    quick = [("sse2", 1), ("sse2", 310), ("sse2", 103), ("avx", 313), ("avx2", 311), ("skx", 1), ("skx", 312)]
    return [J(src, isa, abi, types="schar, ushort, int, float, double", defs=[macro + " " + OTHERMEM], part="other")
            for isa, abi in (quick if tier == "quick" else [(i, a) for i in Q for a in (0, 1, 103, 109, 310, 311, 313)])]


ALLTYPES = ["schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double", "ldouble", "char", "wchar_t",
            "char16_t", "char32_t"]


def traitjobs(tier):
    deep = tier == "thorough"
    js = []
    for isa in Q:
        ts = ALLTYPES if deep else ["schar", "ushort", "int", "ulong", "float", "double", "ldouble"] if isa in ("sse2", "avx2", "skx") else ["ushort", "double", "int"]
        for t in ts:
            js.append(J("c14.cpp", isa, 1, types=t, opt="-O0", part=t, defs=["VH_DEEP 1"] if deep else [], cost=20))
    return js


OQ = {
    "sse2": [0, 1, 108],
    "ssse3": [104],
    "sse42": [1],
    "avx": [1, 311],
    "avx2": [0, 1, 104, 310],
    "knl": [1],
    "skx": [0, 1, 103, 301, 312],
}


def overloadjobs(tier):
    js = []
    for isa, abis in ({i: [0, 1, 2, 102, 103, 104, 108, 116, 300, 301, 302, 310, 311, 312] for i in Q} if tier == "thorough" else OQ).items():
        for abi in abis:
            if tier == "thorough":
                for k in range(0, len(ALLTYPES), 3):
                    js.append(J("c17.cpp", isa, abi, types=", ".join(ALLTYPES[k:k + 3]), opt="-O0", part="t%d" % k, cost=20))
            else:
                k = len(js)
                js.append(J("c17.cpp", isa, abi, types=["schar, uint, float", "ushort, long, double", "short, int, char16_t", "uchar, ulong, ldouble", "llong, float, int"][k % 5],
                            opt="-O0", part="a", cost=20))
    return js


CHECKS = {
    "C01": dict(
        drivers=["drv.cpp"],
        jobs=lambda tier: grid("c01.cpp", tier),
        bounds="all operators; 8-bit elements: all 65536 operand pairs; 16-bit: all 65536 values against a boundary set and "
               "all boundary pairs; 32/64-bit and floating point: all pairs over the boundary alphabet; every pair visits "
               "every lane; constant-operand jobs: both, one or no operand known at compile time",
    ),
    "C02": dict(
        drivers=["drv.cpp"],
        jobs=lambda tier: grid("c02.cpp", tier),
        bounds="<<, >>, <<=, >>= by vector and by scalar count; every count below the promoted width (32 for narrow types); every 8-bit value, every "
               "16-bit value for scalar counts, boundary alphabet above; every value/count pair visits every lane",
    ),
    "C03": dict(
        drivers=["drv.cpp"],
        jobs=lambda tier: grid("c03.cpp", tier),
        bounds="==, !=, <, <=, >, >= and unary !; all 8-bit pairs, all 16-bit values against neighbours and boundaries, all "
               "pairs over the boundary alphabets including NaN, infinities, signed zeros and subnormals",
    ),
    "C04": dict(
        drivers=["drvm.cpp"],
        jobs=lambda tier: grid("c04.cpp", tier, xtypes=tier == "thorough", types=MTYPES if tier == "quick" else "")
        + [J("c04.cpp", isa, abi, types=MTYPES) for isa, abi in [("avx2np", 1), ("avx2np", 311), ("avx2np", 108), ("avxnp", 1), ("avxnp", 313)]],
        bounds="all 2^N masks for N <= 14 (20 in thorough), all pairs of masks for N <= 7 (9); above that every single bit, pair, "
               "interval, prefix, suffix, periodic pattern and their complements",
    ),
    "C05": dict(
        drivers=["drv.cpp", "drvw.cpp"],
        jobs=lambda tier: grid("c05.cpp", tier, types="" if tier == "thorough" else WTYPES, q=WQ, cq=WCQ, xq=WXQ),
        bounds="=, all compound assignments with vector and scalar right-hand side, ++, --, unary -, masks of masks, bool; every "
               "operand pair of the alphabet in every lane, selected and unselected (unselected lanes also hold operands for which the "
               "operation is undefined); every mask pattern (all 2^N for N <= 8, structured above) with several operand windows",
    ),
    "C06": dict(
        drivers=["drvl.cpp"],
        jobs=lambda tier: grid("c06.cpp", tier, const=False, q=WQ, xq=WXQ) + other("c06.cpp", tier, "VH_MEM"),
        bounds="every pair of vector and memory element type; every value of 8-bit memory types, all boundary values above, in every lane; "
               "every offset permitted by the flag up to 16 elements, flush against an inaccessible page before and after; canaries on both sides of a store; "
               "element_aligned, vector_aligned, overaligned; copy_from, constructors, copy_to, masks from/to arrays of bool",
    ),
    "C07": dict(
        drivers=["drvl.cpp"],
        jobs=lambda tier: grid("c07.cpp", tier, const=False, q=WQ, xq=WXQ, types="" if tier == "thorough" else WTYPES) + other("c07.cpp", tier, "VH_MEM"),
        bounds="every pair of vector and memory element type; all 2^N masks for N <= 8 "
               "(12 in thorough), structured above; every cut of the array by an inaccessible page (before and after every element), every offset in "
               "a 64-byte block; canaries around and between selected elements",
    ),
    "C08": dict(
        drivers=["drvl.cpp", "drvm.cpp"],
        jobs=lambda tier: grid("c08.cpp", tier, const=False, q=WQ, xq=WXQ) + other("c08.cpp", tier, "VH_TO"),
        bounds="every pair of element types; static_simd_cast and simd_cast to fixed_size, deduced, native, same and scalar ABI of the target type, implicit "
               "conversions, to_fixed_size, to_native, to_compatible, fixed_size to std::array; every value of 8-bit source types, all boundary values above whose conversion "
               "is defined (including the extremes of every target type), in every lane; all 2^N masks for N <= 14, structured above",
    ),
    "C09": dict(
        drivers=["drv.cpp", "drvl.cpp", "drvp.cpp"],
        jobs=lambda tier: alternate(grid("c09.cpp", tier, q=RQ, cq=RCQ, xq=RXQ), tier),
        bounds="split into every list of sizes among: all 2-part lists at powers of two, halves, thirds, quarters and the ends (all for N <= 8 in thorough), "
               "selected 3- and 4-part lists and all ones; split into equal chunks of N/1,2,3,4,8,16 elements (deduced, fixed_size, scalar), vectors and masks; concat of "
               "deduced and of fixed_size parts and of arrays; resizing casts to 1,2,3,N/2,N-1,N,N+1,2N-1,2N,4N elements; every value of the alphabet in every lane, all 2^N masks "
               "for N <= 10; constants",
    ),
    "C10": dict(
        drivers=["drv.cpp", "drvr.cpp"],
        jobs=lambda tier: grid("c10.cpp", tier) + partials("c10.cpp", tier),
        bounds="reduce with plus, multiplies, bit_and, bit_or, bit_xor, lambdas and functors, hmin, hmax, plain and masked; min, max, minmax, clamp; every value in every lane "
               "with the rest neutral, all pairs of lanes, windows of mixed values, all value tuples for N <= 3; every mask (2^N for N <= 8, structured above) with unselected elements that would "
               "dominate the result (NaN, extremes); operands whose floating-point sum is exact in every order; constant operands",
    ),
    "C11": dict(
        drivers=["drv.cpp", "drvx.cpp"],
        jobs=lambda tier: fgrid("c11.cpp", tier),
        bounds="every sign, exponents (quick: all within 2^+-34 resp. 2^+-67, all extremes, every 16th resp. 64th between; thorough: all) times about 110 mantissas (all top 5 bits +-1 ulp, every single "
               "bit); once with neighbours of the same class and once mixed; every value in every lane; rint, nearbyint, lrint, llrint and sqrt in all four rounding modes; classification without "
               "floating-point exceptions; binary functions: all pairs of the boundary alphabet; fma: all triples of a small alphabet and cancelling products; ldexp, scalbn, scalbln: all exponents at the "
               "limits; constant operands; integral abs and signbit. The sign of fmin/fmax of two zeros, the exponent frexp reports for infinities and NaN, and lround of values outside of the range of long are not specified",
    ),
    "C12": dict(
        drivers=["drv.cpp", "drvx.cpp"],
        jobs=lambda tier: mathgrid("c12.cpp", tier),
        bounds="sin, cos: every sign, exponents and about 110 mantissas as for C11, the two floating-point neighbours on both sides of k pi/4 for all k < 1200 (20000) and geometrically growing k up "
               "to 1e12, the switch-over points between the reduction methods, in vectors of similar and of mixed magnitudes; at most 3 ulp (for float plus |x| 2^-51) from the "
               "long double value; hypot of two and three values, also with scalar operands: all pairs of the boundary alphabet, all triples of the small alphabet, dense pairs, with vectors of normal values only and mixed ones, at most 2 (3) ulp; forwarded functions "
               "on the same alphabets at most 2 ulp from the scalar function; special functions on a grid inside their domains",
    ),
    "C13": dict(
        drivers=["drvh.cpp"],
        jobs=lambda tier: alternate(grid("c13.cpp", tier, const=False, q=Q, xq=X_Q), tier),
        bounds="breadth-first search over all sequences of about 50 operations (times element indices 0, 1, N/2, N-2, N-1 and four operand values) on one vector and one mask; a state is the "
               "object representation including padding elements; every state reachable in one operation and its successors completely, further states in breadth-first order up to 2500 "
               "(thorough: 60000) expanded states per element type and configuration; in every state all elements are read in five ways and all reductions compared with the array model",
    ),
    "C14": dict(
        drivers=[],
        jobs=lambda tier: traitjobs(tier),
        bounds="every element type (quick: 7 on sse2, avx2 and skx, 3 on the other instruction sets), every size 0 to 65 of fixed_size and deduce, native, compatible, scalar and every register ABI of 8 to "
               "128 bytes; for each of those vector types every trait, member type, size, alignment, rebind to 7 (17) element types; resize to 0..66 from three ABIs; "
               "types that are not vectorizable",
    ),
    "C17": dict(
        drivers=[],
        jobs=lambda tier: overloadjobs(tier),
        bounds="every public function, constructor, operator and conversion with every combination of argument types from: all 17 arithmetic types, bool, enumerations, pointers, classes, "
               "vectors, masks and element references of the same and other element types and ABIs; for each whether the call is well-formed, whether the conversion is implicit, and its exact "
               "result type",
    ),
}


CHECKS["C18"] = dict(
    drivers=["drv.cpp"], ports=False, jobs=lambda tier: treejobs(tier),
    bounds="expressions evaluated in one function with no step that hides a value from the compiler: every pair of the operators + - * & | ^ min max, += -= *=, / % (inner operator on either side of the outer one); "
           "every operator with a constant (1, 3, 4, 100, 127, -1) followed by every operator or a shift; pairs of shifts by 1 to 7 and rotations; pairs of unary operators ++ -- - ~ abs; comparisons of expressions, selections and masked "
           "assignments by them, logic of two comparisons; conversions through every other element type; all triples of + - *. Thorough: further shapes, all configurations. All 65536 pairs of 8-bit values, all pairs of the boundary alphabet "
           "(and all 16-bit values against boundaries), each in every lane; operands for which a step is undefined (signed overflow of int and wider, division by zero) are left out")

# constant expressions: (instruction set, ABI, types, options)
CE_Q = [(isa, a, t, ()) for isa, abis in {"sse2": [0, 1, 302, 310], "sse42": [1], "avx": [1, 311], "avx2": [0, 1, 310, 311, 424], "knl": [1, 312], "skx": [0, 1, 300, 302, 310, 312, 432]}.items() for a in abis
        for t in (("schar, float", "uint, ulong", "short, double") if (a != 0 or isa == "sse2") and (isa, a) not in (("sse42", 1), ("avx", 311), ("skx", 432)) else ("short, int, double",))]
CE_Q += [("sse2", 1, "int, float", ("-std=gnu++20",)), ("avx2", 1, "uchar, double", ("-std=gnu++20",)), ("skx", 1, "ushort, float", ("-std=gnu++23",)), ("skx", 310, "schar, int", ("-std=gnu++23",)), ("avx2", 1, "short, int", ("-O2",)),
         ("skx", 312, "long, float", ("-O2",)), ("avx2", 1, "char, llong, ullong", ()), ("skx", 1, "wchar_t, char16_t, char32_t", ())]


def constjobs(tier):
    if tier == "quick":
        rows = CE_Q
    else:
        rows = [(isa, a, t, o) for isa in list(Q) + ["plain2", "f16"] for a in ([0, 1, 302, 310, 313] + ([311, 412, 424] if isa not in ("sse2", "ssse3", "sse41", "sse42") else []) + ([312, 315, 416, 432, 448] if isa in ("knl", "skx", "f16") else []))
                for t in ("schar, ushort", "uchar, short", "int, ulong, float", "uint, long, double", XTYPES.replace(", ldouble", "")) for o in ((), ("-std=gnu++20",), ("-std=gnu++23",), ("-O2",))]
    deep = ["VH_DEEP 1"] if tier == "thorough" else []
    return [J("c19.cpp", isa, a, types=t, opt="-O2" if "-O2" in o else "-O0", xflags=[x for x in o if x != "-O2"] + ["-fconstexpr-ops-limit=1000000000"], defs=deep, part=t.replace(" ", ""), cost=20) for isa, a, t, o in rows]


CHECKS["C19"] = dict(
    drivers=[], ports=False, pch=True, jobs=lambda tier: constjobs(tier),
    bounds="broadcast, generator constructor, subscripts, + - * / %, & | ^, unary + - !, six comparisons, compound assignment, min, max, minmax, clamp, mixed scalar operands in constant expressions (and shifts, ~, ++, operators of masks where a constant "
           "expression is possible): all pairs of 20 boundary values, each in four lanes (thorough: in every lane), as tables of constants computed by the compiler; comparisons also with infinities and NaN; register ABIs, partially filled registers and scalar; C++17, C++20, C++23 with GNU extensions")
CHECKS["C20"] = dict(
    drivers=[], ports=False, jobs=lambda tier: [J("c20.cpp", isa, 1, opt=o, xflags=x, part="", cost=5) for isa in (["sse2", "skx"] if tier == "quick" else list(Q))
                                                 for o, x in (("-O0", []), ("-O2", []), ("-O2", ["-std=c++17"]), ("-O1", ["-std=c++20", "-funsigned-char"]), ("-O1", ["-std=gnu++23"]), ("-O2", ["-ffast-math", "-DVH_FAST=1"]), ("-O1", ["-fsignaling-nans"]))],
    bounds="all 20 arithmetic types (with char8_t and 128-bit integers where available), each with all four cv-qualifications, and enumerations, classes, pointers, arrays; all 18 traits: whether the value exists, its type, its value, the variable template, "
           "value_or; the IEC 559 behaviour flags; C++17 to C++23, -ffast-math, signaling NaNs, unsigned char")

# programs of memory accesses: (instruction set, ABI, types)
MEM_Q = [("sse2", 1, "short, float", ()), ("sse2", 302, "int, float, schar", ()), ("sse2", 103, "double, uchar", ()), ("sse2", 310, "short, uint", ()), ("sse2", 0, "schar, double, int", ()), ("ssse3", 1, "schar, long", ()),
         ("ssse3", 302, "ushort, uint", ()), ("sse42", 310, "uchar, float", ()), ("sse42", 1, "ushort, double", ()), ("avx", 1, "float, int", ()), ("avx", 311, "short, double", ()), ("avx", 424, "float, ushort", ()),
         ("avx2", 1, "schar, float", ("-O3",)), ("avx2", 1, "ulong, ushort", ()), ("avx2", 310, "float, ushort", ()), ("avx2", 113, "int", ()), ("avx2", 107, "uchar, double", ()), ("avx2", 302, "char, short, int", ()),
         ("avx2", 311, "int, uchar", ()), ("knl", 1, "long, float", ()), ("knl", 312, "int", ()), ("knl", 1, "short", ()), ("skx", 1, "schar, float", ()), ("skx", 1, "short, double", ("-O3",)), ("skx", 312, "ushort, double", ()),
         ("skx", 311, "schar, uint", ()), ("skx", 302, "uchar, float", ()), ("skx", 310, "short, ulong", ()), ("skx", 432, "schar, int", ()), ("skx", 109, "float", ()), ("neon64", 1, "short, float", ()), ("neon32", 310, "schar, int", ()), ("vsx", 1, "int, double", ()),
         ("nosimd", 103, "short, float", ())]


# three accesses of one alphabet: (instruction set, ABI, type, alphabet)
MEM_3 = [("sse2", 1, "short", 1), ("sse2", 302, "float", 2), ("sse2", 310, "uint", 8), ("sse2", 103, "double", 4), ("sse42", 310, "uchar", 8), ("avx", 1, "float", 2), ("avx", 311, "short", 8),
         ("avx2", 1, "schar", 8), ("avx2", 1, "ushort", 2), ("avx2", 310, "float", 1), ("avx2", 113, "int", 4), ("avx2", 302, "short", 8), ("knl", 1, "long", 8), ("skx", 1, "float", 4),
         ("skx", 312, "ushort", 1), ("skx", 302, "uchar", 8), ("skx", 310, "short", 2), ("neon64", 1, "short", 1)]


def memjobs(tier):
    if tier == "quick":
        js = [J("c21.cpp", isa, a, types=x, opt=o[0] if o else "-O2", defs=["VH_FAM 16", "VH_DEPTH 2"], part=x + " pairs", cost=15) for i, (isa, a, t, o) in enumerate(MEM_Q) for x in t.split(", ")[i % 2:][:1]]
        # masks and arrays of bool have their own code for every number of elements
        for isa, abis, t in (("sse2", (1, 310, 302), "schar, int, double"), ("sse41", (1,), "short, int"), ("avx", (1, 311), "short, float, double"), ("avx2", (1, 311, 113), "schar, short, float, long"),
                             ("knl", (1,), "schar, short, int, double"), ("knl", (312,), "float, long"), ("skx", (1, 312, 310), "schar, short, int, double")):
            js += [J("c21.cpp", isa, a, types=t, defs=["VH_FAM 8", "VH_DEPTH 2"], part="masks %d" % a, cost=15) for a in abis]
        return js + [J("c21.cpp", isa, a, types=t, defs=["VH_FAM %d" % f], part="%s fam%d" % (t, f), cost=25) for isa, a, t, f in MEM_3]
    js = []
    for isa in list(Q) + list(PQ):
        for a in ([0, 1, 302, 310, 313, 103, 107] + ([311, 412, 424] if isa in ("avx", "avx2", "knl", "skx") else []) + ([312, 315, 432, 448] if isa in ("knl", "skx") else [])) if isa in Q else [1, 302, 310, 103]:
            for t in ("schar", "uchar", "short, int", "ushort, float", "uint, long", "ulong, double"):
                js.append(J("c21.cpp", isa, a, types=t, defs=["VH_FAM 16", "VH_DEPTH 2"], part=t.replace(" ", "") + " pairs", cost=30))
                for o in ("-O2", "-O3"):
                    js.append(J("c21.cpp", isa, a, types=t, opt=o, defs=["VH_FAM 15"], part=t.replace(" ", "") + " depth3", cost=60))
    # four accesses
    for isa, a, t, o in MEM_Q:
        for x in t.split(", "):
            for f in (1, 2, 4, 8):
                js.append(J("c21.cpp", isa, a, types=x, defs=["VH_DEPTH 4", "VH_FAM %d" % f], part="%s fam%d depth4" % (x, f), cost=150))
    return js


CHECKS["C21"] = dict(
    drivers=[], ports=False, jobs=lambda tier: memjobs(tier),
    bounds="all straight-line programs of two of the 26 accesses below, and of three accesses (thorough: four) from one of four alphabets: loads and stores at two overlapping offsets, masked loads and stores, scalar writes, reads and copies of the same array; converting, masked converting and "
           "generator accesses to arrays of two types; reads, writes and swaps through element references, copies and masked assignment of vectors; loads, stores, reads and writes of masks and of arrays of bool, masked accesses with them; each program is one "
           "function without barriers, optimised at -O2 or -O3, started from four states of memory and masks, and all memory, vectors, masks and the scalars it read are compared")

# back ends for other targets
PQ = {"neon64": [1, 302, 310, 313, 103, 108], "neon32": [1, 302, 113], "neon7": [1, 310], "vsx": [1, 310, 107], "nosimd": [1, 104]}
PSMALL = [("neon64", 1, "schar, ushort, int, float"), ("neon64", 310, "uchar, short, float"), ("neon64", 302, "schar, short, uint"), ("neon64", 104, "double, long"),
          ("neon32", 1, "uchar, float, double"), ("neon7", 310, "short, int"), ("vsx", 1, "long, double"), ("vsx", 310, "uchar, short, uint"), ("nosimd", 103, "int, double")]


def ports(prop, tier):
    src = prop.lower() + ".cpp"
    deep = ["VH_DEEP 1"] if tier == "thorough" else []
    if tier == "quick":
        if prop == "C14":
            return [J(src, isa, 1, types=t, opt="-O0", part=t, cost=20) for isa, t in [("neon64", "ushort"), ("neon32", "double"), ("neon7", "float"), ("vsx", "int"), ("nosimd", "long")]]
        if prop == "C17":
            return [J(src, isa, abi, types=t, opt="-O0", part="a", cost=20) for isa, abi, t in [("neon64", 1, "schar, float"), ("neon7", 310, "int"), ("vsx", 1, "double"), ("nosimd", 103, "ushort")]]
        small = PSMALL
        if prop == "C09":
            small = [j for j in PSMALL if j[:2] not in (("neon64", 310), ("vsx", 310))]
        if prop in ("C11", "C12"):
            small = [("neon64", 1, FTYPES), ("neon64", 310, "float"), ("neon64", 103, FTYPES), ("neon32", 1, FTYPES), ("neon7", 1, "float"), ("vsx", 1, FTYPES), ("nosimd", 103, "float")]
        return [J(src, isa, abi, types=t, part="port") for isa, abi, t in small]
    if prop == "C14":
        return [J(src, isa, 1, types=t, opt="-O0", part=t, cost=20, defs=deep) for isa in PQ for t in ("schar", "ushort", "int", "long", "float", "double", "ldouble")]
    if prop == "C17":
        return [J(src, isa, abi, types=t, opt="-O0", part="a", cost=20) for isa in PQ for abi in PQ[isa][:2] for t in ("schar, uint, double", "float, long, ldouble")]
    if prop in ("C11", "C12"):
        return [J(src, isa, abi, types=FTYPES, defs=deep) for isa in PQ for abi in PQ[isa]]
    return [J(src, isa, abi, defs=deep) for isa in PQ for abi in PQ[isa]]


# expressions of several operators: (instruction set, ABI, types, families)
TREES_Q = [
    ("sse2", 1, "schar", 1), ("sse2", 1, "schar", 2), ("sse2", 1, "int", 4), ("sse2", 310, "short", 5), ("sse2", 103, "uchar", 9), ("sse2", 0, "short", 10),
    ("ssse3", 1, "short", 4), ("sse41", 1, "uchar", 2), ("sse42", 1, "ulong", 4), ("sse42", 313, "schar", 5), ("avx", 1, "float, double", 9), ("avx", 1, "short", 2), ("avx", 311, "int", 5),
    ("avx2", 1, "schar", 2), ("avx2", 1, "schar", 4), ("avx2", 1, "short", 1), ("avx2", 1, "float", 4), ("avx2", 1, "long, uint", 9), ("avx2", 311, "ushort", 5), ("avx2", 113, "schar", 9),
    ("avx2", 109, "int", 2), ("avx2", 1, "long", 2), ("knl", 1, "int, schar", 1), ("knl", 312, "double", 5), ("skx", 1, "schar", 1), ("skx", 1, "short", 2), ("skx", 1, "uchar", 4), ("skx", 312, "short", 5),
    ("skx", 312, "float, long", 9), ("skx", 311, "schar", 2), ("skx", 1, "double", 4), ("skx", 107, "short", 9),
    ("neon64", 1, "schar", 3), ("neon64", 310, "short", 1), ("neon32", 1, "short", 1), ("vsx", 1, "schar", 1), ("nosimd", 103, "short", 1),
]


def treejobs(tier):
    if tier == "quick":
        rows = TREES_Q
    else:
        rows = [(isa, a, t, f) for isa in list(Q) + list(PQ) for a in ([0, 1, 310, 311, 103] if isa in Q else [1, 310]) + ([312, 113] if isa == "skx" else [])
                for t in ("schar", "uchar", "short", "ushort", "int", "ulong", "long", "float, double") for f in (1, 2, 4, 8)]
    deep = ["VH_DEEP 1"] if tier == "thorough" else []
    return [J("c18.cpp", isa, a, types=t, xflags=["-ffp-contract=off"], defs=["VH_FAM %d" % f] + deep, part="%s fam%d" % (t.replace(" ", ""), f), cost=20 + 20 * bool(f & 6)) for isa, a, t, f in rows]


# build options
MODES = {
    "O0": ("-O0", []), "O1": ("-O1", []), "O3": ("-O3", []), "Os": ("-Os", []), "std17": ("-O2", ["-std=c++17"]), "gnu20": ("-O2", ["-std=gnu++20"]), "std23": ("-O1", ["-std=c++23"]),
    "noinline": ("-O2", ["-D_GLIBCXX_SIMD_NO_ALWAYS_INLINE"]), "noinline0": ("-O0", ["-D_GLIBCXX_SIMD_NO_ALWAYS_INLINE"]), "uchar": ("-O2", ["-funsigned-char"]),
    "assert": ("-O2", ["-D_GLIBCXX_ASSERTIONS"]), "noexc": ("-O2", ["-fno-exceptions", "-fno-rtti"]), "errno": ("-O2", ["-fno-math-errno"]),
    "wrapv": ("-O2", ["-fwrapv"]), "native": ("-O3", ["-ftree-vectorize", "-mprefer-vector-width=512"]),
    "ubsan": ("-O1", ["-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=shift-base"]),
    "noshiftopt": ("-O2", ["-D_GLIBCXX_SIMD_NO_SHIFT_OPT"]), "debugub": ("-O1", ["-D_GLIBCXX_DEBUG_UB"]), "maskcast": ("-O1", ["-D_GLIBCXX_SIMD_ENABLE_IMPLICIT_MASK_CAST", "-D_GLIBCXX_SIMD_ENABLE_STATIC_CAST"]),
    "simddebug": ("-O1", ["-D_GLIBCXX_SIMD_DEBUG"]), "snan": ("-O2", ["-fsignaling-nans", "-frounding-math"]), "fast": ("-O2", ["-ffast-math"]), "fastfp": ("-O2", ["-ffast-math", "-DVH_FINITE=2"]), "finite": ("-O2", ["-ffinite-math-only", "-DVH_FINITE=1"]),
    "asan": ("-O1", ["-fsanitize=address"]),
    "clang": ("-O2", ["clang++"]), "clang0": ("-O0", ["clang++"]), "clang20": ("-O3", ["clang++", "-std=c++20"]),
}
ALLDRV = ["drv.cpp", "drvm.cpp", "drvw.cpp", "drvl.cpp", "drvp.cpp", "drvr.cpp", "drvx.cpp", "drvh.cpp"]
# element types with which a check's own operations (on selected or unselected elements) stay defined
SAFE = {"C05": "schar, ushort, ulong, float", "C10": "schar, ushort, ulong, float", "C11": "float, double", "C12": "float, double", "C13": "schar, ushort, ulong, double"}


def modejob(prop, mode, isa, abi, types, deep=False):
    opt, x = MODES[mode]
    d = ["VH_DEEP 1"] if deep else []
    if mode == "fast":  # no promise for floating point
        types = ", ".join([t for t in types.split(", ") if t not in ("float", "double")] or ["short"])
    if prop == "C18":
        x = x + ["-ffp-contract=off"]
    return J(prop.lower() + ".cpp", isa, abi, types=types, opt=opt, xflags=x, part="%s %s %s" % (prop, mode, types.replace(" ", "")), defs=d, cost=30)


MCFG = [("sse2", 1, "schar, ushort, int"), ("avx2", 310, "schar, int, float"), ("avx2", 113, "short, ulong, double"), ("skx", 1, "schar, uint, float"), ("skx", 312, "ushort, double"),
        ("ssse3", 107, "uchar, float"), ("sse41", 1, "short, uint"), ("avx", 311, "ushort, int, double"), ("knl", 1, "schar, long, float"), ("skx", 302, "schar, float"),
        ("sse2", 103, "uint, double"), ("avx2", 1, "uchar, float, long"), ("sse42", 310, "uchar, double"), ("skx", 432, "short, float"), ("sse2", 0, "schar, float")]
MPROPS = ["C%02d" % k for k in range(1, 14)]


def mtypes(prop, t):
    ok = SAFE.get(prop, "")
    if not ok:
        return t
    return ", ".join([x for x in t.split(", ") if x in ok.split(", ")] or ok.split(", ")[-2:])


def modes(prop, only=None):
    return [modejob(prop, m, isa, abi, mtypes(prop, t)) for m in MODES if not only or m in only for isa, abi, t in MCFG[:5]]


# which configuration of MCFG each (check, sanitizer) visits in the quick tier
def ubjobs(tier):
    js = []
    for p, prop in enumerate(MPROPS):
        if tier == "thorough":
            rows = MCFG + [("neon64", 310, "schar, float"), ("vsx", 1, "short, double"), ("nosimd", 104, "int, float")]
            js += [modejob(prop, m, isa, abi, mtypes(prop, t)) for isa, abi, t in rows for m in ("ubsan", "asan")]
            js += [dict(modejob(prop, "ubsan", isa, abi, mtypes(prop, t)), const=1) for isa, abi, t in MCFG[:9] if prop not in ("C06", "C07", "C08", "C13")]
            continue
        for k in range(4):
            js.append(modejob(prop, "ubsan", *[mtypes(prop, x) if i == 2 else x for i, x in enumerate(MCFG[(4 * p + k * 4 + k) % len(MCFG)])]))
        if prop in ("C05", "C06", "C07", "C08", "C09", "C13"):
            for k in range(2):
                js.append(modejob(prop, "asan", *[mtypes(prop, x) if i == 2 else x for i, x in enumerate(MCFG[(2 * p + k * 7 + 1) % len(MCFG)])]))
    if tier == "quick":
        js += [modejob("C09", "ubsan", "neon64", 310, "schar, float"), modejob("C04", "ubsan", "neon64", 310, "short, float"), modejob("C01", "ubsan", "vsx", 1, "short, double"),
               modejob("C02", "ubsan", "nosimd", 104, "short, uint"), modejob("C02", "ubsan", "avx2", 1, "schar, long"), modejob("C02", "ubsan", "sse2", 310, "schar, long"),
               modejob("C10", "ubsan", "skx", 1, "short, uint"), modejob("C01", "ubsan", "sse2", 0, "ushort, uint, long"), modejob("C01", "ubsan", "avx2", 103, "ushort, ulong"), modejob("C01", "ubsan", "skx", 312, "ushort, long"),
               modejob("C02", "ubsan", "sse2", 0, "ushort, short, ulong"), modejob("C02", "ubsan", "skx", 1, "ushort, int"), modejob("C02", "ubsan", "avx", 1, "uchar, short, uint"),
               modejob("C05", "ubsan", "sse2", 0, "ushort, uchar"), modejob("C10", "ubsan", "sse2", 104, "ushort, ulong"), modejob("C08", "ubsan", "sse2", 0, "ushort, double"), modejob("C18", "ubsan", "sse2", 0, "ushort"), modejob("C04", "ubsan", "skx", 312, "schar, int"), modejob("C01", "ubsan", "sse2", 310, "short, int")]
    return dedup(js)


def dedup(js):
    out, seen = [], set()
    for j in js:
        k = repr(sorted(j.items()))
        if k not in seen:
            seen.add(k)
            out.append(j)
    return out


OMODES = ["O0", "O3", "std17", "gnu20", "std23", "uchar", "noinline", "assert", "noexc", "errno", "wrapv", "native", "fastfp", "snan", "noshiftopt", "debugub", "maskcast", "simddebug", "Os", "finite"]


def optjobs(tier):
    if tier == "thorough":
        return [modejob(prop, m, isa, abi, mtypes(prop, t)) for prop in MPROPS for m in OMODES + ["O1", "noinline0"] if not (m == "fastfp" and prop == "C12")
                for isa, abi, t in MCFG[:9]]
    js = []
    for p, prop in enumerate(MPROPS):
        for i, m in enumerate(OMODES):
            if (m == "fastfp" and prop == "C12") or (p + 2 * i) % 3 == 0:
                continue
            isa, abi, t = MCFG[(5 * p + 4 * i + 1) % len(MCFG)]
            js.append(modejob(prop, m, isa, abi, mtypes(prop, t)))
    # what the code itself makes depend on the language standard and on configuration macros: shifts
    js += [modejob("C02", m, isa, abi, t) for m, isa, abi, t in
           [("gnu20", "sse2", 1, "schar, short"), ("gnu20", "sse42", 310, "schar, short"), ("gnu20", "avx", 1, "schar, int"), ("gnu20", "avx2", 1, "schar, short, long"), ("gnu20", "avx2", 310, "schar, int"),
            ("gnu20", "knl", 1, "schar, short"), ("gnu20", "skx", 1, "schar, short"), ("gnu20", "skx", 310, "schar, short, int"), ("gnu20", "sse2", 103, "short, long"), ("noshiftopt", "sse2", 1, "schar, ushort"),
            ("noshiftopt", "avx2", 1, "short, uchar"), ("noshiftopt", "skx", 1, "schar, ulong"), ("std23", "avx2", 1, "schar, short"), ("std23", "sse2", 310, "schar, short")]]
    # and on assumptions about floating-point values: classification, signs, infinities
    js += [modejob("C11", m, isa, abi, t) for m, isa, abi, t in [("fastfp", "avx2", 113, "float, double"), ("fastfp", "sse2", 1, "float, double"), ("fastfp", "skx", 107, "float, double"), ("finite", "skx", 312, "float, double"), ("finite", "avx2", 1, "float, double")]]
    js += [modejob("C10", m, isa, abi, t) for m, isa, abi, t in [("fastfp", "avx2", 1, "float, double"), ("finite", "skx", 312, "float, double"), ("finite", "sse2", 103, "float, double")]]
    return dedup(js)


CHECKS["C15"] = dict(
    drivers=ALLDRV, ports=False, jobs=lambda tier: ubjobs(tier),
    bounds="the operand, lane, mask, offset and operation-sequence enumerations of C01 to C13, executed in builds instrumented for undefined behaviour (signed overflow, shift counts, "
           "arguments of builtins, alignment, bounds, invalid values, null) and, for everything that reads or writes memory, for accesses outside of objects; quick: 4 of 15 configurations per "
           "property, rotating, plus ARM, POWER and fallback back ends; thorough: all, and known operands. Left shift of negative values and of bits into the sign is not counted (defined since C++20)")
CHECKS["C16"] = dict(
    drivers=ALLDRV, ports=False, jobs=lambda tier: optjobs(tier),
    bounds="the enumerations of C01 to C13 repeated under 20 sets of build options (optimisation levels, language standards, signedness of char, assertions, no exceptions, no errno, wrapping "
           "arithmetic, preferred vector width, signaling NaNs, -ffinite-math-only with finite values, -ffast-math with normal values (and without division and C12, whose precision it gives up), inlining off, and the library's own configuration macros); quick: two thirds of all (property, options) pairs, each in "
           "one of 15 configurations, rotating; thorough: all pairs in 9 configurations")


# partially filled registers whose unused elements hold garbage: (instruction set, ABI, types, kind of garbage)
DIRTY_Q = [("sse2", 310, "schar, ushort, int, float", 1), ("sse2", 103, "short, float", 2), ("ssse3", 313, "uchar, int, float", 2), ("sse42", 310, "short, uint, double", 1), ("avx", 311, "schar, float, int", 1),
           ("avx", 424, "double, short", 2), ("avx2", 311, "ushort, int, double", 2), ("avx2", 310, "uchar, float, ulong", 1), ("avx2", 113, "schar, short, float", 1), ("avx2", 315, "uint, float", 1), ("knl", 312, "schar, float, long", 1),
           ("knl", 311, "short, int", 2), ("skx", 312, "schar, ushort, float", 1), ("skx", 312, "uint, double, long", 2), ("skx", 311, "short, int, double", 1), ("skx", 448, "uchar, float", 2),
           ("skx", 107, "ushort, double", 1), ("neon64", 310, "schar, ushort, float", 1), ("neon32", 313, "short, int, float", 2), ("vsx", 310, "uchar, uint, double", 1)]
DIRTY_T = [(isa, a, "", 1 + (i + a) % 2) for i, isa in enumerate(list(Q) + ["neon64", "neon32", "neon7", "vsx"])
           for a in ([310, 313, 103, 107, 113] + ([311, 314, 424, 412] if isa in ("avx", "avx2", "knl", "skx") else []) + ([312, 315, 448] if isa in ("knl", "skx") else []))]


def dirtyjobs(prop, tier):
    if prop not in DIRTY:
        return []
    rows = DIRTY_T if tier == "thorough" else DIRTY_Q if tier == "dirty" else DIRTY[prop]
    js = []
    for isa, a, t, k in rows:
        if prop in ("C11", "C12"):
            t = ", ".join([x for x in t.split(", ") if x in ("float", "double")] or ["float"])
        js.append(J(prop.lower() + ".cpp", isa, a, types=t, xflags=["-DVH_DIRTY=%d" % k], part="dirty%d %s" % (k, t.replace(" ", "")), defs=["VH_DEEP 1"] if tier == "thorough" else []))
    return js


DIRTY = {prop: DIRTY_Q[i % 2::2] for i, prop in enumerate(["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12"])}
DIRTY["C07"], DIRTY["C09"], DIRTY["C11"] = DIRTY_Q, DIRTY_Q[::3], DIRTY_Q[::2]
for p in DIRTY:
    CHECKS[p]["bounds"] += "; all of this also on partially filled registers and masks that hold garbage (all bits set, NaN, infinity, smallest integer) beyond the last element"


def isajobs(prop, isas):
    src = prop.lower() + ".cpp"
    js = []
    for isa in isas:
        for abi in [1, 310, 103, 300] + ([311, 312, 301, 302, 448] if isa == "f16" else [311] if isa == "plain2" else []):
            js += [J(src, isa, abi, types=t, opt="-O0" if prop in ("C14", "C17") else "-O2", part="isa" + t[:3]) for t in
                   (["float, double"] if prop in ("C11", "C12") else ["schar, ushort, int, float, long" if abi % 2 else "uchar, short, uint, double, ulong"])]
        if prop in ("C01", "C02", "C03", "C05", "C09", "C10"):
            js.append(J(src, isa, 1, const=1, types="schar, ushort, int, float, double"))
    return js


def jobs(prop, tier):
    if tier.startswith("isas:"):
        return isajobs(prop, tier.split(":")[1].split(","))
    if tier == "dirty":
        return dirtyjobs(prop, tier)
    if tier.startswith("modes"):
        return modes(prop, tier.split(":")[1].split(",") if ":" in tier else None)
    if tier == "ports":
        return ports(prop, tier)
    more = isajobs(prop, ["sse3", "plain1", "plain2", "f16"]) if tier == "thorough" and CHECKS[prop].get("ports", True) else []
    return CHECKS[prop]["jobs"](tier) + more + dirtyjobs(prop, tier) + (ports(prop, tier) if CHECKS[prop].get("ports", True) else [])
