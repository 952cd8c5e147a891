#!/usr/bin/env python3
"""Driver: builds one executable per configuration from /repo's working tree, lets each enumerate its
whole bounded state space against the reference model, and aggregates the results.

  mc.py <property>                    tier from $VERIF_TIER (default quick)
  mc.py <property> --replay FILE      re-run one recorded violation
"""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
# g++ 13 puts variables of 64-byte alignment into fake stack frames of less alignment (PR 110027)
ENV = dict(os.environ, ASAN_OPTIONS="detect_stack_use_after_return=0:detect_leaks=0:handle_segv=0:allow_user_segv_handler=1", UBSAN_OPTIONS="print_stacktrace=0")
HARN = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import plan  # noqa: E402

CXX = "g++"
BASE = ["-std=gnu++17", "-w", "-fmax-errors=8", "-ftemplate-depth=1024", "-mfpmath=sse", "-I" + os.path.join(HARN, "neon"),
        "-I" + os.path.join(HARN, "ppc")]
INFRA = re.compile(r"internal compiler error|Killed|No space left|virtual memory exhausted|out of memory"
                   r"|cannot execute|Cannot allocate|write error")


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


class Infra(Exception):
    pass


class Run:
    def __init__(self, prop, tier, tmp):
        self.prop, self.tier, self.tmp = prop, tier, tmp
        self.spec = plan.CHECKS[prop]
        self.lock = threading.Lock()
        self.results, self.viol, self.discarded = [], [], []
        self.t_compile = self.t_run = 0.0

    def sh(self, cmd, timeout, cwd=None):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd,
                               stdin=subprocess.DEVNULL, env=ENV)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode("utf-8", "replace")

    # ------------------------------------------------------------------ building
    def compile(self, cmd, out):
        t = time.time()
        for attempt in range(2):
            rc, txt = self.sh(cmd, 700)
            if rc == 0:
                break
            if rc is not None and "error:" in txt and not INFRA.search(txt):
                break
            time.sleep(1)
        with self.lock:
            self.t_compile += time.time() - t
        if rc == 0:
            return None
        if rc is None or INFRA.search(txt) or "error:" not in txt:
            raise Infra("compiler failed for %s:\n%s" % (out, txt[-2000:]))
        return txt

    def flags(self, isa, opt, extra=()):
        """compiler and options"""
        if "clang++" in extra:
            drop = ("-fmax-errors=8", "-mfpmath=sse", "-mno-avx512er", "-mno-avx512pf", "-mno-prefetchwt1")
            return ["clang++", "-ferror-limit=8"] + [f for f in BASE + [opt] + plan.ISAS[isa]["flags"] + list(extra) if f not in drop + ("clang++",)]
        return [CXX] + BASE + [opt] + plan.ISAS[isa]["flags"] + list(extra)

    def build_common(self, jobs):
        self.objs = {}
        tasks = []
        srcs = ["core.cpp"] + self.spec.get("drivers", [])
        with cf.ThreadPoolExecutor(8) as ex:
            for s in srcs:
                o = os.path.join(self.tmp, s.replace(".cpp", ".o"))
                self.objs[s] = o
                tasks.append(ex.submit(self.compile, [CXX, "-std=gnu++17", "-O2", "-w", "-c",
                                                      os.path.join(HARN, s), "-o", o], o))
            combos = {}
            for j in jobs:
                combos.setdefault((j["isa"], j["opt"], tuple(j["xflags"])), 0)
                combos[(j["isa"], j["opt"], tuple(j["xflags"]))] += 1
            self.pch, ptasks = {}, {}
            if self.spec.get("pch", True):
                for k, n in combos.items():
                    if n < 2 or "clang++" in k[2]:
                        continue
                    d = os.path.join(self.tmp, "pch-" + hashlib.md5(repr(k).encode()).hexdigest()[:8])
                    os.mkdir(d)
                    ptasks[k] = (d, ex.submit(self.compile, self.flags(*k) + [
                        "-I" + REPO, "-I" + HARN, "-x", "c++-header", os.path.join(HARN, "vh.h"),
                        "-o", os.path.join(d, "vh.h.gch")], d))
            for t in tasks:
                e = t.result()
                if e:
                    raise Infra("harness core does not compile:\n" + e)
            for k, (d, t) in ptasks.items():
                if t.result() is None:  # a header that does not compile is reported by the jobs themselves
                    self.pch[k] = d

    def name(self, j):
        return "%s abi=%s%s%s%s" % (j["isa"], j["abi"], " const" if j["const"] else "",
                                    " " + j["opt"] if j["opt"] != "-O2" else "",
                                    "".join(" " + x for x in j["xflags"]) + (" [%s]" % j["part"] if j["part"] else ""))

    def confirm(self, j, src, ident, bads, lim):
        """g++ 13 miscompiles AVX512F-without-DQ code that spills an 8-bit mask register: it stores one byte and
        reloads two. What such a build reports counts only if the same operation also fails without optimisation,
        where no such spill/reload combination is generated. See DESIGN.md."""
        exe = os.path.join(self.tmp, ident + "-O0")
        err = self.compile(self.flags(j["isa"], "-O0", j["xflags"]) + ["-I" + REPO, "-I" + HARN, src]
                           + list(self.objs.values()) + ["-o", exe], exe)
        if err:
            return bads + ["compile|-|at -O0: " + err[:300]]
        alias = None
        if j["src"] == "c21.cpp":  # what needs the optimiser by nature: it also counts if it depends on the types of the accesses
            alias = exe + "-na"
            if self.compile(self.flags(j["isa"], j["opt"], j["xflags"]) + ["-fno-strict-aliasing", "-I" + REPO, "-I" + HARN, src]
                            + list(self.objs.values()) + ["-o", alias], alias):
                alias = None
        keep = []
        for op in list(dict.fromkeys(b.split("|")[0] for b in bads)):
            args = (["--deep"] if self.tier == "thorough" else []) + ([op] if op not in ("startup", "abnormal", "timeout") else [])
            rc, out = self.sh([exe] + args, lim, cwd=self.tmp)
            mine = [b for b in bads if b.split("|")[0] == op]
            fails = lambda rc, out: rc is None or rc not in (0, 3) or "BAD " in out
            if fails(rc, out) or (alias and not fails(*self.sh([alias] + args, lim, cwd=self.tmp))):
                keep += mine
            else:
                with self.lock:
                    self.discarded.append(self.name(j) + " " + mine[0])
        os.unlink(exe)
        if alias:
            os.unlink(alias)
        return keep

    def job(self, j, only=None):
        ident = hashlib.md5(json.dumps(j, sort_keys=True).encode()).hexdigest()[:10]
        src, exe = os.path.join(self.tmp, ident + ".cpp"), os.path.join(self.tmp, ident)
        with open(src, "w") as f:
            f.write('#include "vh.h"\n#define VH_ISA "%s"\n#define VH_ABI %s\n#define VH_CONST %d\n'
                    % (j["isa"], j["abi"], j["const"]))
            if j["types"]:
                f.write("#define VH_TYPES %s\n" % j["types"])
            for d in j["defs"]:
                f.write("#define %s\n" % d)
            f.write('#include "%s"\n' % os.path.join(HARN, j["src"]))
        k = (j["isa"], j["opt"], tuple(j["xflags"]))
        inc = (["-I" + self.pch[k]] if k in self.pch else []) + ["-I" + REPO, "-I" + HARN]
        err = self.compile(self.flags(*k) + inc + [src] + list(self.objs.values()) + ["-o", exe], exe)
        nm = self.name(j)
        if err:
            with self.lock:
                self.viol.append((j, "compile|-|" + " / ".join(
                    l.strip() for l in err.splitlines() if "error:" in l)[:400], nm))
            return
        t = time.time()
        args = [exe] + (["--deep"] if self.tier == "thorough" else [])
        lim = 600 if self.tier == "quick" else 3600
        rc, out = self.sh(args + ([only] if only else []), lim, cwd=self.tmp)
        with self.lock:
            self.t_run += time.time() - t
        bads = [l[4:] for l in out.splitlines() if l.startswith("BAD ")]
        stats = re.findall(r"^STATS (\d+) (\d+) (\d+) (\d+)$", out, re.M)
        done = rc in (0, 3) and "DONE" in out
        if rc is None:
            bads.append("timeout|-|no answer after %d s; last output %r" % (lim, out[-200:]))
        elif not done and not bads:
            rc2, out2 = self.sh(args, lim, cwd=self.tmp)
            if rc2 == rc:
                bads.append("abnormal|-|exit code %s output %r" % (rc, out2[-200:]))
            else:
                raise Infra("unstable run of %s: %s then %s" % (nm, rc, rc2))
        if bads and plan.ISAS[j["isa"]].get("confirm"):
            bads = self.confirm(j, src, ident, bads, lim)
        elif bads and rc is not None and not only:  # replay before report
            ops = list(dict.fromkeys(b.split("|")[0] for b in bads))[:3]
            again = []
            for op in ops:
                rc2, out2 = self.sh(args + [op], lim, cwd=self.tmp)
                again += [l for l in out2.splitlines() if l.startswith("BAD ")]
            for attempt in range(3):  # it may need what the operations before it left in registers or on the stack
                if not again:
                    rc2, out2 = self.sh(args, lim, cwd=self.tmp)
                    again += [l for l in out2.splitlines() if l.startswith("BAD ")]
            if not again and not any(b.startswith(("abnormal", "timeout")) for b in bads):
                raise Infra("violation not reproducible: %s %s" % (nm, bads[0]))
        with self.lock:
            for b in bads:
                self.viol.append((j, b, nm))
            s = [int(x) for x in stats[-1]] if stats else [0, 0, 0, 0]
            sample = re.findall(r"^SAMPLE (.*)$", out, re.M)
            self.results.append((nm, s, sample[0] if sample else None))
        os.unlink(exe)
        os.unlink(src)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        return [e for e in json.load(open(p)) if e["property"] == prop and e["status"] == "known"]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--isa")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("thorough", "ports", "dirty") or a.tier.startswith(("modes", "isas:")) else "quick"
    t0 = time.time()
    prop = a.property
    jobs = plan.jobs(prop, tier)
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        jobs, only = [r["job"]], r["op"] if r["op"] not in ("compile", "abnormal", "timeout", "startup") else None
    if a.isa:
        jobs = [j for j in jobs if j["isa"] in a.isa.split(",")]
    if a.list:
        for j in jobs:
            print(j)
        print(len(jobs))
        return 0
    have = cpu_flags()
    todo, skipped = [], []
    for j in jobs:
        (todo if plan.ISAS[j["isa"]]["needs"] <= have else skipped).append(j)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        run = Run(prop, tier, tmp)
        run.build_common(todo)
        todo.sort(key=lambda j: -j["cost"])
        with cf.ThreadPoolExecutor(8) as ex:
            fs = {ex.submit(run.job, j, only): j for j in todo}
            for f in cf.as_completed(fs):
                f.result()
                if run.viol and os.environ.get("VERIF_FIRST"):  # development: one violation is enough
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
                if a.verbose:
                    print("done", run.name(fs[f]), "%.1f" % (time.time() - t0), flush=True)
    except Infra as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return report(run, prop, tier, t0, skipped, a.replay)


def report(run, prop, tier, t0, skipped, replaying):
    known = load_known(prop)
    new, seen_known = [], collections.OrderedDict()
    for j, b, nm in run.viol:
        key = nm + "|" + b
        for e in known:
            if re.search(e["match"], key):
                seen_known[e["what"]] = seen_known.get(e["what"], 0) + 1
                break
        else:
            new.append((j, b, nm))
    tot = [sum(r[1][i] for r in run.results) for i in range(4)]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot[0], "transitions": tot[1], "traces_validated_against_impl": tot[2],
            "samples": [{"config": r[0], "case": r[2]} for r in run.results if r[2]][:12] or ["none"],
            "configurations": len(run.results), "exhaustive": True,
            "bounds": run.spec["bounds"],
            "per_configuration": {r[0]: {"states": r[1][0], "transitions": r[1][1], "executions": r[1][2]} for r in run.results},
            "discarded_as_compiler_miscompilation": run.discarded,
            "skipped_isa": sorted({j["isa"] for j in skipped}),
            "meaning": "states: distinct (configuration, operation, operand) states enumerated; transitions: reference-model "
                       "steps, one per element or memory cell; traces_validated_against_impl: executions of the real, "
                       "compiled library whose complete result was compared with the model",
        },
        "assumptions": run.spec.get("assumptions", []) + [
            "g++ 13.3 on x86-64; the instruction sets of the host CPU", "one representative optimisation level per job as listed"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if os.environ.get("VERIF_DUMP"):
        with open(os.environ["VERIF_DUMP"], "w") as f:
            for j, b, nm in run.viol:
                f.write(nm + " :: " + b + "\n")
    if not replaying and tier in ("quick", "thorough"):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d configurations, states=%d transitions=%d executions=%d, %.1f s (compile %.0f cpu-s, run %.0f cpu-s)" % (
        prop, tier, len(run.results), tot[0], tot[1], tot[2], time.time() - t0, run.t_compile, run.t_run))
    for w in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if not new:
        return 0
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    byop = collections.OrderedDict()
    for j, b, nm in new:
        byop.setdefault((b.split("|")[0]), []).append((j, b, nm))
    shown = 0
    for op, lst in byop.items():
        j, b, nm = lst[0]
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.md5((nm + op).encode()).hexdigest()[:8]))
        json.dump({"property": prop, "job": j, "op": op, "configuration": nm, "violations": [x[2] + " :: " + x[1] for x in lst[:20]],
                   "replay": "cd /verif && python3 mc.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        if shown < 20:
            for x in lst[:4]:
                print("  %s :: %s" % (x[2], x[1][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        shown += 1
    return 1


if __name__ == "__main__":
    sys.exit(main())
