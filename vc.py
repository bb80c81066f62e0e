#!/usr/bin/env python3
"""Driver of the solver-based checks.

  vc.py setup                      build the engine (also done on demand)
  vc.py check <PROPERTY>           run the property's harnesses (VERIF_TIER=quick|thorough)
  vc.py run <harness> <entry> ...  run one entry (development), options after the names
  vc.py replay <file>              re-run a recorded counterexample against the real code

Every check compiles /repo's current sources to LLVM IR, executes the harness
symbolically (engine/symx) and confirms every counterexample by running the
harness natively on the real code before reporting it.
"""
import sys, os, subprocess, json, time, hashlib, shutil, glob, re, fcntl, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.path.join(V, "build")
LLVM = "/usr/lib/llvm-18/bin/"
sys.path.insert(0, V)
from plan import PLAN, LEVEL_RULE, ASSUMPTIONS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def engine():
    """build ir2x and symx if needed; returns their directory"""
    src = glob.glob(V + "/engine/*.[ch]*") + [V + "/vc.py"]
    d = os.path.join(BUILD, "engine-" + filehash(src))
    if os.path.exists(d + "/ok"):
        return d
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/ok"):
            return d
        for old in glob.glob(BUILD + "/engine-*"):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        flags = [f for f in subprocess.check_output([LLVM + "llvm-config", "--cxxflags"], text=True).split() if f != "-fno-exceptions" and not f.startswith("-std")]
        cmds = [["clang++", "-O1", "-std=c++17", "-w"] + flags + [V + "/engine/ir2x.cpp", "-o", d + "/ir2x", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
                ["clang++", "-O2", "-std=c++17", "-w", V + "/engine/symx.cpp", V + "/engine/expr.cpp", "-o", d + "/symx", "-lz3"]]
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(sh, cmds):
                if r.returncode:
                    sys.stderr.write(r.stdout); sys.exit(2)
        # bit-vector element assignment without a branch (same function, fewer paths)
        hdr = sorted(glob.glob("/usr/include/c++/*/bits/stl_bvector.h"))
        if hdr:
            t = open(hdr[-1]).read()
            t = re.sub(r"if \(__x\)\s*\*_M_p \|= _M_mask;\s*else\s*\*_M_p &= ~_M_mask;", "*_M_p = (*_M_p & ~_M_mask) | (__x ? _M_mask : (_Bit_type)0);", t)
            # words of a bit vector start as zero (bits behind the end are copied but never read)
            t = re.sub(r"(_Bit_pointer __p = _Bit_alloc_traits::allocate\(_M_impl, _S_nword\(__n\)\);)", r"\1 __builtin_memset(std::__addressof(*__p), 0, _S_nword(__n) * sizeof(_Bit_type));", t)
            os.makedirs(d + "/inc/bits", exist_ok=True); open(d + "/inc/bits/stl_bvector.h", "w").write(t)
        open(d + "/ok", "w").close()
    return d

CLI = {"compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp"}
def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d not in ("test", "tests", "_build", "build", "CMakeFiles", "bin", "examples", "bench", "benchmarks", "fuzz"))
        for f in sorted(files):
            if f.endswith((".cpp", ".c", ".cc", ".cxx")) and not (root == REPO and f in CLI):
                out.append(os.path.join(root, f))
    return out

BCFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-threadsafe-statics",
           "-fno-strict-aliasing", "-w", "-gline-tables-only", "-emit-llvm", "-c"]
CXXBC = ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]
def compile_bc(src, out, extra=()):
    cc = ["clang", "-fno-builtin"] if src.endswith(".c") else ["clang++"] + CXXBC + ["-isystem", engine() + "/inc"]
    return sh(cc + BCFLAGS + list(extra) + ["-I" + REPO, "-I" + V + "/runtime", src, "-o", out])

class Work:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        if not os.environ.get("VC_KEEP"): atexit.register(shutil.rmtree, self.d, True)
        self.eng = engine(); self.notes = []
        open(self.d + "/glob.cpp", "w").write('#define MAIN\n#include "globaldefs.hpp"\n')
        self.native_objs = {}
    def build(self, harnesses):
        """compile the repository and harness files; returns {harness: xir}"""
        srcs = repo_sources() + [V + "/runtime/libc.c", V + "/runtime/stl.cpp", self.d + "/glob.cpp"]
        hs = [V + "/harness/" + h + ".cpp" for h in harnesses]
        jobs = [(s, "%s/%d.bc" % (self.d, i)) for i, s in enumerate(srcs + hs)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: compile_bc(*j), jobs))
        base = []
        for (s, o), r in list(zip(jobs, res))[:len(srcs)]:
            if r.returncode:
                sys.stderr.write("cannot compile %s\n%s\n" % (s, r.stdout)); sys.exit(2)
            base.append(o)
        r = sh([LLVM + "llvm-link"] + base + ["-o", self.d + "/base.bc"])
        if r.returncode: sys.stderr.write(r.stdout); sys.exit(2)
        out = {}
        def one(k):
            (s, o), r = jobs[len(srcs) + k], res[len(srcs) + k]; h = harnesses[k]
            if r.returncode:
                return h, None, r.stdout
            l = sh([LLVM + "llvm-link", self.d + "/base.bc", o, "-o", self.d + "/" + h + ".bc"])
            if l.returncode: return h, None, l.stdout
            x = self.d + "/" + h + ".xir"
            t = sh([self.eng + "/ir2x", self.d + "/" + h + ".bc", x, REPO.rstrip("/") + "/"])
            os.unlink(self.d + "/" + h + ".bc")
            if t.returncode: return h, None, t.stdout
            return h, x, t.stdout
        with ThreadPoolExecutor(8) as ex:
            for h, x, msg in ex.map(one, range(len(harnesses))):
                if x is None:
                    self.notes.append("harness %s cannot be built against the current sources: %s" % (h, msg.strip()[-600:]))
                    sys.stderr.write("note: harness %s skipped\n%s\n" % (h, msg[-3000:]))
                out[h] = x
        return out
    def native(self, harness, entry, mode):
        """native executable of a harness; mode: plain (sources by g++ as in the project build) | asan.
        The harness itself is always compiled by clang, as for the engine (order of evaluation)."""
        fl = {"plain": ["-O2", "-g"], "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,shift,pointer-overflow", "-fno-omit-frame-pointer"]}[mode]
        key = mode
        if key not in self.native_objs:
            od = self.d + "/nat-" + mode; os.makedirs(od, exist_ok=True)
            srcs = repo_sources() + [self.d + "/glob.cpp"]
            def cc(i):
                s = srcs[i]; o = "%s/%d.o" % (od, i)
                r = sh(([["gcc", "g++"], ["clang", "clang++"]][mode == "asan"][not s.endswith(".c")]).split() + fl + ["-w", "-I" + REPO, "-c", s, "-o", o])
                return o, r
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(cc, range(len(srcs))))
            for o, r in rs:
                if r.returncode: return None
            self.native_objs[key] = [o for o, _ in rs]
        exe = "%s/nat-%s/%s-%s" % (self.d, mode, harness, entry)
        if not os.path.exists(exe):
            r = sh(["clang++"] + fl + ["-w", "-DENTRY=" + entry, "-I" + REPO, "-I" + V + "/runtime", V + "/harness/" + harness + ".cpp", V + "/runtime/native.cpp"] + self.native_objs[key] + ["-o", exe])
            if r.returncode:
                sys.stderr.write(r.stdout[-2000:]); return None
        return exe
    def native_run(self, exe, replay, params, timeout=60, env=None, wrap=()):
        d = tempfile.mkdtemp(prefix="nat-", dir=self.d)
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0"); e.update(env or {})
        try:
            r = subprocess.run(list(wrap) + [exe, replay] + ["%s=%d" % kv for kv in params.items()], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
            return r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def confirm(self, harness, entry, kind, replay, params):
        """does the counterexample show on the real code? returns (bool, text)"""
        def tail(s):
            for l in s.splitlines():
                if re.search(r"PROPERTY-FAILED|ERROR: AddressSanitizer|runtime error|Assertion|terminate called", l): return l.strip()[:300]
            return s.strip()[-300:]
        if kind in ("undef-output", "undef-branch"):
            exe = self.native(harness, entry, "plain")
            if not exe: return False, "native build failed"
            outs = set()
            for p in ("0", "1", "85", "170", "255"):
                rc, err = self.native_run(exe, replay, params, env={"MALLOC_PERTURB_": p})
                outs.add((str(rc), "\n".join(l for l in err.splitlines() if l.startswith(("OUT", "PROPERTY")))))
            if len(outs) > 1: return True, "output differs between runs with different initial heap contents"
            rc, err = self.native_run(exe, replay, params, wrap=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"], timeout=240)
            if rc == 99: return True, "valgrind: " + (re.search(r"(Conditional jump|Use of uninit|Invalid)[^\n]*", err) or [""])[0]
            return False, "not reproduced"
        tried = []
        modes = ["asan", "plain"] if kind in ("memory", "unreachable", "div", "stack") else ["plain", "asan"]
        for mode in modes:
            exe = self.native(harness, entry, mode)
            if not exe: return False, "native build failed"
            rc, err = self.native_run(exe, replay, params, timeout=60 if kind == "budget" else 120)
            if rc == "timeout": return True, "native run does not terminate within the limit"
            if rc == 9: tried.append(mode + ": assumption not met"); continue
            if rc != 0: return True, "%s build: exit %s: %s" % (mode, rc, tail(err))
            tried.append(mode + ": finished normally")
        return False, "; ".join(tried)
    def symx(self, xir, entry, out, params, opts):
        cmd = [self.eng + "/symx", xir, "--entry", entry, "--out", out]
        for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        cmd += opts
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=3600*3)
        except subprocess.TimeoutExpired:
            return None, "engine timeout"
        try: return json.load(open(out + "/result.json")), r.stdout
        except Exception as e: return None, r.stdout + str(e)

def parse_viol(path):
    d = {"inputs": []}; sec = None
    for l in open(path, errors="replace"):
        l = l.rstrip("\n")
        if l in ("inputs:", "undef:"): sec = l[:-1]; continue
        if sec is None:
            k, _, v = l.partition(": "); d[k] = v
        elif sec == "inputs": d["inputs"].append(l)
    return d

def load_known():
    """known findings: property, harness/entry, kind, message and code location"""
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def matches(f, prop, entry, v):
    if f["property"] != prop: return False
    if "entry" in f and f["entry"] != entry: return False
    for k in ("kind", "message", "repoloc"):
        if k in f and not re.search(f[k], v.get(k, "")): return False
    return True

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    items = [i for i in PLAN[prop] if tier == "thorough" or not i.get("thorough_only")]
    w = Work()
    xirs = w.build(sorted({i["h"] for i in items}))
    results, viols, known, unconfirmed = [], [], [], []
    kf = load_known()["findings"]
    limit = 700 if tier == "quick" else 3600 * 4
    par = [i for i in items if i.get("jobs", 8) < 8]
    def run_item(i):
        x = xirs.get(i["h"])
        if not x: return i, None, "harness not built", None
        params = dict(i.get("p", {})); params.update(i.get("pt", {}) if tier == "thorough" else {})
        T = i.get("t", 60) if tier == "quick" else i.get("tt", i.get("t", 60) * 10)
        T = max(5, min(T, limit - (time.time() - t0)))
        out = "%s/out-%s-%s" % (w.d, i["e"], hashlib.md5(json.dumps(params, sort_keys=True).encode()).hexdigest()[:6])
        opts = ["--time", "%d" % T, "--jobs", str(i.get("jobs", 8)), "--budget", str(i.get("budget", 3000000000)), "--max-viol", "40" if i.get("only") else "6"]
        if i.get("mux"): opts += ["--mux", str(i["mux"])]
        if i.get("undef"): opts.append("--undef-branch")
        r, log = w.symx(x, i["e"], out, params, opts)
        return i, r, log, (out, params)
    # small items share the machine, large ones run alone
    def groups():
        small = [i for i in items if i.get("jobs", 8) < 8]; big = [i for i in items if i.get("jobs", 8) >= 8]
        return small, big
    small, big = groups()
    done = []
    if small:
        with ThreadPoolExecutor(max(1, 8 // max(1, min(i["jobs"] for i in small)))) as ex: done += list(ex.map(run_item, small))
    for i in big: done.append(run_item(i))
    for i, r, log, oi in done:
        if r is None:
            w.notes.append("%s/%s: no result: %s" % (i["h"], i["e"], (log or "").strip()[-300:])); continue
        out, params = oi
        ent = {"harness": i["h"], "entry": i["e"], "params": params, "bounds": i.get("b", ""), "undef": bool(i.get("undef"))}
        ent.update({k: r[k] for k in ("wall_s", "paths", "forks", "queries", "sat", "unsat", "unknown", "solver_s", "finite_domain_decisions", "instructions", "asserts", "assert_queries", "safety_queries", "concretized", "incomplete", "crashed", "incomplete_reasons", "reach", "max_vars", "infeasible", "samples")})
        ent["exhausted"] = r["incomplete"] == 0 and r["crashed"] == 0 and r["violations"] == 0
        ent["_fn"] = r["functions"]; ent["_lines"] = r["lines"]
        results.append(ent)
        seen = set()
        for vf in sorted(glob.glob(out + "/viol-*.txt")):
            v = parse_viol(vf); key = (v.get("kind"), v.get("message", "")[:60], v.get("repoloc"))
            if key in seen: continue
            if i.get("only") and not re.search(i["only"], "%s %s" % (v.get("kind"), v.get("message"))): continue
            ok, text = w.confirm(i["h"], i["e"], v.get("kind", ""), vf, params)
            rec = {"harness": i["h"], "entry": i["e"], "params": params, "kind": v.get("kind"), "message": v.get("message"), "where": v.get("where"), "repoloc": v.get("repoloc"), "native": text, "inputs": v["inputs"]}
            if not ok: unconfirmed.append(rec); continue
            seen.add(key)
            f = next((f for f in kf if matches(f, prop, i["e"], v)), None)
            if f: known.append((f, rec))
            else: viols.append((rec, vf))
    rdir = V + "/evidence/replays"
    lines = []
    for n, (rec, vf) in enumerate(viols):
        os.makedirs(rdir, exist_ok=True)
        p = "%s/%s-%s-%d.txt" % (rdir, prop, rec["entry"], n)
        with open(p, "w") as f:
            f.write("harness: %s\nentry: %s\nparams: %s\nnative: %s\n" % (rec["harness"], rec["entry"], json.dumps(rec["params"]), rec["native"].replace("\n", " ")))
            f.write(open(vf).read())
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("# %s: %s at %s; on the real code: %s" % (rec["kind"], rec["message"], rec["repoloc"], rec["native"]))
    fns, lns = set(), {}
    for e in results:
        fns.update(e.pop("_fn"))
        for f, l in e.pop("_lines").items(): lns.setdefault(f, set()).update(l)
    if os.environ.get("VC_LINES"): json.dump({f: sorted(l) for f, l in lns.items()}, open(os.environ["VC_LINES"], "w"))
    tot = lambda k: sum(e[k] for e in results)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "assumptions": ASSUMPTIONS,
          "coverage": {
            "explanation": LEVEL_RULE,
            "evaluations": tot("paths"), "distinct_nontrivial": tot("paths") - tot("infeasible"),
            "rule": "one evaluation per feasible path of the harness through the compiled code; paths are distinct by construction (their conditions exclude each other) and each stands for every input satisfying its condition",
            "samples": [s for e in results for s in e["samples"][:2]][:12],
            "exhaustive": bool(results) and all(e["exhausted"] for e in results) and not w.notes,
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_seconds": round(tot("solver_s"), 2),
            "finite_domain_decisions": tot("finite_domain_decisions"), "instructions_executed": tot("instructions"),
            "property_assertions_checked": tot("asserts"), "property_assertions_sent_to_solver": tot("assert_queries"), "memory_safety_queries": tot("safety_queries"),
            "functions_encoded": sorted(fns), "source_lines_encoded": {f: len(l) for f, l in sorted(lns.items())},
            "harnesses": [{k: v for k, v in e.items() if k != "samples"} for e in results],
            "unconfirmed_counterexamples": unconfirmed, "known_findings": [f["what"] for f, _ in known], "notes": w.notes}}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for what in sorted({f["what"] for f, _ in known}): print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for e in results:
        print("%s/%s %s: %d paths, %d queries (%.1fs solver), %d asserts, %s%s, %.1fs" % (e["harness"], e["entry"], e["params"] or "", e["paths"], e["queries"], e["solver_s"], e["asserts"], "all paths covered" if e["exhausted"] else "bounded by time/solver limits: %d open" % e["incomplete"], "" if not e["crashed"] else " CRASHED %d" % e["crashed"], e["wall_s"]))
        if e["incomplete_reasons"]: print("   ", sorted(set(e["incomplete_reasons"]))[:4])
    for n in w.notes: print("note:", n[:400])
    for u in unconfirmed: print("unconfirmed (not reported): %s/%s %s %s at %s [%s]" % (u["harness"], u["entry"], u["kind"], u["message"], u["repoloc"], u["native"]))
    for l in lines: print(l)
    sys.stdout.flush()
    if not lines and not results: print("no harness could be run"); return 2
    return 1 if lines else 0

def replay(path):
    d = {}
    for l in open(path):
        if l.startswith("inputs:"): break
        k, _, v = l.rstrip("\n").partition(": "); d[k] = v
    w = Work()
    ok, text = w.confirm(d["harness"], d["entry"], d["kind"], os.path.abspath(path), json.loads(d["params"]))
    print("reproduced" if ok else "not reproduced", text); return 1 if ok else 0

def run(argv):
    h, e = argv[0], argv[1]; params = {}; opts = []; it = iter(argv[2:]); conf = True
    for a in it:
        if "=" in a and not a.startswith("--"): k, v = a.split("="); params[k] = int(v)
        elif a == "--noconfirm": conf = False
        else: opts.append(a)
    w = Work(); x = w.build([h])[h]
    if not x: return 2
    out = w.d + "/out"; r, log = w.symx(x, e, out, params, opts)
    print(log[-6000:])
    if r:
        print({k: v for k, v in r.items() if k not in ("functions", "lines", "samples")}); print("functions:", len(r["functions"]), "lines:", sum(len(v) for v in r["lines"].values()))
        for s in r["samples"][:3]: print("  sample", s[:300])
    for vf in sorted(glob.glob(out + "/viol-*.txt"))[:6]:
        v = parse_viol(vf); print("VIOL", v.get("kind"), v.get("message"), v.get("repoloc"), "\n  ", v.get("where")); print("  ", " ".join(x.replace(" ", ":") for x in v["inputs"])[:700])
        if conf: print("   native:", w.confirm(h, e, v["kind"], vf, params))
    return 0

if __name__ == "__main__":
    c = sys.argv[1] if len(sys.argv) > 1 else ""
    if c == "setup": print(engine()); sys.exit(0)
    if c == "check": sys.exit(check(sys.argv[2]))
    if c == "run": sys.exit(run(sys.argv[2:]))
    if c == "replay": sys.exit(replay(sys.argv[2]))
    print(__doc__); sys.exit(2)
