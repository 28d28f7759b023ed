"""Runs the harness of one property: python -m symx.run P01 [quick|thorough] [--case substr] [--jobs n]

 1. every case is executed symbolically on the code in /repo's working tree (one process per case);
 2. every counterexample, a sample of path witnesses, and witnesses of every path that could not be
    followed are replayed on the real code in another process;
 3. a counterexample that fails on the real code is a violation.
"""
import re
import sys, os, time, json, pickle, subprocess, tempfile, shutil, signal, importlib, traceback, random, resource
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True


def load_cases(prop):
    from symx import ctx
    ctx.CASES.clear()
    mod = importlib.import_module("harness."+prop.lower())
    return mod, [c for c in ctx.CASES if c.f.__module__ == mod.__name__]


# ------------------------------------------------------------------ symbolic side

class FuncTrace:
    """which functions of /repo were executed"""
    def __init__(self, root): self.root = root; self.seen = set()
    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(m.PROFILER_ID, "symx")
            def start(code, off):
                if code.co_filename.startswith(self.root):
                    self.seen.add("%s:%s" % (os.path.relpath(code.co_filename, self.root), code.co_qualname))
                return m.DISABLE
            m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
            ev = m.events.PY_START
            if os.environ.get("SYMX_COV"):
                self.lines = set()
                def line(code, n):
                    if code.co_filename.startswith(self.root): self.lines.add((os.path.relpath(code.co_filename, self.root), n))
                    return m.DISABLE
                m.register_callback(m.PROFILER_ID, m.events.LINE, line); ev |= m.events.LINE
            m.set_events(m.PROFILER_ID, ev)
            m.restart_events()
        except ValueError: pass
        return self
    def __exit__(self, *a):
        m = sys.monitoring
        try: m.set_events(m.PROFILER_ID, 0); m.free_tool_id(m.PROFILER_ID)
        except ValueError: pass


def run_symbolic(case, tier, seed, px, deadline):
    from symx import core, ctx, load
    i = 0 if tier == "quick" else 1
    eng = core.Engine(max_paths=case.max_paths[i], deadline=deadline, seed=seed, feas_ms=case.feas_ms, check_ms=case.check_ms)
    nchecks = [0]
    def fn():
        C = ctx.SymCtx(eng, px, tier)
        eng.ctx = C
        try: case.f(C, *case.args)
        finally: nchecks[0] += C.nchecks
    t = time.time()
    with FuncTrace(load.REPO+"/") as ft:
        eng.explore(fn)
    if os.environ.get("SYMX_COV"):
        with open(os.path.join(os.environ["SYMX_COV"], "%d_%d.json" % (os.getpid(), int(t*1000) % 10**9)), "w") as f: json.dump([case.name, sorted(ft.lines)], f)
    return dict(case=case.name, stats=eng.stats, cexs=eng.cexs, witnesses=eng.witnesses, failed=eng.failed_witnesses,
                unsupported=eng.unsupported_msgs, inconclusive=eng.inconclusive,
                funcs=sorted(ft.seen | eng.__dict__.get("extra_funcs", set())), inputs=sorted(eng.inputs), nchecks=nchecks[0], wall=time.time()-t,
                extra=eng.__dict__.get("extra", {}))


def sym_main(prop, tier, seed, jobs, outdir, only):
    from symx import load
    px = load.symbolic()
    mod, cases = load_cases(prop)
    for m in getattr(mod, "PRELOAD", ["enmap", "utils", "wcsutils"]): getattr(px, m)
    total = getattr(mod, "TOTAL", (150, 3000))[0 if tier == "quick" else 1]
    t0 = time.time()
    todo = [(i, c) for i, c in enumerate(cases) if only is None or any(o in c.name if not o.startswith("=") else o[1:] == c.name for o in only.split(";;"))]
    running = {}
    while todo or running:
        while todo and len(running) < jobs:
            i, c = todo.pop(0)
            bud = c.budget[0 if tier == "quick" else 1]
            out = os.path.join(outdir, "case%d.pkl" % i)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.alarm(int(bud*1.5)+30)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    try: r = run_symbolic(c, tier, seed, px, min(time.time()+bud, t0+total))
                    except BaseException as e:
                        r = dict(case=c.name, error="".join(traceback.format_exception(e))[-3000:])
                    with open(out+".tmp", "wb") as f: pickle.dump(r, f)
                    os.rename(out+".tmp", out); code = 0
                finally:
                    os._exit(code)
            running[pid] = (i, c)
        pid, st = os.wait()
        if pid in running:
            i, c = running.pop(pid)
            out = os.path.join(outdir, "case%d.pkl" % i)
            if not os.path.exists(out):
                with open(out, "wb") as f: pickle.dump(dict(case=c.name, error="process ended with status %d" % st), f)


# ------------------------------------------------------------------ real side

def one_real(case, inputs, tier, px):
    from symx import ctx
    C = ctx.RealCtx(inputs, px, tier)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.f(C, *case.args)
    except ctx.Skip as e:
        return dict(status="fail" if C.fails else "skip", fails=C.fails, why=str(e))
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return dict(status="fail", fails=C.fails+[("raises:%s" % type(e).__name__, tb[-1500:])])
    return dict(status="fail" if C.fails else "ok", fails=C.fails, checked=len(C.checked))


def real_main(prop, tier, reqfile, outfile, jobs):
    """requests: list of (case name, inputs)"""
    from symx import load
    px = load.real()
    mod, cases = load_cases(prop)
    for m in getattr(mod, "PRELOAD", ["enmap", "utils", "wcsutils"]):
        try: getattr(px, m)
        except Exception:
            # the module under test cannot be imported at all
            import traceback
            with open(os.path.join(os.path.dirname(outfile), "loadfail.txt"), "w") as f: f.write("import pixell.%s\n%s" % (m, traceback.format_exc()))
            raise
    for ext in getattr(mod, "EXTS", []): load.build_ext(ext)
    byname = {c.name: c for c in cases}
    reqs = pickle.load(open(reqfile, "rb"))
    res = {}
    outd = tempfile.mkdtemp(prefix="symx_real_")
    try:
        todo = list(range(len(reqs)))
        # stripes; one forked child runs a stripe until it dies, the rest of its stripe is then redone one by one
        def child(idx, out):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    null = os.open(os.devnull, os.O_WRONLY); os.dup2(null, 1)
                    import faulthandler; faulthandler.disable()
                    with open(out, "wb") as f:
                        for k in idx:
                            signal.alarm(60)
                            r = one_real(byname[reqs[k][0]], reqs[k][1], tier, px)
                            pickle.dump((k, r), f); f.flush()
                    code = 0
                finally: os._exit(code)
            return pid
        def collect(out):
            got = []
            try:
                with open(out, "rb") as f:
                    while True:
                        k, r = pickle.load(f); res[k] = r; got.append(k)
            except (EOFError, FileNotFoundError, pickle.UnpicklingError): pass
            return got
        stripes = [todo[j::jobs] for j in range(jobs) if todo[j::jobs]]
        rnd = 0
        while stripes:
            pids = {}
            for j, s in enumerate(stripes):
                out = os.path.join(outd, "r%d_%d" % (rnd, j)); pids[child(s, out)] = (s, out)
            nxt = []
            while pids:
                pid, st = os.wait()
                if pid not in pids: continue
                s, out = pids.pop(pid)
                got = collect(out)
                left = [k for k in s if k not in got]
                if left:
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                    if sig == signal.SIGALRM: res[left[0]] = dict(status="timeout", fails=[])
                    else: res[left[0]] = dict(status="fail", fails=[("crash", "the process died with wait status %d" % st)])
                    if left[1:]: nxt.append(left[1:])
            stripes = nxt; rnd += 1
    finally: shutil.rmtree(outd, ignore_errors=True)
    pickle.dump([res.get(k) for k in range(len(reqs))], open(outfile, "wb"))


# ------------------------------------------------------------------ driver

def jsonable(v):
    if isinstance(v, Fraction): return float(v) if v.denominator != 1 else int(v)
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None: return v
    return str(v)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:") and "property=%s " % prop in l:
                h = l[8:].split(" -- ")[0]
                f = dict(re.findall(r"(property|case|label)=(.*?)(?= (?:case|label)=|$)", h.strip()))
                f["text"] = l.split(" -- ", 1)[1] if " -- " in l else l
                out.append(f)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case"); ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8)); ap.add_argument("--stage"); ap.add_argument("--dir"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.stage == "sym": return sym_main(prop, tier, seed, a.jobs, a.dir, a.case)
    if a.stage == "real": return real_main(prop, tier, os.path.join(a.dir, "req.pkl"), os.path.join(a.dir, "res.pkl"), a.jobs)
    if a.replay: return replay(a.replay)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="symx_%s_" % prop)
    env = dict(os.environ, PATH="/opt/venv/bin:"+os.environ.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", SYMX_SCRATCH=os.path.join(d, "ext"), MPLBACKEND="Agg", PYTHONWARNINGS="ignore", HOME=d)
    me = ["/opt/venv/bin/python", "-m", "symx.run", prop, tier, "--jobs", str(a.jobs), "--dir", d]
    try:
        rc = subprocess.run(me+["--stage", "sym"]+(["--case", a.case] if a.case else []), cwd=VERIF, env=env).returncode
        if rc != 0:
            # the code under test does not even load: nothing can be decided symbolically
            print("symbolic stage failed (%d)" % rc)
        cases = []
        for f in sorted(os.listdir(d)):
            if f.startswith("case") and f.endswith(".pkl"): cases.append(pickle.load(open(os.path.join(d, f), "rb")))
        reqs, meta = [], []
        for r in cases:
            if "error" in r: continue
            for label, inp, info in r["cexs"]: reqs.append((r["case"], inp)); meta.append(("cex", r["case"], label, info))
            for inp in r["witnesses"]: reqs.append((r["case"], inp)); meta.append(("wit", r["case"], None, None))
            for inp in r["failed"]: reqs.append((r["case"], inp)); meta.append(("unf", r["case"], None, None))
        pickle.dump(reqs, open(os.path.join(d, "req.pkl"), "wb"))
        env2 = dict(env)
        if asan_of(prop):
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            if os.path.exists(lib): env2.update(SYMX_ASAN="1", LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:log_path=/dev/null")
        rc2 = subprocess.run(me+["--stage", "real"], cwd=VERIF, env=env2).returncode
        results = pickle.load(open(os.path.join(d, "res.pkl"), "rb")) if rc2 == 0 else []
        lf = os.path.join(d, "loadfail.txt")
        loadfail = open(lf).read() if rc != 0 and os.path.exists(lf) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mod_level = "model_checking"
    known = known_findings(prop)
    viol, knownhit, spurious, valid = [], {}, [], 0
    for (kind, cname, label, info), (_, inp), res in zip(meta, reqs, results):
        if res is None: continue
        if res["status"] == "ok": valid += 1
        if res["status"] == "fail":
            labels = [l for l, _ in res["fails"]]
            hit = None
            for k in known:
                if k.get("case", cname) == cname and all(k.get("label") in (None, l) for l in labels): hit = k
            if hit: knownhit[hit["text"]] = 1
            else: viol.append((kind, cname, label, inp, res["fails"]))
        elif kind == "cex":
            spurious.append((cname, label, inp, res["status"], info))
    tot = {}
    for r in cases:
        for k, v in r.get("stats", {}).items(): tot[k] = tot.get(k, 0)+v
    errors = [(r["case"], r["error"]) for r in cases if "error" in r]
    unsup = {}
    for r in cases:
        for m in r.get("unsupported", []): unsup[(r["case"], m)] = unsup.get((r["case"], m), 0)+1
    incon = [(r["case"], m) for r in cases for m in r.get("inconclusive", [])]
    vac = [r["case"] for r in cases if "error" not in r and r["nchecks"] == 0]
    if a.v:
        for r in cases:
            s = r.get("stats", {})
            print("%-50s paths %d inf %d forks %d checks %d (unsat %d sat %d unk %d) unsup %d exc %d trunc %d  solver %.1fs wall %.1fs" % (r["case"], *[s.get(k, 0) for k in "paths infeasible forks checks unsat sat unknown unsupported exceptions truncated solver_s".split()], r.get("wall", 0)))
            if "error" in r: print("   ERROR", r["error"])
        for k, n in unsup.items(): print("UNSUPPORTED", n, k)
        for x in incon[:20]: print("INCONCLUSIVE", x)
        for c, l, i, st, info in spurious[:10]: print("NOT REPRODUCED", c, l, st, {k: (str(v) if not isinstance(v, Fraction) else float(v)) for k, v in i.items()}, info)
        for v in vac: print("VACUOUS", v)
    replaydir = os.path.join(VERIF, "replays")
    lines = []
    if viol:
        os.makedirs(replaydir, exist_ok=True)
        seen = set()
        for n, (kind, cname, label, inp, fails) in enumerate(viol):
            key = (cname, fails[0][0])
            if key in seen: continue
            seen.add(key)
            fn = os.path.join(replaydir, "%s_%d.json" % (prop, len(seen)))
            with open(fn, "w") as f:
                json.dump(dict(property=prop, tier=tier, case=cname, found_by={"cex": "solver counterexample", "wit": "replay of a path witness", "unf": "replay of a model of a path that could not be followed"}[kind],
                               solver_label=label, inputs={k: (str(v)) for k, v in inp.items()}, observed=[[l, str(w)] for l, w in fails],
                               how="python -m symx.run %s --replay %s (in /verif)" % (prop, fn)), f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  case %s: %s" % (cname, "; ".join("%s: %s" % (l, str(w).strip().splitlines()[-1][:300] if str(w).strip() else "") for l, w in fails[:3])))
            if len(seen) >= 5: break
    if loadfail:
        # neither the symbolic nor the real run could import the code: the property fails for every input
        os.makedirs(replaydir, exist_ok=True)
        fn = os.path.join(replaydir, "%s_load.txt" % prop)
        with open(fn, "w") as f: f.write(loadfail)
        print("  "+loadfail.strip().splitlines()[0]+": "+loadfail.strip().splitlines()[-1][:300])
        lines.append("VIOLATION property=%s replay=%s" % (prop, fn))
    full = [r for r in cases if "error" not in r]
    samples = [dict(case=r["case"], inputs=jsonable(r["witnesses"][0])) for r in full if r["witnesses"]][:6]
    wall = time.time()-t0
    ev = dict(property=prop, tier=tier, seed=seed, level=mod_level, wall_s=round(wall, 2), violations=len(lines),
              coverage=dict(
                  states=tot.get("paths", 0), transitions=tot.get("forks", 0)+tot.get("feas_queries", 0), traces_validated_against_impl=valid, samples=samples,
                  cases=[dict(case=r["case"], paths=r["stats"]["paths"], infeasible=r["stats"]["infeasible"], checks=r["stats"]["checks"], proved=r["stats"]["unsat"],
                              unknown=r["stats"]["unknown"], unsupported=r["stats"]["unsupported"], truncated_prefixes=r["stats"]["truncated"], solver_s=round(r["stats"]["solver_s"], 2),
                              symbolic_inputs=len(r["inputs"]), **r.get("extra", {})) for r in full],
                  functions_encoded=sorted(set(f for r in full for f in r["funcs"])),
                  queries_discharged=tot.get("unsat", 0), assertions=tot.get("checks", 0), feasibility_queries=tot.get("feas_queries", 0),
                  solver="z3 (python bindings)", solver_s=round(tot.get("solver_s", 0), 2), solver_unknown=tot.get("unknown", 0),
                  counterexamples_not_reproduced=len(spurious), paths_not_followed=tot.get("unsupported", 0),
                  not_followed=["%s: %s (x%d)" % (c, m, n) for (c, m), n in sorted(unsup.items())][:30],
                  inconclusive=["%s: %s" % x for x in incon][:30], vacuous_cases=vac, case_errors=[c for c, _ in errors],
                  bounds=bounds_of(prop)),
              assumptions=assumptions_of(prop))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop+".json"), "w") as f: json.dump(ev, f, indent=1)
    for t in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for l in lines: print(l)
    print("%s %s: %d cases, %d paths, %d/%d assertions proved, %d unknown, %d not followed, %d truncated, %d replays ok, %d spurious, %d errors, solver %.1fs, wall %.1fs" % (
        prop, tier, len(cases), tot.get("paths", 0), tot.get("unsat", 0), tot.get("checks", 0), tot.get("unknown", 0), tot.get("unsupported", 0), tot.get("truncated", 0),
        valid, len(spurious), len(errors), tot.get("solver_s", 0), wall))
    # exit 2: the code loads, but not into the symbolic engine, so nothing was decided
    sys.exit(1 if lines else 2 if rc != 0 and not cases else 0)


def _doc(prop):
    import ast
    p = os.path.join(VERIF, "harness", prop.lower()+".py")
    t = ast.parse(open(p).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS", "ASAN"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out
def asan_of(prop): return _doc(prop).get("ASAN", False)
def bounds_of(prop): return _doc(prop).get("BOUNDS", "")
BASE_ASSUME = ["floating point is read as exact real arithmetic in the encoding; inputs keep the stated margins from rounding boundaries; every counterexample is replayed in real floating point",
               "numpy is replaced by the model in symx/snp.py and astropy.wcs.WCS by symx/wcs.py; both are cross-checked by replaying path witnesses on the real libraries"]
def assumptions_of(prop): return BASE_ASSUME+list(_doc(prop).get("ASSUMPTIONS", []))


def replay(fn):
    r = json.load(open(fn))
    from symx import load
    os.environ["PATH"] = "/opt/venv/bin:"+os.environ.get("PATH", "")
    px = load.real()
    mod, cases = load_cases(r["property"])
    c = [c for c in cases if c.name == r["case"]][0]
    def conv(s):
        try: return Fraction(s)
        except ValueError: return s
    out = one_real(c, {k: conv(v) for k, v in r["inputs"].items()}, r["tier"], px)
    print(json.dumps(out, indent=1, default=str))
    sys.exit(1 if out["status"] == "fail" else 0)


if __name__ == "__main__": main()
