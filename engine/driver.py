"""Runs one property's check: extraction, proof tasks, bounded stand-ins, replay, evidence."""
import argparse
import glob
import hashlib
import importlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "specs"))

DEFS = ["-DEIGEN_USE_BLAS", "-DEIGEN_USE_LAPACKE", "-DFMT_HEADER_ONLY=1", "-DWITH_GSL", "-DNDEBUG",
        "-Dlapack_complex_double=std::complex<double>", "-Dlapack_complex_float=std::complex<float>"]

# ------------------------------------------------------------------------------ setup


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace", **kw)


def tool():
    """the extractor, built on demand"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "cxx2ir.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "cxx2ir-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", src, "-o", tmp,
                "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1",
                "-l:libLLVM-18.so", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        if r.returncode:
            raise RuntimeError("extractor build: " + r.stdout[-2000:])
        os.replace(tmp, exe)
    return exe


def gen_headers(d):
    """the headers the build generates, made from /repo's templates"""
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "pairinteraction", "version.hpp.in")
    if os.path.exists(src):
        t = open(src).read()
        t = re.sub(r"@\w+@", "0", t)
        open(os.path.join(d, "version.hpp"), "w").write(t)
    tmpl = os.path.join(REPO, "pairinteraction", "EmbeddedDatabase.hpp.in")
    db = os.path.join(REPO, "pairinteraction", "databases", "quantum_defects.sql")
    if os.path.exists(tmpl):
        t = open(tmpl).read()
        s = open(db, encoding="utf8", errors="replace").read()
        t = re.sub(r"@\w+@", lambda m: s, t)
        open(os.path.join(d, "EmbeddedDatabase.hpp"), "w").write(t)


def cxxflags(gen):
    return ["-std=c++17"] + DEFS + ["-I" + os.path.join(REPO, "pairinteraction"), "-I" + gen,
                                    "-I" + os.path.join(HERE, "stub"), "-isystem",
                                    "/usr/include/eigen3"]


def extract(exe, tu, gen, out):
    src = tu if os.path.isabs(tu) else os.path.join(REPO, "pairinteraction", tu)
    r = subprocess.run([exe, REPO + "/", src, "--"] + cxxflags(gen), stdout=open(out, "w"),
                       stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    if r.returncode:
        raise RuntimeError("extraction of %s: %s" % (tu, r.stderr[-1500:]))
    return out


# ------------------------------------------------------------------------------ specifications

TASKS = []


class Task:
    def __init__(self, fn, name, tus, bv, opts, replay, functions):
        self.fn, self.name, self.tus, self.bv, self.opts = fn, name, tus, bv, opts
        self.replay = replay
        self.functions = functions


def task(name, tus, bv=(), replay=None, functions=(), **opts):
    def deco(fn):
        TASKS.append(Task(fn, name, tuple(tus), tuple(bv), opts, replay, functions))
        return fn

    return deco


# ------------------------------------------------------------------------------ solving


RING = "z3 and polynomial normalisation (engine/ring.py)"


def solve(ob, timeout, tier, cache={}):
    import z3
    t0 = time.time()
    s = z3.Solver()
    for h in ob.hyps:
        s.add(h)
    if ob.kind == "cover":
        s.add(ob.goal)
    else:
        s.add(z3.Not(ob.goal))
    be = "z3-" + z3.get_version_string()
    s.set("timeout", int(min(timeout, 0.6) * 1000))
    r = s.check()
    if r != z3.unsat and ob.kind != "cover":
        import ring
        if ring.prove(ob.hyps, ob.goal, min(timeout, 30)):
            return "unsat", RING, None, time.time() - t0, None
    if r == z3.unknown:
        s.set("timeout", int(timeout * 1000))
        r = s.check()
        for seed in (11, 29) if ob.kind != "cover" else ():
            if r != z3.unknown:
                break
            s2 = z3.Solver()
            s2.set("random_seed", seed)
            s2.set("timeout", int(timeout * 500))
            s2.add(*s.assertions())
            if s2.check() == z3.unsat:
                r = z3.unsat
    model = None
    if r == z3.sat:
        model = s.model()
    res = str(r)
    second = None
    if res == "unknown" or (tier == "thorough" and res == "unsat"):
        q = s.to_smt2()
        q = "(set-logic ALL)\n" + q if "set-logic" not in q else q
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(q)
        try:
            tl = int(timeout * (2 if res == "unknown" else 1) * 1000)
            o = sh(["cvc5", "--nl-ext-tplanes", "--tlimit=%d" % tl, f.name], timeout=tl / 1000 + 20)
            second = (o.stdout.strip().splitlines() or ["none"])[0]
        except Exception as e:  # noqa: BLE001
            second = "error"
        finally:
            os.unlink(f.name)
        if res == "unknown" and second == "unsat":
            res, be = "unsat", "cvc5-1.1.2"
    return res, be, model, time.time() - t0, second


def term_value(m, t):
    import z3
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return n if d == 1 else n / d
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return v.as_long()
    return str(v)


_IRC = {}


def load_ir(path):
    if path not in _IRC:
        _IRC[path] = json.load(open(path))
    return _IRC[path]


class TimeUp(Exception):
    pass


def run_task(arg):
    prop, idx, irs, tier, seed, limit = arg
    t0 = time.time()
    out = {"task": None, "obls": [], "status": "ok", "detail": "", "inlined": [], "contracts": [],
           "trusted": [], "wall_s": 0.0}

    def alarm(*_):
        raise TimeUp()

    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(limit))
        sys.setrecursionlimit(100000)
        import z3
        mod = importlib.import_module(prop.lower())
        t = [x for x in TASKS if x.fn.__module__ == mod.__name__][idx]
        out["task"] = t.name
        import stdmodel  # noqa: F401
        from values import Unsupported
        from vc import Engine, Program
        z3.set_param("smt.random_seed", int(seed) % 1000)
        P = Program([load_ir(irs[x]) for x in t.tus])
        E = Engine(P, bv=t.bv)
        for k, v in t.opts.items():
            if k not in ("timeout", "limit"):
                setattr(E, k, v)
        try:
            t.fn(E)
        except Unsupported as e:
            out["status"], out["detail"] = "unsupported", str(e)[:400]
        to = t.opts.get("timeout", 20) * (3 if tier == "thorough" else 1)
        for ob in E.obls:
            if out["status"] == "unsupported" and ob.kind == "cover":
                continue
            res, be, model, dt, second = solve(ob, to, tier)
            st = {"unsat": "proved", "sat": "failed"}.get(res, "unknown")
            if ob.kind == "cover":
                st = {"sat": "covered", "unsat": "vacuous"}.get(res, "unknown")
            if ob.kind == "unwind" and st == "failed":
                st = "unknown"
            rec = {"name": ob.name, "kind": ob.kind, "status": st, "backend": be,
                   "time_s": round(dt, 3)}
            if second:
                rec["cross_check"] = second
            if st == "failed":
                ins = {}
                for k, v in ob.inputs.items():
                    try:
                        ins[k] = term_value(model, v)
                    except Exception:  # noqa: BLE001
                        pass
                rec["model"] = ins
                rec["goal"] = str(ob.goal)[:1500]
                rec["replay"] = t.replay
            out["obls"].append(rec)
        out["inlined"] = sorted(E.inlined)
        out["contracts"] = sorted(E.used_contracts)
        out["trusted"] = sorted(E.trusted)
        out["solver"] = "z3 %s" % z3.get_version_string()
    except TimeUp:
        out["status"], out["detail"] = "timeout", "task time limit"
    except Exception as e:  # noqa: BLE001
        out["status"] = "error"
        out["detail"] = "%s: %s\n%s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def task_process(job, work, end):
    base = os.path.join(work, "task%d" % job[1])
    with open(base + ".in", "wb") as f:
        pickle.dump(job, f)
    left = min(job[5] + 60, end - time.time())
    empty = {"task": TASKS_NAME(job), "obls": [], "inlined": [], "contracts": [], "trusted": [], "wall_s": 0}
    if left < 5:
        return dict(empty, status="timeout", detail="check time limit")
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--task", base], stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(left)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    try:
        with open(base + ".out", "rb") as f:
            return pickle.load(f)
    except Exception:  # noqa: BLE001
        return dict(empty, status="timeout", detail="no answer in %d s (process ended with %s)" % (left, p.returncode))


def TASKS_NAME(job):
    mod = importlib.import_module(job[0].lower())
    return [x for x in TASKS if x.fn.__module__ == mod.__name__][job[1]].name


def task_main(base):
    with open(base + ".in", "rb") as f:
        job = pickle.load(f)
    importlib.import_module(job[0].lower())
    r = run_task(job)
    with open(base + ".tmp", "wb") as f:
        pickle.dump(r, f)
    os.rename(base + ".tmp", base + ".out")
    return 0


# ------------------------------------------------------------------------------ bounded stand-ins

LIBS = ["-lgsl", "-lopenblas", "-llapacke", "-lsqlite3", "-lboost_filesystem", "-lboost_system",
        "-lboost_serialization", "-lboost_program_options", "-lboost_thread", "-lpthread"]


def build_harness(spec, gen, work):
    """compile the harness with /repo's current sources; -> executable or None and why"""
    h = getattr(spec, "HARNESS", None)
    if not h:
        return None, "no harness"
    objs, procs = [], []
    flags = cxxflags(gen) + ["-O1", "-g0", "-fopenmp", "-I" + os.path.join(VERIF, "harness")] + \
        h.get("flags", [])
    for s in [os.path.join(VERIF, "harness", h["main"])] + [
            os.path.join(REPO, "pairinteraction", x) for x in h.get("srcs", [])]:
        o = os.path.join(work, os.path.basename(s) + ".o")
        objs.append(o)
        procs.append((s, subprocess.Popen(["g++"] + flags + ["-c", s, "-o", o], text=True,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = ""
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            bad += "%s: %s\n" % (s, o[-1500:])
    if bad:
        return None, bad
    exe = os.path.join(work, "harness")
    r = sh(["g++", "-fopenmp", "-o", exe] + objs + h.get("libs", LIBS))
    if r.returncode:
        return None, r.stdout[-1500:]
    return exe, ""


def run_harness(exe, args, timeout, work):
    """-> dict(fails, evals, distinct, rc, tail)"""
    scratch = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch,
               HOME=scratch, LC_ALL="C")
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, cwd=scratch, env=env)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err, rc = "", "timeout"
    fails, st = [], {}
    for line in out.splitlines():
        if line.startswith("FAIL "):
            m = re.match(r"FAIL (\S+) (.*)", line)
            if m:
                fails.append({"key": m.group(1), "what": m.group(2)})
        elif line.startswith("STAT "):
            m = re.match(r"STAT (.+) (\d+) (\d+)$", line)
            if m:
                st[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        elif line.startswith("CASE "):
            last = line[5:]
    shutil.rmtree(scratch, ignore_errors=True)
    lastcase = [l[5:] for l in out.splitlines() if l.startswith("CASE ")][-1:]
    return {"fails": fails, "stats": st, "rc": rc, "err": err[-800:], "last": lastcase,
            "done": any(l == "DONE" for l in out.splitlines())}


# ------------------------------------------------------------------------------ known findings


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------------------ main


def main():
    if "--setup" in sys.argv:
        print(tool())
        return 0
    if sys.argv[1:2] == ["--task"]:
        return task_main(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = importlib.import_module(prop.lower())
    tasks = [x for x in TASKS if x.fn.__module__ == spec.__name__]
    if a.no_proof:
        tasks = []
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="chk-%s-" % prop, dir=BUILD)
    budget = 780 if tier == "thorough" else 240
    try:
        rc = run_check(a, prop, tier, seed, t0, spec, tasks, work, budget)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def run_check(a, prop, tier, seed, t0, spec, tasks, work, budget):
    gen = os.path.join(work, "gen")
    gen_headers(gen)
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(16)
    hfut = None
    if getattr(spec, "HARNESS", None) and not a.no_harness:
        hfut = pool.submit(build_harness, spec, gen, work)
    notes = []
    irs = {}
    if tasks:
        try:
            exe = tool()
            tus = sorted({x for t in tasks for x in t.tus})
            paths = {}
            for x in tus:
                src = x
                if x.startswith("tu:"):  # a driver that includes /repo headers and instantiates them
                    src = os.path.join(VERIF, "specs", x[3:])
                paths[x] = (src, os.path.join(work, re.sub(r"\W", "_", x) + ".json"))
            fs = {x: pool.submit(extract, exe, s, gen, o) for x, (s, o) in paths.items()}
            for x, f in fs.items():
                try:
                    irs[x] = f.result()
                except Exception as e:  # noqa: BLE001
                    notes.append(str(e)[:600])
        except Exception as e:  # noqa: BLE001
            notes.append("extractor: " + str(e)[:600])
    results = []
    jobs = []
    for i, t in enumerate(tasks):
        if a.only and not re.search(a.only, t.name):
            continue
        if all(x in irs for x in t.tus):
            jobs.append((prop, i, irs, tier, seed, t.opts.get("limit", 120) * (3 if tier == "thorough" else 1)))
        else:
            results.append({"task": t.name, "obls": [], "status": "unsupported",
                            "detail": "extraction failed", "inlined": [], "contracts": [],
                            "trusted": [], "wall_s": 0})
    # every task runs in a process of its own, which is killed when its time is up
    tpool = cf.ThreadPoolExecutor(8)
    asyncs = [(j, tpool.submit(task_process, j, work, t0 + budget)) for j in jobs]
    # bounded stand-ins run meanwhile
    hexe, hwhy, hres = None, "", None
    if hfut:
        hexe, hwhy = hfut.result()
        if hexe:
            n = getattr(spec, "HARNESS")["n"][1 if tier == "thorough" else 0]
            hres = run_harness(hexe, ["search", str(seed), str(n)],
                               600 if tier == "thorough" else 150, work)
        else:
            notes.append("bounded stand-in not built: " + hwhy[:600])
    for j, r in asyncs:
        try:
            results.append(r.result())
        except Exception as e:  # noqa: BLE001
            results.append({"task": tasks[j[1]].name, "obls": [], "status": "error",
                            "detail": str(e)[:300], "inlined": [], "contracts": [], "trusted": [],
                            "wall_s": 0})
    tpool.shutdown()
    # ---------------------------------------------------------------- verdict
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(f)
    kf = known(prop)
    violations = []
    knownhits = set()

    def listed(key):
        for k, d in kf:
            if k == re.sub(r"\s+", "-", key):
                knownhits.add((k, d))
                return True
        return False

    def report(obj, concrete):
        p = os.path.join(rdir, "%s-%d.json" % (prop, len(violations) + 1))
        obj["property"] = prop
        json.dump(obj, open(p, "w"), indent=1, default=str)
        violations.append("VIOLATION property=%s replay=%s%s" % (
            prop, p, "" if concrete else " no-failing-input-found"))

    concrete = []
    if hres:
        for f in hres["fails"]:
            if not listed(f["key"]):
                concrete.append(f)
        if hres["rc"] not in (0, "timeout") and not hres["done"]:
            key = "crash"
            if not listed(key) and isinstance(hres["rc"], int) and hres["rc"] < 0:
                concrete.append({"key": key, "what": "the real code died with signal %d in case %s" % (
                    -hres["rc"], hres["last"])})
            else:
                notes.append("stand-in ended with %s %s" % (hres["rc"], hres["err"]))
    failed = []
    for r in results:
        for o in r["obls"]:
            if o["status"] == "failed" and not listed("%s/%s" % (r["task"], o["name"])):
                failed.append((r, o))
    if concrete:
        report({"kind": "concrete failing input on the real code", "fails": concrete[:20],
                "failed_obligations": [{"task": r["task"], **o} for r, o in failed][:20]}, True)
        for f in concrete[:10]:
            print("  failing input: %s: %s" % (f["key"], f["what"][:300]))
    elif failed:
        conc = None
        if hexe:
            for r, o in failed[:6]:
                if o.get("replay"):
                    args = ["replay", o["replay"]] + ["%s=%r" % kv for kv in o.get("model", {}).items()]
                    x = run_harness(hexe, args, 60, work)
                    x["fails"] = [f for f in x["fails"] if not listed(f["key"])]
                    if x["fails"]:
                        conc = {"task": r["task"], "obligation": o, "replayed": x["fails"],
                                "args": args}
                        break
            if not conc:
                x = run_harness(hexe, ["search", str(seed + 1000),
                                       str(spec.HARNESS["n"][0] * 3)], 200, work)
                fs = [f for f in x["fails"] if not listed(f["key"])]
                if fs:
                    conc = {"failed_obligations": [{"task": r["task"], **o} for r, o in failed][:20],
                            "fails": fs[:10]}
        if conc:
            report({"kind": "verifier counterexample confirmed on the real code", **conc}, True)
        else:
            report({"kind": "failed obligation",
                    "failed_obligations": [{"task": r["task"], **o} for r, o in failed]}, False)
    for r, o in failed[:10]:
        print("  failed obligation: %s: %s" % (r["task"], o["name"]))
    for k, d in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    for n in notes:
        print("NOTE", n[:1500])
    write_evidence(prop, tier, seed, t0, spec, tasks, results, hres, hwhy, notes, violations, kf)
    if a.v:
        for r in results:
            c = {}
            for o in r["obls"]:
                c[o["status"]] = c.get(o["status"], 0) + 1
            print("  %-50s %-11s %s %.1fs %s" % (r["task"], r["status"], c, r["wall_s"], r["detail"][:1500]))
            for o in r["obls"]:
                if o["status"] not in ("proved", "covered"):
                    print("      %s %s %s %s" % (o["status"], o["name"], o["time_s"], str(o.get("model", ""))[:600]))
        if hres:
            print("  harness", hres["stats"], hres["rc"], hres["err"][-300:])
        for n in notes:
            print("  note", n)
    for v in violations:
        print(v)
    print("%s %s: %s in %.1fs" % (prop, tier, "VIOLATION" if violations else "held", time.time() - t0))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, t0, spec, tasks, results, hres, hwhy, notes, violations, kf):
    obls = [o for r in results for o in r["obls"] if o["kind"] != "cover"]
    cov = [o for r in results for o in r["obls"] if o["kind"] == "cover"]
    und = [{"task": r["task"], "status": r["status"], "detail": r["detail"][:300]}
           for r in results if r["status"] != "ok"]
    und += [{"task": r["task"], "obligation": o["name"], "status": o["status"]} for r in results
            for o in r["obls"] if o["status"] in ("unknown", "vacuous")]
    be = {}
    for o in obls:
        if o["status"] == "proved":
            be[o["backend"]] = be.get(o["backend"], 0) + 1
    st = hres["stats"] if hres else {}
    level = getattr(spec, "LEVEL", "proof")
    trusted = sorted({x for r in results for x in r["trusted"]})
    inl = sorted({x for r in results for x in r["inlined"]})
    con = sorted({x for r in results for x in r["contracts"]})
    covd = {
        "obligations": len(obls), "discharged": len([o for o in obls if o["status"] == "proved"]),
        "checker_cmd": "/verif/check %s --tier %s" % (prop, tier),
        "trusted_base": ["clang 18 front end and the extractor /verif/engine/cxx2ir.cpp",
                         "VC generator /verif/engine/vc.py", "z3, cvc5",
                         "assumed contracts of library functions: " + ", ".join(trusted)],
        "evaluations": sum(v[0] for v in st.values()),
        "distinct_nontrivial": sum(v[1] for v in st.values()),
        "rule": getattr(spec, "RULE", "bounded stand-in on the real compiled code"),
        "samples": ["%s: %d evaluations, %d distinct" % (k, v[0], v[1]) for k, v in st.items()][:20] or
                   [o["name"] for o in obls[:10]],
        "explanation": getattr(spec, "EXPLAIN", (spec.__doc__ or "").strip()),
        "functions_under_contract": inl, "callee_contracts_used": con,
        "obligations_by_backend": be,
        "solver_time_s": round(sum(o["time_s"] for o in obls + cov), 2),
        "vacuity_covers": {"satisfiable": len([o for o in cov if o["status"] == "covered"]),
                           "total": len(cov)},
        "undecided": und,
        "tasks": [{"task": r["task"], "status": r["status"], "wall_s": r["wall_s"],
                   "obligations": [{"name": o["name"], "status": o["status"], "backend": o["backend"],
                                    "time_s": o["time_s"], **({"cross_check": o["cross_check"]} if
                                                              "cross_check" in o else {})}
                                   for o in r["obls"]]} for r in results],
        "bounded_stand_ins": {k: {"evaluations": v[0], "distinct_nontrivial": v[1],
                                  "label": "bounded, not counted as proved"} for k, v in st.items()},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": covd,
          "assumptions": list(getattr(spec, "ASSUME", [])) + COMMON_ASSUME + notes,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


COMMON_ASSUME = [
    "machine floating point is treated as exact real arithmetic in the proofs",
    "signed integer overflow is not modelled (mathematical integers) unless the task names bit vectors",
    "strings are modelled as points of a total order; string contents are not interpreted",
    "the wignerSymbols library is absent here: its functions are uninterpreted in proofs and computed "
    "by GSL in the bounded stand-ins",
]

if __name__ == "__main__":
    import driver
    sys.exit(driver.main())
