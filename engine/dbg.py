"""Developer aid: run one task and keep its obligations. usage: python3 -i engine/dbg.py S04 'name regex'"""
import importlib, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/specs"]
sys.modules["driver"] = sys.modules["__main__"] if False else importlib.import_module("driver")
import driver, z3
from values import *
import stdmodel
from vc import Engine, Program
sys.setrecursionlimit(100000)


def go(prop, rx, n=0):
    m = importlib.import_module(prop.lower())
    w = "/tmp/dbg"; os.makedirs(w + "/gen", exist_ok=True)
    driver.gen_headers(w + "/gen")
    t = [x for x in driver.TASKS if x.fn.__module__ == m.__name__ and re.search(rx, x.name)][n:n + 1]
    if not t:
        return None
    t = t[0]
    irs = []
    for x in t.tus:
        src = os.path.join(driver.VERIF if hasattr(driver,"VERIF") else "/verif", "specs", x[3:]) if x.startswith("tu:") else x
        irs.append(driver.load_ir(driver.extract(driver.tool(), src, w + "/gen", w + "/" + re.sub(r"\W", "_", x) + ".json")))
    E = Engine(Program(irs), bv=t.bv)
    for k, v in t.opts.items():
        if k not in ("timeout", "limit"):
            setattr(E, k, v)
    t.fn(E)
    return E


def check(E, i):
    ob = E.obls[i]
    s = z3.Solver(); s.set("timeout", 20000)
    s.add(*ob.hyps); s.add(ob.goal if ob.kind == "cover" else z3.Not(ob.goal))
    return s.check(), (s.model() if s.check() == z3.sat else None)


if __name__ == "__main__":
    n = 0
    while True:
        E = go(sys.argv[1], sys.argv[2], n)
        if E is None:
            break
        for i, o in enumerate(E.obls):
            r, be, m, _, _ = driver.solve(o, 20, "quick")
            if r != ("sat" if o.kind == "cover" else "unsat"):
                print(n, i, o.kind, o.name, r)
                print(str(z3.simplify(o.goal))[:int(os.environ.get('N', 600))])
        n += 1
        if os.environ.get("ONE"):
            break
    print(n, "tasks")
