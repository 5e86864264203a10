"""Element-cache histories: whatever was precalculated, requested, refused or loaded before, every stored value
is the value of its key, in memory and in the database; a failing request leaves nothing behind."""
import z3

import mec
from driver import task
from sqlmodel import Sql
from stdmodel import sqrt_of
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s04.cpp", "srcs": ["State.cpp", "StateOld.cpp", "MatrixElements.cpp", "Basisnames.cpp",
                                       "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp"],
           "n": (200, 5000), "flags": ["-DPROP_S05"]}
RULE = ("histories of requests, precalculations, method switches, reopened caches on one database file and failing "
        "requests; distinct by request and its history")
ASSUME = ["rows found in the cache file were written by this code (its own writes are proved to be correct)",
          "SQLite executes the statement texts of the source as their text says",
          "the radial integral is one deterministic function of species, quantum numbers, method and database"]
TUS = [mec.TU, "State.cpp"]
NAMES = {"cache_radial": {"method": "method", "species": "species", "k": "kappa", "n1": ("n", 0), "n2": ("n", 1),
                          "l1": ("l", 0), "l2": ("l", 1), "j1": ("j", 0), "j2": ("j", 1)},
         "cache_angular": {"k": "kappa", "j1": ("j", 0), "j2": ("j", 1), "m1": ("m", 0), "m2": ("m", 1)},
         "cache_reduced_commutes_s": {"s": "s", "k": "kappa", "l1": ("l", 0), "l2": ("l", 1), "j1": ("j", 0),
                                      "j2": ("j", 1)},
         "cache_reduced_multipole": {"k": "kappa", "l1": ("l", 0), "l2": ("l", 1)}}
NAMES["cache_reduced_commutes_l"] = NAMES["cache_reduced_commutes_s"]


def key_of_row(E, c, cols):
    """the encoded key that a row of table c stands for"""
    kt = mec.CACHES[c]
    g = {}
    for col, f in NAMES[c].items():
        v = cols[col]
        if isinstance(f, tuple):
            g.setdefault(f[0], {})[f[1]] = v
        else:
            g[f] = v
    f = {n: (Arr([v[0], v[1]]) if isinstance(v, dict) else v) for n, v in g.items()}
    el = E.fresh(kt, "row", rng=False)
    for n in el.f:
        if n == "sgn":
            f[n] = z3.IntVal(0)
    real = {"j", "m", "s", "species"}
    cv = lambda n, x: toreal(x) if n in real else z3.ToInt(toreal(x))
    f = {n: Arr([cv(n, x) for x in v.e]) if isinstance(v, Arr) else cv(n, v) for n, v in f.items()}
    return E.key(kt, Rec(el.type, {n: f[n] for n in el.f}))


def tables(E, arrs):
    return {c: (list(NAMES[c]), lambda cols, c=c: z3.Select(arrs[c], key_of_row(E, c, cols))) for c in mec.CACHES}


def instance(E, st, lv, arrs, S):
    """when the code takes an element of a missing set: the element is a key of physical states, and its
    meaning is the formula of its fields (one instance of the definition of the meaning)"""
    def mk(c, t):
        def u(E, k):
            kappa = z3.Int(fresh_name("kappa"))
            a, b = mec.phys(E, fresh_name("a"), S), mec.phys(E, fresh_name("b"), S)
            for n in list(E.inputs):
                if "!" in n:
                    del E.inputs[n]
            E.facts.append(And(kappa >= 0, kappa <= 1000))
            f = {"kappa": kappa}
            if c == "cache_radial":
                f["species"], f["method"] = E.fresh("std::basic_string<char>", "species"), z3.Int(fresh_name("method"))
                E.facts.append(Or(f["method"] == 0, f["method"] == 1))
                f["n"], f["l"], f["j"] = (Arr([a[i], b[i]]) for i in (0, 1, 2))
                mean = mec.F_radial(E, st, lv, f["method"], f["species"], kappa, f["n"].e, f["l"].e, f["j"].e)
            elif c == "cache_angular":
                f["j"], f["m"] = (Arr([a[i], b[i]]) for i in (2, 3))
                mean = mec.F_angular(E, toreal(kappa), f["j"].e, f["m"].e)
            elif c == "cache_reduced_multipole":
                f["l"] = Arr([a[1], b[1]])
                mean = mec.F_mult(E, kappa, (a[1], b[1]))
            else:
                f["s"] = z3.ToReal(S) / 2
                f["l"], f["j"] = (Arr([a[i], b[i]]) for i in (1, 2))
                fn = mec.F_comm_s if c.endswith("_s") else mec.F_comm_l
                mean = fn(E, f["s"], kappa, f["l"].e, f["j"].e)
            nf = len(E.facts)
            el = E.fresh(t, "el", rng=False)
            del E.facts[nf:]
            v = Rec(el.type, {n: f.get(n, z3.IntVal(0)) for n in el.f})
            if "sgn" in v.f:
                v = v.with_("sgn", z3.Int(fresh_name("sgn")))
            E.facts.append(E.key(t, v) == k)
            E.facts.append(z3.Select(arrs[c], k) == mean)
            return v
        return u
    return mk


def deps(E):
    """contracts of what update calls"""
    def qd(E, st, A):
        st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), z3.Bool(fresh_name("qdthrows"))))
        v = [A.val(i) for i in range(A.n)]
        return Rec("QuantumDefect", {"species": v[0], "n": v[1], "l": v[2], "j": toreal(v[3]),
                                     "db": v[4] if len(v) > 4 else z3.RealVal(-1)})
    E.contracts["QuantumDefect::QuantumDefect"] = qd

    def integ(E, st, A):
        a, p, b = A.val(0), A.val(1), A.val(2)
        st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), z3.Bool(fresh_name("intthrows"))))
        E.prove("both states of a radial integral use one database", a.f["db"] == b.f["db"], st)
        m = A.f.get("targs") or A.f.get("q")
        name = "Numerov" if "Numerov" in str(m) else "Whittaker"
        t = lambda q: (q.f["species"], q.f["n"], q.f["l"], q.f["j"])
        return mec.intrad(E, name, t(a), p, t(b), a.f["db"])
    E.contracts["IntegrateRadialElement"] = integ


def cache_inv(E, lv, arrs, dom0, miss0):
    """what holds at every loop head of update"""
    def inv(c):
        out = []
        pre = lambda f: E.read(c.pre, lv.sub(("f", f)))
        now = lambda f: E.read(c.st, lv.sub(("f", f)))
        for x in mec.CACHES:
            m, s = now(x), now(x + "_missing")
            out += [m.val == arrs[x], z3.SetUnion(m.dom, s.dom) == z3.SetUnion(dom0[x], miss0[x]),
                    z3.IsSubset(s.dom, pre(x + "_missing").dom), z3.IsSubset(pre(x).dom, m.dom)]
        out += [now(f) == pre(f) for f in ("method", "defectdbname", "dbname")]
        if c.rng is not None:
            for x in mec.CACHES:
                if c.rng == lv.sub(("f", x + "_missing")):
                    out.append(z3.IsSubset(c.idx.dom, now(x).dom))
                    out.append(now(x + "_missing").dom == pre(x + "_missing").dom)
        out.append(c.st.mem.get("sql:tx", F) == c.pre.mem.get("sql:tx", F))
        return out
    return inv


def setup(E):
    st = E.new_state()
    mec.setup(E)
    S = z3.Int("S")
    E.facts.append(And(S >= 1, S <= 3))
    lv, arrs = mec.new_cache(E, st)
    st.mem["sql:tx"] = F
    return st, S, lv, arrs


@task("update: every missing element is stored with its value, everything else stays", TUS, limit=240)
def t_update(E):
    st, S, lv, arrs = setup(E)
    mk = instance(E, st.copy(), lv, arrs, S)
    un = dict(E.unkeys)
    # the two commuting tables share a key type: the instance gives both meanings
    for c, t in mec.CACHES.items():
        if c.startswith("cache_reduced_commutes"):
            continue
        un[t] = mk(c, t)
    tt = mec.CACHES["cache_reduced_commutes_s"]
    us = mk("cache_reduced_commutes_s", tt)

    def both(E, k):
        v = us(E, k)
        E.facts.append(z3.Select(arrs["cache_reduced_commutes_l"], k) ==
                       mec.F_comm_l(E, v.f["s"], v.f["kappa"], v.f["l"].e, v.f["j"].e))
        return v
    un[tt] = both
    E.unkeys = un
    deps(E)
    sql = Sql(E, tables(E, arrs))
    sql.may_throw = True
    rd = lambda f: E.read(st, lv.sub(("f", f)))
    dom0 = {c: rd(c).dom for c in mec.CACHES}
    miss0 = {c: rd(c + "_missing").dom for c in mec.CACHES}
    inv = cache_inv(E, lv, arrs, dom0, miss0)
    E.loops["*"] = {"inv": inv}
    r = E.run(st, "MatrixElementCache::update", lv, [])
    exc = st.mem["$exc"]
    for c in mec.CACHES:
        m, s = rd(c), rd(c + "_missing")
        E.prove("%s: stored values are the values of their keys" % c, m.val == arrs[c])
        E.prove("%s: nothing is missing afterwards, also after a failure" % c,
                s.dom == z3.K(s.dom.sort().domain(), F))
        E.prove("%s: afterwards exactly the old and the missing elements are stored" % c,
                Implies(Not(exc), m.dom == z3.SetUnion(dom0[c], miss0[c])))
        E.prove("%s: a failure loses nothing and stores nothing else" % c,
                And(z3.IsSubset(dom0[c], m.dom), z3.IsSubset(m.dom, z3.SetUnion(dom0[c], miss0[c]))))
    E.prove("no transaction stays open, also after a failure", Not(st.mem["sql:tx"]))
    E.prove("zero is returned only if nothing was missing",
            Implies(And(Not(exc), r == 0), And(*[miss0[c] == z3.K(miss0[c].sort().domain(), F) for c in mec.CACHES])))
    only = And(rd("dbname") == E.strlit(""), *[miss0[c] == z3.K(miss0[c].sort().domain(), F)
                                               for c in mec.CACHES if c != "cache_angular"])
    E.cover("it can succeed", And(Not(exc), r == 1, only))


def frame(E, st, pre, lv, arrs, but=()):
    for c in mec.CACHES:
        m, m0 = E.read(st, lv.sub(("f", c))), E.read(pre, lv.sub(("f", c)))
        E.prove("%s unchanged" % c, And(m.val == arrs[c], m.dom == m0.dom))
    for f in ("method", "defectdbname", "dbname"):
        if f not in but:
            E.prove("%s unchanged" % f, E.read(st, lv.sub(("f", f))) == E.read(pre, lv.sub(("f", f))))


@task("setMethod changes nothing that is stored", TUS)
def t_method(E):
    st, S, lv, arrs = setup(E)
    pre = st.copy()
    m = z3.Int("m")
    E.facts.append(Or(m == 0, m == 1))
    E.run(st, "MatrixElementCache::setMethod", lv, [m])
    E.prove("method set", E.read(st, lv.sub(("f", "method"))) == m)
    frame(E, st, pre, lv, arrs, ("method",))


@task("setDefectDB", TUS)
def t_defect(E):
    st, S, lv, arrs = setup(E)
    pre = st.copy()
    p = E.fresh("std::basic_string<char>", "path")
    E.run(st, "MatrixElementCache::setDefectDB", lv, [p])
    rd = lambda f: E.read(st, lv.sub(("f", f)))
    E.prove("database name set", rd("defectdbname") == p)
    E.prove("the shared file is not used any more", rd("dbname") == E.strlit(""))
    E.prove("database name returned", E.run(st, "MatrixElementCache::getDefectDB", lv, []) == p)
    for c in mec.CACHES:
        if c != "cache_radial":
            E.prove("%s keeps its values" % c, rd(c).val == arrs[c])
    k = z3.Const("k", rd("cache_radial").dom.sort().domain())
    E.prove("no radial value of another database stays", Implies(
        E.read(pre, lv.sub(("f", "defectdbname"))) != p, Not(z3.Select(rd("cache_radial").dom, k))))


def req(name, call):
    @task(name + " leaves no missing elements and no stored value changed", TUS)
    def t(E):
        st, S, lv, arrs = setup(E)
        E.contracts["MatrixElementCache::update"] = mec.update_contract(arrs)
        a, b = mec.phys(E, "a", S), mec.phys(E, "b", S)
        sp = E.fresh("std::basic_string<char>", "species")
        la, lb = mec.state(E, st, sp, S, a), mec.state(E, st, sp, S, b)
        pre = st.copy()
        for c in mec.CACHES:
            m = E.read(st, lv.sub(("f", c + "_missing")))
            E.write(st, lv.sub(("f", c + "_missing")), Set(m.kt, z3.K(m.dom.sort().domain(), F)))
        call(E, st, lv, la, lb)
        for c in mec.CACHES:
            m, s, m0 = (E.read(x, lv.sub(("f", f))) for x, f in ((st, c), (st, c + "_missing"), (pre, c)))
            E.prove("%s keeps its values" % c, And(m.val == arrs[c], z3.IsSubset(m0.dom, m.dom)))
            E.prove("%s: nothing missing" % c, s.dom == z3.K(s.dom.sort().domain(), F))
        for f in ("method", "defectdbname", "dbname"):
            E.prove("%s unchanged" % f, E.read(st, lv.sub(("f", f))) == E.read(pre, lv.sub(("f", f))))
        E.cover("returns", Not(st.mem["$exc"]))


K, M = z3.Int("kappa"), "MatrixElementCache::"
req("a multipole request", lambda E, st, lv, a, b: E.run(st, M + "getElectricMultipole", lv, [a, b, z3.Int("kr"), K], nargs=4))
req("a magnetic request", lambda E, st, lv, a, b: E.run(st, M + "getMagneticDipole", lv, [a, b]))
req("a radial request", lambda E, st, lv, a, b: E.run(st, M + "getRadial", lv, [a, b, K]))


@task("precalculation only collects missing elements", TUS, limit=240)
def t_pre(E):
    st, S, lv, arrs = setup(E)
    basis = E.alloc(st, E.fresh("std::vector<StateOne>", "basis"))

    def inv(c):
        out = []
        for x in mec.CACHES:
            m, m0 = E.read(c.st, lv.sub(("f", x))), E.read(pre, lv.sub(("f", x)))
            s, s0 = E.read(c.st, lv.sub(("f", x + "_missing"))), E.read(pre, lv.sub(("f", x + "_missing")))
            out += [m.val == arrs[x], m.dom == m0.dom, z3.IsSubset(s0.dom, s.dom)]
        out += [E.read(c.st, lv.sub(("f", f))) == E.read(pre, lv.sub(("f", f)))
                for f in ("method", "defectdbname", "dbname")]
        return out
    pre = st.copy()
    E.loops["*"] = {"inv": inv}
    q, k, kr = z3.Int("q"), z3.Int("k"), z3.Int("kr")
    b3 = [z3.Bool("b%d" % i) for i in range(3)]
    E.run(st, M + "precalculate", lv, [basis, k, q, kr] + b3, nargs=7)
    frame(E, st, pre, lv, arrs)
