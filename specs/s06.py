"""The quantum defect, the energy and the model potential of a level follow from the rows of the database that was
asked for, whatever was asked before, by whichever thread."""
from fractions import Fraction

import z3

import ctypes_ as ct

from driver import task
from sqlmodel import Sql, Rows
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s06.cpp", "srcs": ["QuantumDefect.cpp", "State.cpp", "StateOld.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp"], "n": (60, 2000), "flags": ["-pthread"]}
RULE = "random databases and levels in interleaved order against an independent evaluation; distinct by database and level"
ASSUME = ["SQLite returns the rows the statement texts select; std::mutex gives mutual exclusion",
          "real arithmetic for the series of the quantum defect (rounding is covered by the harness)"]
TU = "QuantumDefect.cpp"
EL = ("ac", "Z", "a1", "a2", "a3", "a4", "rc", "nstar", "energy")


def level(E, db, sp, n, l, j):
    """the specification: (condition that the level exists, its nine numbers)"""
    q = Rows(E)
    n, l, j = toreal(n), toreal(l), toreal(j)
    mn = lambda a, b: ite(b < a, b, a)
    lp = mn(l, toreal(z3.ToInt(q.val(db, "model_potential", "max(l)", element=sp))))
    lr = mn(l, toreal(z3.ToInt(q.val(db, "rydberg_ritz", "max(l)", element=sp))))
    jr = mn(j, q.val(db, "rydberg_ritz", "max(j)", element=sp, l=lr))
    out = {c: q.val(db, "model_potential", c, element=sp, l=lp) for c in EL[:7]}
    out["Z"] = z3.ToInt(out["Z"])
    d = {c: q.val(db, "rydberg_ritz", c, element=sp, l=lr, j=jr) for c in ("d0", "d2", "d4", "d6", "d8", "ry")}
    x = n - d["d0"]
    from stdmodel import ipow
    p = {k: ipow(E, x, k) for k in (2, 4, 6, 8)}
    out["nstar"] = n - (d["d0"] + rdiv(d["d2"], p[2]) + rdiv(d["d4"], p[4]) + rdiv(d["d6"], p[6]) + rdiv(d["d8"], p[8]))
    h = R("-1/2")
    out["energy"] = rmul(rdiv(rmul(h, rdiv(d["ry"], R(Fraction(109737.31568525)))), rmul(out["nstar"], out["nstar"])),
                         R(Fraction(6579683.920757349)))
    ok = And(q.row(db, "model_potential", element=sp, l=lp), q.row(db, "rydberg_ritz", element=sp, l=lr, j=jr))
    return ok, out


class Shared:
    """the state shared by all constructions: a static cache and the name of the database it belongs to. Whoever
    acquires the lock finds any contents that satisfy the invariant; whoever releases it must leave it so."""

    def __init__(self, E, st, keys):
        self.E, self.keys, self.cache, self.name = E, keys, None, None
        self.tls = {}
        E.static_hook, E.ref_hook = self.static, self.ref
        E.lock_hook, E.unlock_hook = self.acquired, self.releasing

    def static(self, E, st, v):
        t = v["type"]
        x = E.fresh(t, v["name"]) if "mutex" not in t else Opaque(t)
        lv = E.alloc(st, x, v["name"])
        if "Cache<" in t:
            self.cache = lv
        elif "mutex" not in t:
            if "basic_string" not in t:
                raise Unsupported("shared static of type " + t)
            self.name = lv
        self.tls[lv.root] = bool(v.get("tls")) or "mutex" in t or "once_flag" in t
        self.types = getattr(self, "types", {})
        self.types[lv.root] = t
        if self.cache is not None and self.name is not None:
            E.facts.append(self.inv(st))
        return lv

    def map(self, st):
        return [x for x in self.E.read(st, self.cache).f.values() if isinstance(x, Map)][0]

    def inv(self, st):
        """every element of the cache is the level of its key in the database the name tells"""
        E, m, db = self.E, self.map(st), self.E.read(st, self.name)
        cs = []
        for (sp, n, l, j) in self.keys:
            k = E.key(m.kt, Rec(m.kt, {"species": sp, "n": n, "l": l, "j": j}))
            ok, v = level(E, db, sp, n, l, j)
            el = m.val.f if isinstance(m.val, Rec) else m.val
            cs.append(Implies(z3.Select(m.dom, k), And(ok, *[z3.Select(el[c], k) == v[c] for c in EL])))
        return And(*cs)

    def mine(self, m):
        return self.cache is not None and self.name is not None and m.root != self.cache.root

    def ref(self, E, st, e, lv):
        if lv.root in self.tls and not self.tls[lv.root]:
            E.prove("the shared state is only used under its lock", E.locked(st), st)

    def acquired(self, E, st, m):
        """threads may have run since: anything that satisfies the invariant"""
        if self.cache is None or self.name is None:
            return      # the statics are declared after the lock: arbitrary anyway
        if m.root == self.cache.root:
            return      # the cache's own lock
        for lv in (self.cache, self.name):
            if not self.tls[lv.root]:
                E.write(st, lv, E.fresh(self.types[lv.root], "after"))
        E.facts.append(Implies(And(*st.pc, st.live()), self.inv(st)))

    def releasing(self, E, st, m):
        if self.mine(m):
            q = list(st.pc)
            E.prove("the cache holds only levels of the database it is marked with, when the lock is released",
                    Implies(And(*q) if q else T, self.inv(st)))


def world(E):
    st = E.new_state()
    Sql(E, {}, rows=Rows(E))
    sp, db = E.fresh("std::basic_string<char>", "species"), E.fresh("std::basic_string<char>", "database")
    n, l, j = E.fresh("int", "n"), E.fresh("int", "l"), E.fresh("double", "j")
    E.facts += [n >= 0, l >= 0, j >= 0]
    st.mem["sql:db"] = db
    return st, sp, db, n, l, j


def obj(E, st, sp, n, l, j):
    f = {x["name"]: E.fresh(x["type"], x["name"]) for x in E.P.fields("QuantumDefect")
         if not ct.is_ref(x["type"])}
    f.update(species=sp, n=n, l=l, j=j)
    return E.alloc(st, Rec("QuantumDefect", f), "qd")


@task("setup", [TU])
def t_setup(E):
    st, sp, db, n, l, j = world(E)
    o = obj(E, st, sp, n, l, j)
    sp2 = E.fresh("std::basic_string<char>", "species2")
    k2 = (sp2, E.fresh("int", "n2"), E.fresh("int", "l2"), E.fresh("double", "j2"))
    S = Shared(E, st, [(sp, n, l, j), k2])
    h = E.alloc(st, Opaque("sqlite3"))
    E.run(st, "QuantumDefect::setup", o, [h, db])
    ok, v = level(E, db, sp, n, l, j)
    E.prove("setup fails exactly if the database has no rows for the level", st.mem["$exc"] == Not(ok))
    e = E.read(st, o.sub(("f", "e")))
    for c in EL:
        E.prove("%s is the one of the rows of this database" % c, Implies(ok, e.f[c] == v[c]))
    E.prove("setup leaves the cache consistent", S.inv(st))
    E.prove("the lock is released", Not(E.locked(st)))
    E.cover("a level exists", ok)
    E.cover("a level is missing", Not(ok))


def after_setup(E, st, A):
    """the contract of setup: what t_setup proves"""
    A.val(0)
    o = E.read(st, A.this())
    db = A.val(1)
    db = E.strlit(db.s) if isinstance(db, StrLit) else db
    sp, n, l, j = (o.f[k] for k in ("species", "n", "l", "j"))
    E.prove("the database handed to setup holds the rows of the database it is called with", st.mem["sql:in"] == db, st)
    ok, v = level(E, db, sp, n, l, j)
    st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), Not(ok)))
    e = o.f["e"]
    E.write(st, A.this().sub(("f", "e")), Rec(e.type, {c: v[c] for c in EL}))
    from vc import VOID
    return VOID


def text_world(E, st):
    """files and in-memory databases: which database's rows the handle given to setup holds"""
    from vc import VOID
    opens = z3.Bool("the_file_can_be_read")
    st.mem["sql:in"] = E.fresh("std::basic_string<char>", "loaded_before")
    st.mem["file"] = E.fresh("std::basic_string<char>", "nofile")
    E.contracts["QuantumDefect::setup"] = after_setup

    def put(st, k, v):
        st.mem[k] = ite(st.live(), v, st.mem[k])

    def embedded(E, st, A):
        put(st, "sql:in", E.strlit(""))
        return E.alloc(st, Opaque("sqlite3"))

    def open_(E, st, A):
        put(st, "file", A.val(0))
        return Opaque("ifstream")

    def exec_(E, st, A):
        put(st, "sql:in", ite(opens, st.mem["file"], st.mem["sql:in"]))
        return VOID
    c = E.contracts
    c["EmbeddedDatabase::operator sqlite3 *"] = embedded
    c["sqlite::handle::operator sqlite3 *"] = lambda E, st, A: E.alloc(st, Opaque("sqlite3"))
    c["sqlite::statement::exec"] = exec_
    c["std::basic_ifstream::basic_ifstream"] = open_
    for n in ("std::basic_ifstream::is_open", "std::basic_ios::good", "std::basic_ios::operator bool"):
        c[n] = lambda E, st, A: opens
    for n in ("std::basic_ios::operator!", "std::basic_ios::fail", "std::basic_ios::bad"):
        c[n] = lambda E, st, A: Not(opens)
    E.static_hook = lambda E, st, v: E.alloc(st, Opaque(v["type"]))
    return opens


def public(fn, what):
    @task(fn, [TU])
    def t(E):
        st, sp, db, n, l, j = world(E)
        opens = text_world(E, st)
        r = E.run(st, fn, None, [sp, n, l, j, db])
        ok, v = level(E, db, sp, n, l, j)
        # the file of an unnamed database is not looked at
        ok = And(ok, Or(opens, db == E.strlit("")))
        E.prove("%s fails exactly if the database cannot be read or has no rows for the level" % fn, st.mem["$exc"] == Not(ok))
        E.prove("%s is the one of the rows of the named database" % fn, Implies(ok, r == v[what]))
        E.cover("succeeds", ok)


public("energy_level", "energy")
public("nstar", "nstar")


@task("default database", [TU])
def t_default(E):
    """the constructor without a database name means the embedded one"""
    st, sp, db, n, l, j = world(E)
    text_world(E, st)
    fn = [f for f in E.P.by_q["QuantumDefect::QuantumDefect"] if len(f["params"]) == 4][0]
    o = E.alloc(st, Rec("QuantumDefect", {}), "qd")
    E.run(st, fn["q"], o, [sp, n, l, j], fn=fn)
    ok, v = level(E, E.strlit(""), sp, n, l, j)
    E.prove("construction fails exactly if the embedded database has no rows for the level", st.mem["$exc"] == Not(ok))
    for c in EL:
        x = E.read(st, o.sub(("f", c)))
        x = E.read(st, x) if isinstance(x, LV) else x
        E.prove("member %s shows the value of the embedded rows" % c, Implies(ok, x == v[c]))
    for c, w in (("species", sp), ("n", n), ("l", l), ("j", j)):
        E.prove("member %s is the argument" % c, E.read(st, o.sub(("f", c))) == w)


@task("copies", [TU])
def t_copy(E):
    """a copy has the same values, and its members show its own"""
    st, sp, db, n, l, j = world(E)
    a = obj(E, st, sp, n, l, j)
    o = E.alloc(st, Rec("QuantumDefect", {}), "copy")
    fn = [f for f in E.P.by_q["QuantumDefect::QuantumDefect"]
          if len(f["params"]) == 1 and "QuantumDefect" in f["params"][0]["type"]]
    if not fn:
        E.prove("the members of a copy do not refer to the original (an implicit copy does)", F)
        return
    E.run(st, fn[0]["q"], o, [a], fn=fn[0])
    src = E.read(st, a)
    for c in EL:
        r = E.read(st, o).f[c]
        E.prove("member %s of a copy refers to the copy" % c, z3.BoolVal(isinstance(r, LV) and r.root == o.root))
        E.prove("member %s of a copy has the value of the original" % c,
                (E.read(st, r) if isinstance(r, LV) else r) == src.f["e"].f[c])
    for c, w in (("species", sp), ("n", n), ("l", l), ("j", j)):
        E.prove("%s is copied" % c, E.read(st, o.sub(("f", c))) == w)
