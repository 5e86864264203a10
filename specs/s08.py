"""A configuration is a map from texts to texts: what is written under a key is read back unchanged, += lets the
right-hand side win, == compares all keys and values, and a saved configuration loads back equal."""
import z3

from driver import task
from vc import VOID
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s08.cpp", "srcs": ["ConfParser.cpp"], "n": (300, 6000), "flags": []}
RULE = "random configurations with unusual keys and values against a std::map; distinct by content"
ASSUME = ["std::map is a map; reading the decimal digits of an integer gives the integer",
          "boost: write_json writes every child of the tree and read_json reads them back; "
          "ptree::put reads its argument as a path, ptree::push_back does not"]
TU = "tu:tu/conf.cpp"
C = "Configuration"
V = "Configuration::value"
STR = "std::basic_string<char>"


def conf(E, st, n):
    lv = E.alloc(st, E.fresh(C, n), n)
    f = [x["name"] for x in E.P.fields(C) if "map<" in x["type"]]
    if len(f) != 1 or len(E.P.fields(C)) != 1:
        raise Unsupported("fields of Configuration")
    return lv, lv.sub(("f", f[0]))


def text(E):
    fs = E.P.fields(V)
    if len(fs) != 1:
        raise Unsupported("fields of Configuration::value")
    return fs[0]["name"]


def at(m, k, f):
    return z3.Select(m.val.f[f], k)


@task("reading and writing one value", [TU], streams=True)
def t_value(E):
    f = text(E)
    st = E.new_state()
    lv = E.alloc(st, E.fresh(V, "v"), "v")
    old = E.read(st, lv).f[f]
    for t, T_, lo, hi in (("int", "int", -2**31, 2**31), ("size_t", "unsigned long", 0, 2**64)):
        s = st.copy()
        x = E.alloc(s, E.fresh(T_, "x"), "x")
        x0 = E.read(s, x)
        E.run(s, V + "::operator<<", lv, [x], ptypes=["const %s &" % T_])
        y = E.alloc(s, E.fresh(T_, "y"), "y")
        E.run(s, V + "::operator>>", lv, [y], const=False, ptypes=["%s &" % T_])
        E.prove("%s: reads back what was written" % t, E.read(s, y) == x0)
        E.prove("%s: writing leaves the source alone" % t, E.read(s, x) == x0)
        v = E.read(s, lv).f[f]
        y = E.alloc(s, E.fresh(T_, "y"), "y")
        E.run(s, V + "::operator>>", lv, [y], const=True, ptypes=["%s &" % T_])
        E.prove("%s: the constant version reads the same" % t, E.read(s, y) == x0)
        E.prove("%s: reading changes nothing" % t, E.read(s, lv).f[f] == v)
    s = st.copy()
    x = E.alloc(s, E.fresh(STR, "x"), "x")
    x0 = E.read(s, x)
    E.run(s, V + "::operator<<", lv, [x], ptypes=["basic_string"])
    E.prove("text: stored as it is", E.read(s, lv).f[f] == x0)
    for c in (False, True):
        y = E.alloc(s, E.fresh(STR, "y"), "y")
        E.run(s, V + "::operator>>", lv, [y], const=c, ptypes=["basic_string"])
        E.prove("text: reads back what was written (const=%s)" % c, E.read(s, y) == x0)
    E.prove("text: str() is the text", E.run(s, V + "::str", lv) == x0)
    s = st.copy()
    x = E.alloc(s, E.fresh(V, "x"), "x")
    x0 = E.read(s, x).f[f]
    E.run(s, V + "::operator<<", lv, [x], ptypes=["const Configuration::value &"])
    E.prove("value: copied", E.read(s, lv).f[f] == x0)
    s = st.copy()
    eq = E.run(s, V + "::operator==", lv, [x0v(E, s)])
    E.cover("values can differ", Not(eq))
    E.prove("no exception", Not(st.mem["$exc"]))
    for T_, n in (("float", "stof"), ("double", "stod")):
        for c in (False, True):
            s = st.copy()
            y = E.alloc(s, E.fresh(T_, "y"), "y")
            E.run(s, V + "::operator>>", lv, [y], const=c, ptypes=["%s &" % T_])
            E.prove("%s: the number the text denotes (const=%s)" % (T_, c),
                    E.read(s, y) == E.uninterp(n, z3.RealSort(), z3.RealSort())(old))


def x0v(E, s):
    return E.alloc(s, E.fresh(V, "o"), "o")


@task("comparing values", [TU])
def t_veq(E):
    f = text(E)
    st = E.new_state()
    a, b = E.alloc(st, E.fresh(V, "a"), "a"), E.alloc(st, E.fresh(V, "b"), "b")
    E.prove("equal iff the texts are", E.run(st, V + "::operator==", a, [b]) ==
            (E.read(st, a).f[f] == E.read(st, b).f[f]))


@task("keys", [TU, "ConfParser.cpp"])
def t_keys(E):
    f = text(E)
    st = E.new_state()
    lv, m = conf(E, st, "c")
    m0 = E.read(st, m)
    k, k2 = E.fresh(STR, "k"), E.fresh(STR, "k2")
    has = z3.Select(m0.dom, k)
    E.prove("count is 1 for a present key and 0 otherwise", E.run(st, C + "::count", lv, [k]) == toint(has))
    s = st.copy()
    it = E.run(s, C + "::find", lv, [k], const=True)
    E.prove("find: end exactly if the key is absent", it.has == has)
    E.prove("find: points at the key", Implies(has, it.key == k))
    E.prove("find changes nothing", same(E.read(s, m), m0, f, k2))
    s = st.copy()
    it = E.run(s, C + "::find", lv, [k], const=False)
    E.prove("find (non-const): end exactly if the key is absent", it.has == has)
    E.prove("find (non-const): points at the key", Implies(has, it.key == k))
    s = st.copy()
    r = E.run(s, C + "::operator[]", lv, [k], const=True)
    E.prove("const []: throws exactly if the key is absent", s.mem["$exc"] == Not(has))
    E.prove("const []: the value of the key", Implies(has, r.f[f] == at(m0, k, f)))
    E.prove("const []: changes nothing", same(E.read(s, m), m0, f, k2))
    s = st.copy()
    r = E.run(s, C + "::operator[]", lv, [k], const=False)
    m1 = E.read(s, m)
    E.prove("[]: does not throw", Not(s.mem["$exc"]))
    E.prove("[]: an existing value is returned, a new one is empty",
            r.f[f] == z3.If(has, at(m0, k, f), E.strlit("")))
    E.prove("[]: adds exactly the key", m1.dom == z3.Store(m0.dom, k, T))
    E.prove("[]: other keys keep their values", Implies(k2 != k, at(m1, k2, f) == at(m0, k2, f)))
    E.cover("the key exists", has)


def same(m, m0, f, k):
    return And(m.dom == m0.dom, at(m, k, f) == at(m0, k, f))


@task("operator==", [TU])
def t_eq(E):
    f = text(E)
    st = E.new_state()
    a, ma = conf(E, st, "a")
    b, mb = conf(E, st, "b")
    r = E.run(st, C + "::operator==", a, [b])
    x, y = E.read(st, ma), E.read(st, mb)
    k = E.fresh(STR, "k")
    E.prove("equal configurations have the same keys", Implies(r, x.dom == y.dom))
    E.prove("equal configurations have the same values",
            Implies(And(r, z3.Select(x.dom, k)), at(x, k, f) == at(y, k, f)))
    s = st.copy()
    r2 = E.run(s, C + "::operator==", a, [a])
    E.prove("every configuration equals itself", r2)
    E.cover("configurations can differ", Not(r))


@task("operator+=", [TU])
def t_plus(E):
    f = text(E)
    st = E.new_state()
    a, ma = conf(E, st, "a")
    b, mb = conf(E, st, "b")
    x0, y0 = E.read(st, ma), E.read(st, mb)
    K = E.fresh(STR, "K")

    def inv(c):
        x, y = E.read(c.st, ma), E.read(c.st, mb)
        p = z3.Select(c.passed(mb), K)
        return And(same(y, y0, f, K), y.dom == y0.dom,
                   z3.Select(x.dom, K) == Or(z3.Select(x0.dom, K), p),
                   Implies(z3.Select(x.dom, K), at(x, K, f) == z3.If(p, at(y0, K, f), at(x0, K, f))))
    E.loops["*"] = {"inv": inv}
    E.run(st, C + "::operator+=", a, [b])
    x, y = E.read(st, ma), E.read(st, mb)
    inb = z3.Select(y0.dom, K)
    E.prove("does not throw", Not(st.mem["$exc"]))
    E.prove("the keys of both sides", z3.Select(x.dom, K) == Or(z3.Select(x0.dom, K), inb))
    E.prove("the right-hand side wins, other values stay",
            Implies(z3.Select(x.dom, K), at(x, K, f) == z3.If(inb, at(y0, K, f), at(x0, K, f))))
    E.prove("the right-hand side is not changed", And(y.dom == y0.dom, at(y, K, f) == at(y0, K, f)))
    E.cover("a key is on both sides", And(inb, z3.Select(x0.dom, K)))


def ptree(E):
    """boost property trees, one level deep: a map from child names to their data"""
    PT = "boost::property_tree::basic_ptree::"
    files = {}

    def lvof(st, A):
        return A.this()

    def val(E, v):
        return v.f["$data"] if isinstance(v, Rec) and "$data" in v.f else v

    def ctor(E, st, A):
        args = [a for a in A.args if not a["t"].replace("const ", "").startswith("std::allocator")]
        if not args:
            return Map(STR, STR, z3.K(z3.RealSort(), F), z3.Const(fresh_name("pt"), z3.ArraySort(z3.RealSort(),
                                                                                                 z3.RealSort())))
        v = A.val(0)
        if isinstance(v, LV):
            v = E.read(st, v)
        return v if isinstance(v, Map) else Rec("ptree", {"$data": v})

    def store(E, st, lv, k, x):
        m = E.read(st, lv)
        E.write(st, lv, Map(m.kt, m.vt, z3.Store(m.dom, k, T), z3.Store(m.val, k, x)))

    def put(E, st, A):
        k, x, lv = A.val(0), A.val(1), A.this()
        plain = E.uninterp("has_no_separator", z3.RealSort(), z3.BoolSort())(k)
        h = E.fresh(STR, "other_path")
        store(E, st, lv, z3.If(plain, k, h), val(E, x))
        return VOID

    def push(E, st, A):
        p, lv = A.val(0), A.this()
        if isinstance(p, LV):
            p = E.read(st, p)
        store(E, st, lv, p.f["first"], val(E, p.f["second"]))
        return VOID

    def data(E, st, A):
        v = A.thisv()
        return val(E, v)

    E.contracts[PT + "basic_ptree"] = ctor
    E.contracts[PT + "put"] = put
    E.contracts["boost::property_tree::string_path::string_path"] = lambda E, st, A: A.val(0)
    E.contracts[PT + "push_back"] = push
    E.contracts[PT + "data"] = data

    def write(E, st, A):
        name, t = A.val(0), A.val(1)
        if isinstance(t, LV):
            t = E.read(st, t)
        st.mem["file"] = t
        st.mem["written"] = name
        return VOID

    def read(E, st, A):
        n, lv = A.val(0), A.lv(1)
        E.prove("reads the named file", n == E.filename, st)
        E.write(st, lv, st.mem["file"])
        return VOID
    E.contracts["boost::property_tree::json_parser::write_json"] = write
    E.contracts["boost::property_tree::json_parser::read_json"] = read


@task("saving", ["ConfParser.cpp"])
def t_save(E):
    f = text(E)
    st = E.new_state()
    a, ma = conf(E, st, "a")
    x0 = E.read(st, ma)
    K = E.fresh(STR, "K")
    ptree(E)
    name = E.fresh(STR, "filename")

    def inv(c):
        x, t = E.read(c.st, ma), tree(c.st)
        p = z3.Select(c.passed(ma), K)
        return And(x.dom == x0.dom, at(x, K, f) == at(x0, K, f),
                   z3.Select(t.dom, K) == p, Implies(p, z3.Select(t.val, K) == at(x0, K, f)))

    def tree(s):
        c = [v for v in s.mem.values() if isinstance(v, Map) and v.vt == STR]
        if len(c) != 1:
            raise Unsupported("no single property tree")
        return c[0]
    E.loops["*"] = {"inv": inv}
    E.run(st, C + "::save_to_json", a, [name])
    t = st.mem["file"]
    E.prove("writes the named file", st.mem["written"] == name)
    E.prove("every key is written, under its own name", z3.Select(t.dom, K) == z3.Select(x0.dom, K))
    E.prove("with its value", Implies(z3.Select(x0.dom, K), z3.Select(t.val, K) == at(x0, K, f)))
    x = E.read(st, ma)
    E.prove("saving changes nothing", And(x.dom == x0.dom, at(x, K, f) == at(x0, K, f)))


@task("loading", ["ConfParser.cpp"])
def t_load(E):
    f = text(E)
    st = E.new_state()
    a, ma = conf(E, st, "a")
    x0 = E.read(st, ma)
    K = E.fresh(STR, "K")
    ptree(E)
    E.filename = E.fresh(STR, "filename")
    t0 = E.fresh("std::map<%s, %s>" % (STR, STR), "file")
    st.mem["file"] = t0

    def inv(c):
        x = E.read(c.st, ma)
        lv = [LV(r, ()) for r, v in c.st.mem.items() if isinstance(v, Map) and v.vt == STR and r != "file"]
        if len(lv) != 1:
            raise Unsupported("no single property tree")
        p = z3.Select(c.passed(lv[0]), K)
        t = E.read(c.st, lv[0])
        return And(t.dom == t0.dom, t.val == t0.val,
                   z3.Select(x.dom, K) == Or(z3.Select(x0.dom, K), p),
                   Implies(z3.Select(x.dom, K), at(x, K, f) == z3.If(p, z3.Select(t0.val, K), at(x0, K, f))))
    E.loops["*"] = {"inv": inv}
    E.run(st, C + "::load_from_json", a, [E.filename])
    x = E.read(st, ma)
    inb = z3.Select(t0.dom, K)
    E.prove("the keys of the file and the keys that were there", z3.Select(x.dom, K) == Or(z3.Select(x0.dom, K), inb))
    E.prove("the file wins, other values stay",
            Implies(z3.Select(x.dom, K), at(x, K, f) == z3.If(inb, z3.Select(t0.val, K), at(x0, K, f))))
    E.cover("a key is in the file", inb)
