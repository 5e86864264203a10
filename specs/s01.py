"""Equality, ordering and hashing of states and symmetries are one consistent total order."""
import z3

from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
TU = "State.cpp"
HARNESS = {"main": "s01.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp",
                                      "MatrixElementCache.cpp", "Wavefunction.cpp"], "n": (4000, 60000)}
RULE = ("pairs of states drawn from small pools and by one-field mutation; a case is distinct by its "
        "written-out quantum numbers")
STR = "std::basic_string<char>"


def one(E, st, nm):
    sp = E.fresh(STR, nm + "_species")
    n, l = E.fresh("int", nm + "_n"), E.fresh("int", nm + "_l")
    j, m = E.fresh("float", nm + "_j"), E.fresh("float", nm + "_m")
    for k, v in (("sp", sp), ("n", n), ("l", l), ("j", j), ("m", m)):
        E.inputs[nm + "_" + k] = v
    return (sp, n, l, j, m)


def mk_one(E, st, nm):
    """an arbitrary state made by the constructor; artificial ones (n=0) are excluded because the
    constructor's getters reject them"""
    v = one(E, st, nm)
    E.assume(v[1] != 0)
    return E.make(st, "StateOne", v), v


def mk_two(E, st, nm):
    a, b = one(E, st, nm + "a"), one(E, st, nm + "b")
    E.assume(And(a[1] != 0, b[1] != 0))
    args = [Arr([x, y]) for x, y in zip(a, b)]
    return E.make(st, "StateTwo", args), a + b


def same(x, y):
    return And(*[p == q for p, q in zip(x, y)])


def lex(x, y):
    lt, pre = F, T
    for p, q in zip(x, y):
        lt = Or(lt, And(pre, p < q))
        pre = And(pre, p == q)
    return lt


def order(E, cls, mk):
    st = E.new_state()
    a, va = mk(E, st, "a")
    b, vb = mk(E, st, "b")
    E.cover("constructors return", Not(st.mem["$exc"]))
    E.prove("constructors do not throw for regular states", Not(st.mem["$exc"]))
    op = lambda o, x, y: E.run(st, cls + "::operator" + o, x, [y])
    eq = op("==", a, b)
    E.prove("== compares all quantum numbers", eq == same(va, vb))
    E.prove("!= negates ==", op("!=", a, b) == Not(eq))
    lt = op("<", a, b)
    E.prove("< is lexicographic on the quantum numbers", lt == lex(va, vb))
    E.prove("<= is < or ==", op("<=", a, b) == Or(lt, eq))
    E.prove("trichotomy", z3.PbEq([(lt, 1), (eq, 1), (op("<", b, a), 1)], 1))
    E.cover("equal states exist", And(eq, Not(st.mem["$exc"])))
    E.cover("ordered states exist", lt)
    ha = E.run(st, cls + "::getHash", a, [])
    hb = E.run(st, cls + "::getHash", b, [])
    E.prove("equal states have equal hashes", Implies(eq, ha == hb))
    hs = "std::hash<%s>::operator()" % cls
    if hs in E.P.by_q:
        h = E.run(st, hs, E.alloc(st, Rec("std::hash", {})), [a])
        E.prove("std::hash is the state's hash", h == ha)
    # transitivity, on the operator itself
    c, vc = mk(E, st, "c")
    E.prove("< is transitive", Implies(And(lt, op("<", b, c)), op("<", a, c)))
    E.prove("comparisons do not throw", Not(st.mem["$exc"]))


@task("StateOne order, equality, hash", [TU], replay="one")
def t_one(E):
    order(E, "StateOne", mk_one)


@task("StateTwo order, equality, hash", [TU], replay="two")
def t_two(E):
    order(E, "StateTwo", mk_two)


@task("StateTwo built from two one-atom states equals the one built from arrays", [TU])
def t_two_ctor(E):
    st = E.new_state()
    a, va = mk_one(E, st, "a")
    b, vb = mk_one(E, st, "b")
    p = E.make(st, "StateTwo", [E.read(st, a), E.read(st, b)])
    q = E.make(st, "StateTwo", [Arr([x, y]) for x, y in zip(va, vb)])
    E.prove("equal", E.run(st, "StateTwo::operator==", p, [q]))
    E.prove("equal hash", E.run(st, "StateTwo::getHash", p, []) == E.run(st, "StateTwo::getHash", q, []))
    for i, nm in enumerate(("getFirstState", "getSecondState")):
        r = E.run(st, "StateTwo::" + nm, p, [])
        E.prove(nm, E.run(st, "StateOne::operator==", E.alloc(st, r), [a if i == 0 else b]))
    E.prove("no exception", Not(st.mem["$exc"]))


@task("artificial states: labels decide equality and hash", [TU])
def t_label(E):
    st = E.new_state()
    x, y = E.fresh(STR, "x"), E.fresh(STR, "y")
    a, b = E.make(st, "StateOne", [x]), E.make(st, "StateOne", [y])
    E.prove("label constructor does not throw", Not(st.mem["$exc"]))
    E.prove("artificial", E.run(st, "StateOne::isArtificial", a, []))
    E.prove("label kept", E.run(st, "StateOne::getLabel", a, []) == x)
    eq = E.run(st, "StateOne::operator==", a, [b])
    E.prove("== iff same label", eq == (x == y))
    E.prove("hash", Implies(eq, E.run(st, "StateOne::getHash", a, []) ==
                            E.run(st, "StateOne::getHash", b, [])))
    c, vc = mk_one(E, st, "c")
    E.prove("never equal to a regular state", Not(E.run(st, "StateOne::operator==", a, [c])))
    E.prove("no exception", Not(st.mem["$exc"]))
    for g in ("getN", "getL", "getJ", "getM", "getS", "getSpecies", "getElement"):
        s2 = st.copy()
        E.run(s2, "StateOne::" + g, a, [])
        E.prove(g + " of an artificial state throws", s2.mem["$exc"])
    s2 = st.copy()
    E.run(s2, "StateOne::getLabel", c, [])
    E.prove("getLabel of a regular state throws", s2.mem["$exc"])


@task("getters return what the constructor was given", [TU])
def t_getters(E):
    st = E.new_state()
    a, v = mk_one(E, st, "a")
    for g, x in zip(("getSpecies", "getN", "getL", "getJ", "getM"), v):
        E.prove(g, E.run(st, "StateOne::" + g, a, []) == x)
    p, w = mk_two(E, st, "p")
    for i, g in enumerate(("getSpecies", "getN", "getL", "getJ", "getM")):
        r = E.run(st, "StateTwo::" + g, p, [])
        E.prove("pair " + g, And(r.e[0] == w[i], r.e[1] == w[5 + i]))
        for k in (0, 1):
            E.prove("pair %s(%d)" % (g, k),
                    E.run(st, "StateTwo::" + g, p, [z3.IntVal(k)]) == w[5 * k + i])
    E.prove("no exception", Not(st.mem["$exc"]))


def old_one(E, st, nm):
    v = one(E, st, nm)
    return E.make(st, "StateOneOld", v, ptypes=["string", "int", "int", "float", "float"]), v[1:]


def old_two(E, st, nm):
    a, b = one(E, st, nm + "a"), one(E, st, nm + "b")
    return E.make(st, "StateTwoOld", [Arr([x, y]) for x, y in zip(a, b)],
                  ptypes=["string", "int", "int", "float", "float"]), a[1:] + b[1:]


def old_order(E, cls, mk):
    """legacy states: the species is a property of the basis and takes no part in comparisons"""
    st = E.new_state()
    a, va = mk(E, st, "a")
    b, vb = mk(E, st, "b")
    op = lambda o, x, y: E.run(st, cls + "::operator" + o, x, [y])
    eq = op("==", a, b)
    E.prove("== compares all quantum numbers", eq == same(va, vb))
    E.prove("!= negates ==", op("!=", a, b) == Not(eq))
    E.prove("< is lexicographic", op("<", a, b) == lex(va, vb))
    E.cover("equal", eq)
    h = "std::hash<%s>::operator()" % cls
    H = E.alloc(st, Rec("std::hash", {}))
    E.prove("equal states have equal hashes",
            Implies(eq, E.run(st, h, H, [a]) == E.run(st, h, H, [b])))
    E.prove("no exception", Not(st.mem["$exc"]))


@task("StateOneOld order, equality, hash", ["StateOld.cpp"])
def t_old_one(E):
    old_order(E, "StateOneOld", old_one)


@task("StateTwoOld order, equality, hash", ["StateOld.cpp"])
def t_old_two(E):
    old_order(E, "StateTwoOld", old_two)


@task("StateTwoOld accessors and order()", ["StateOld.cpp"])
def t_old_acc(E):
    st = E.new_state()
    a, va = old_two(E, st, "a")
    pick = lambda r, k: And(*[E.read(st, r.sub(("f", f))) == va[i + 4 * k]
                              for i, f in enumerate(("n", "l", "j", "m"))])
    for nm, k in (("first", 0), ("second", 1), ("getFirstState", 0), ("getSecondState", 1)):
        r = E.alloc(st, E.run(st, "StateTwoOld::" + nm, a, []))
        E.prove(nm, pick(r, k))
    o = E.alloc(st, E.run(st, "StateTwoOld::order", a, []))
    sw = lex(va[4:], va[:4])
    f = lambda i, g: E.read(st, o.sub(("f", g), ("i", i)))
    for i, g in enumerate(("n", "l", "j", "m")):
        E.prove("order() sorts the pair: " + g,
                And(f(0, g) == z3.If(sw, va[4 + i], va[i]), f(1, g) == z3.If(sw, va[i], va[4 + i])))
    E.prove("no exception", Not(st.mem["$exc"]))


@task("Symmetry order", ["tu:tu/sym.cpp"])
def t_sym(E):
    st = E.new_state()
    s = []
    for nm in "abc":
        f = {k: z3.Int(fresh_name(nm + k)) for k in ("inversion", "reflection", "permutation", "rotation")}
        E.inputs.update({nm + k: v for k, v in f.items()})
        s.append((E.alloc(st, Rec("Symmetry", f)), tuple(f.values())))
    (a, va), (b, vb), (c, vc) = s
    fn = E.P.find("operator<", 2, ptypes=["Symmetry", "Symmetry"])
    lt = lambda x, y: E.run(st, None, None, [x, y], fn=fn)
    E.prove("lexicographic", lt(a, b) == lex(va, vb))
    E.prove("irreflexive", Not(lt(a, a)))
    E.prove("transitive", Implies(And(lt(a, b), lt(b, c)), lt(a, c)))
    E.prove("total", Or(lt(a, b), lt(b, a), same(va, vb)))
    E.cover("ordered", lt(a, b))
