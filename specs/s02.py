"""Wildcard matching accepts exactly the states that agree wherever the pattern is not the wildcard;
reflection negates the magnetic quantum numbers and is an involution."""
import z3

from driver import task
from s01 import STR, mk_one, mk_two, old_one, old_two, one, same
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s01.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp",
                                      "MatrixElementCache.cpp", "Wavefunction.cpp"], "n": (4000, 60000),
           "flags": ["-DPROP_S02"]}
RULE = ("states and patterns from small pools with wildcards placed at random; distinct by the "
        "written-out quantum numbers")
ARB = 32767


def match(a, b, k=0):
    """fields of the state a agree with the pattern b or the pattern has the wildcard"""
    return And(*[x == y if i < k else Or(y == ARB, x == y) for i, (x, y) in enumerate(zip(a, b))])


@task("one-atom wildcard matching", ["State.cpp"], replay="one")
def t_one(E):
    st = E.new_state()
    a, va = mk_one(E, st, "a")
    b, vb = mk_one(E, st, "b")
    r = E.run(st, "StateOne::operator^", a, [b])
    E.prove("matches exactly the states of the pattern", r == match(va, vb, 1))
    E.prove("every state matches itself", E.run(st, "StateOne::operator^", a, [a]))
    g = E.run(st, "StateOne::isGeneralized", b, [])
    E.prove("isGeneralized iff a wildcard is present", g == Or(*[x == ARB for x in vb[1:]]))
    eq = E.run(st, "StateOne::operator==", a, [b])
    E.prove("without wildcards matching is equality", Implies(Not(g), r == eq))
    E.cover("a wildcard matches something else", And(r, Not(eq)))
    E.prove("no exception", Not(st.mem["$exc"]))


@task("pair wildcard matching", ["State.cpp"])
def t_two(E):
    st = E.new_state()
    a, va = mk_two(E, st, "a")
    b, vb = mk_two(E, st, "b")
    r = E.run(st, "StateTwo::operator^", a, [b])
    E.prove("both atoms match", r == And(match(va[:5], vb[:5], 1), match(va[5:], vb[5:], 1)))
    g = E.run(st, "StateTwo::isGeneralized", b, [])
    for i in (0, 1):
        w = Or(*[x == ARB for x in vb[5 * i + 1:5 * i + 5]])
        E.prove("isGeneralized()[%d]" % i, g.e[i] == w)
        E.prove("isGeneralized(%d)" % i, E.run(st, "StateTwo::isGeneralized", b, [z3.IntVal(i)]) == w)
    E.cover("a pair matches", r)
    E.prove("no exception", Not(st.mem["$exc"]))


@task("legacy wildcard matching", ["StateOld.cpp"])
def t_old(E):
    st = E.new_state()
    a, va = old_one(E, st, "a")
    b, vb = old_one(E, st, "b")
    E.prove("one atom", E.run(st, "StateOneOld::operator^", a, [b]) == match(va, vb))
    a, va = old_two(E, st, "c")
    b, vb = old_two(E, st, "d")
    E.prove("two atoms", E.run(st, "StateTwoOld::operator^", a, [b]) == match(va, vb))
    E.prove("no exception", Not(st.mem["$exc"]))


@task("reflection", ["State.cpp"], replay="one")
def t_reflect(E):
    st = E.new_state()
    a, va = mk_one(E, st, "a")
    r = E.alloc(st, E.run(st, "StateOne::getReflected", a, []))
    for g, x in zip(("getSpecies", "getN", "getL", "getJ", "getM"), va[:4] + (-va[4],)):
        E.prove("reflected " + g, E.run(st, "StateOne::" + g, r, []) == x)
    rr = E.alloc(st, E.run(st, "StateOne::getReflected", r, []))
    E.prove("involution", E.run(st, "StateOne::operator==", rr, [a]))
    E.prove("involution keeps the hash", E.run(st, "StateOne::getHash", rr, []) ==
            E.run(st, "StateOne::getHash", a, []))
    E.prove("no exception", Not(st.mem["$exc"]))
    p, vp = mk_two(E, st, "p")
    q = E.alloc(st, E.run(st, "StateTwo::getReflected", p, []))
    for i in (0, 1):
        E.prove("pair reflected %d" % i, And(*[
            E.run(st, "StateTwo::" + g, q, [z3.IntVal(i)]) == x
            for g, x in zip(("getSpecies", "getN", "getL", "getJ", "getM"),
                            vp[5 * i:5 * i + 4] + (-vp[5 * i + 4],))]))
    E.prove("pair involution", E.run(st, "StateTwo::operator==", E.alloc(
        st, E.run(st, "StateTwo::getReflected", q, [])), [p]))
    E.prove("no exception in pairs", Not(st.mem["$exc"]))


@task("species carries element and spin", ["State.cpp", "StateOld.cpp"])
def t_species(E):
    st = E.new_state()
    a, va = mk_one(E, st, "a")
    back = E.uninterp("strback", Str, z3.IntSort())(va[0])
    digit = And(back >= 48, back <= 57)
    s = E.run(st, "StateOne::getS", a, [])
    E.prove("spin is (digit-1)/2, and 1/2 without a digit",
            s == z3.If(digit, (z3.ToReal(back) - 48 - 1) / 2, R("1/2")))
    el = E.run(st, "StateOne::getElement", a, [])
    E.prove("without a digit the element is the species", Implies(Not(digit), el == va[0]))
    b = E.make(st, "StateOneOld", va, ptypes=["string", "int", "int", "float", "float"])
    E.assume(va[0] != E.strlit(""))
    E.prove("the legacy state analyses the species alike",
            And(E.read(st, b.sub(("f", "s"))) == s, E.read(st, b.sub(("f", "element"))) == el))
    E.prove("no exception", Not(st.mem["$exc"]))
