"""Matrix elements are the closed formula of the two states, whatever the order of the states, whatever was
asked before, and whether or not the pieces were cached: sharing one stored value between two orderings never
loses a sign."""
import z3

import mec
from driver import task
from stdmodel import sqrt_of
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s04.cpp", "srcs": ["State.cpp", "StateOld.cpp", "MatrixElements.cpp", "Basisnames.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp",
                                       "Wavefunction.cpp"], "n": (500, 12000), "flags": ["-DPROP_S04"]}
RULE = ("sequences of requests for random pairs of fine-structure states in random order on one cache; each "
        "value is compared with the formula written out independently; distinct by quantum numbers and operator")
ASSUME = ["column-exchange symmetries of the Wigner 3j and 6j symbols (WignerSymbols library)",
          "the radial integral is one deterministic function of the stored key (Wavefunction.hpp, decided in S10)",
          "floating point arithmetic treated as real arithmetic"]
TUS = [mec.TU, "State.cpp"]
K = "MatrixElementCache::CacheKey_cache_"
H = "MatrixElementCache::CacheKeyHasher_cache_"


def key(E, st, kind, *args):
    return E.make(st, K + kind, list(args))


def half(x):
    return z3.ToReal(x) / 2


def sgn_ok(E, s):
    return Or(s == 1, s == -1)


def setup(E):
    st = E.new_state()
    mec.setup(E)
    S = z3.Int("S")
    E.facts.append(And(S >= 1, S <= 3))
    a, b = mec.phys(E, "a", S), mec.phys(E, "b", S)
    return st, S, a, b


def view(E, st, kind, lv):
    v = E.read(st, lv)
    return E.key(K + kind, v) if False else mec.drop_sgn(v)


def samekey(E, st, kind, x, y):
    from vc import same_value
    a, b = mec.drop_sgn(E.read(st, x)), mec.drop_sgn(E.read(st, y))
    return And(*[p[1] == q[1] for p, q in zip(leaves(a), leaves(b))])


def keytask(kind, mk):
    """operator== compares every field that is part of the key; hash respects it; keys do not depend on the
    order of the two states"""
    @task("key of " + kind, TUS)
    def t(E):
        st, S, a, b = setup(E)
        kappa, kappa2 = z3.Int("kappa"), z3.Int("kappa2")
        c, d = mec.phys(E, "c", S), mec.phys(E, "d", S)
        x = mk(E, st, kappa, S, a, b)
        y = mk(E, st, kappa, S, b, a)
        z = mk(E, st, kappa2, S, c, d)
        E.prove("the key of (a,b) is the key of (b,a)", samekey(E, st, kind, x, y))
        eq = E.run(st, K + kind + "::operator==", x, [z])
        E.prove("== compares the whole key", eq == samekey(E, st, kind, x, z))
        hl = E.alloc(st, Rec(H + kind, {}))
        h = [E.run(st, H + kind + "::operator()", hl, [w]) for w in (x, y, z)]
        E.prove("equal keys have equal hashes", And(Implies(eq, h[0] == h[2]), h[0] == h[1]))
        E.prove("no exception", Not(st.mem["$exc"]))
        # two requests share a key only if they agree up to the order of the states
        pa, pb, pc, pd = (mk.proj(q) for q in (a, b, c, d))
        e2 = lambda p, q: And(*[u == v for u, v in zip(p, q)])
        E.prove("the key determines the request up to the order of the states",
                Implies(eq, And(kappa == kappa2, Or(And(e2(pa, pc), e2(pb, pd)), And(e2(pa, pd), e2(pb, pc))))))
        E.cover("two requests share a key", And(eq, Not(e2(pa, pc))))


def mk_rad(E, st, kappa, S, a, b):
    return key(E, st, "radial", z3.Int("method"), z3.Const("sp", E.keysort("std::basic_string<char>")) if False
               else E.strlit("Rb"), kappa, a[0], b[0], a[1], b[1], a[2], b[2])


def mk_ang(E, st, kappa, S, a, b):
    return key(E, st, "angular", kappa, a[2], b[2], a[3], b[3])


def mk_com(E, st, kappa, S, a, b):
    return key(E, st, "reduced_commutes", half(S), kappa, a[1], b[1], a[2], b[2])


def mk_mul(E, st, kappa, S, a, b):
    return key(E, st, "reduced_multipole", kappa, a[1], b[1])


mk_rad.proj = lambda q: (q[0], q[1], q[2])
mk_ang.proj = lambda q: (q[2], q[3])
mk_com.proj = lambda q: (q[1], q[2])
mk_mul.proj = lambda q: (q[1],)
for k, f in (("radial", mk_rad), ("angular", mk_ang), ("reduced_commutes", mk_com), ("reduced_multipole", mk_mul)):
    keytask(k, f)


def flds(E, st, lv):
    v = E.read(st, lv)
    return {n: (tuple(x.e) if isinstance(x, Arr) else x) for n, x in v.f.items()}


def split_order(E, conds):
    """the two orderings as separate paths: each is decided on its own"""
    return conds


@task("stored angular factor times the key's sign is the factor of the request", TUS)
def t_ang(E):
    st, S, a, b = setup(E)
    kappa = z3.Int("kappa")
    E.facts.append(kappa >= 0)
    g = flds(E, st, mk_ang(E, st, kappa, S, a, b))
    # meaning of the stored value is written on the key's own fields; parity from the request's integers
    swapped = Not(And(g["j"][0] == a[2], g["m"][0] == a[3], g["j"][1] == b[2], g["m"][1] == b[3]))
    ja, jb = a[2], b[2]
    sa, sb = mec.sgnp(E, a[2] - a[3]), mec.sgnp(E, b[2] - b[3])
    k = toreal(kappa)
    wab = mec.w3j(E, a[2], k, b[2], -a[3], a[3] - b[3], b[3])
    wba = mec.w3j(E, b[2], k, a[2], -b[3], b[3] - a[3], a[3])
    E.facts.append(wab == mec.w3j(E, b[2], k, a[2], b[3], a[3] - b[3], -a[3]))     # see below
    E.facts.pop()
    # (a b c; d e f) = (-1)^(a+b+c) (c b a; f e d) and (a b c; -d -e -f) = (-1)^(a+b+c) (a b c; d e f)
    E.facts.append(wba == wab)
    stored = z3.If(swapped, sb * wba, sa * wab)
    E.prove("sign is +1 or -1", sgn_ok(E, g["sgn"]))
    E.prove("the key holds one of the two orders", Or(Not(swapped), And(
        g["j"][0] == b[2], g["m"][0] == b[3], g["j"][1] == a[2], g["m"][1] == a[3])))
    E.prove("sgn * stored = (-1)^(j-m) 3j", toreal(g["sgn"]) * stored == sa * wab)


@task("stored reduced element (spin commutes) times sign is the factor of the request", TUS)
def t_com(E):
    st, S, a, b = setup(E)
    kappa = z3.Int("kappa")
    E.facts.append(kappa >= 0)
    g = flds(E, st, mk_com(E, st, kappa, S, a, b))
    s, k = half(S), toreal(kappa)
    swapped = Not(And(g["l"][0] == a[1], g["j"][0] == a[2], g["l"][1] == b[1], g["j"][1] == b[2]))
    R = toreal
    wab = mec.w6j(E, a[1], a[2], s, b[2], b[1], k)
    wba = mec.w6j(E, b[1], b[2], s, a[2], a[1], k)
    E.facts.append(wab == wba)      # exchange of upper and lower arguments in two columns and of the columns
    E.prove("the key holds one of the two orders", Or(Not(swapped), And(
        g["l"][0] == b[1], g["j"][0] == b[2], g["l"][1] == a[1], g["j"][1] == a[2])))
    rab, rba = mec.F_comm_s(E, s, kappa, (a[1], b[1]), (a[2], b[2])), \
        mec.F_comm_s(E, s, kappa, (b[1], a[1]), (b[2], a[2]))
    E.facts.append(sqrt_of(E, (2 * a[2] + 1) * (2 * b[2] + 1)) == sqrt_of(E, (2 * b[2] + 1) * (2 * a[2] + 1)))
    stored = z3.If(swapped, rba, rab)
    E.prove("sign is +1 or -1", sgn_ok(E, g["sgn"]))
    E.prove("sgn * stored = reduced element of the request", toreal(g["sgn"]) * stored == rab)
    lab, lba = mec.F_comm_l(E, s, kappa, (a[1], a[1]), (a[2], b[2])), \
        mec.F_comm_l(E, s, kappa, (a[1], a[1]), (b[2], a[2]))
    E.facts.append(mec.w6j(E, s, a[2], a[1], b[2], s, k) == mec.w6j(E, s, b[2], a[1], a[2], s, k))
    E.prove("orbit commutes, equal l: sgn * stored = reduced element of the request",
            Implies(a[1] == b[1], toreal(g["sgn"]) * z3.If(swapped, lba, lab) == lab))


@task("stored reduced multipole element times sign is the factor of the request", TUS)
def t_mul(E):
    st, S, a, b = setup(E)
    kappa = z3.Int("kappa")
    E.facts.append(kappa >= 0)
    g = flds(E, st, mk_mul(E, st, kappa, S, a, b))
    wab, wba = (mec.w3j(E, x[1], kappa, y[1], 0, 0, 0) for x, y in ((a, b), (b, a)))
    # column exchange; the symbol vanishes unless l + kappa + l' is even
    E.facts += [wab == wba, Implies((a[1] + kappa + b[1]) % 2 != 0, wab == 0),
                sqrt_of(E, toreal((2 * a[1] + 1) * (2 * b[1] + 1))) ==
                sqrt_of(E, toreal((2 * b[1] + 1) * (2 * a[1] + 1)))]
    swapped = g["l"][0] != a[1]
    E.prove("the key holds one of the two orders", Or(And(g["l"][0] == a[1], g["l"][1] == b[1]),
                                                      And(g["l"][0] == b[1], g["l"][1] == a[1])))
    stored = z3.If(swapped, mec.F_mult(E, kappa, (b[1], a[1])), mec.F_mult(E, kappa, (a[1], b[1])))
    E.prove("sgn * stored = reduced element of the request",
            toreal(g["sgn"]) * stored == mec.F_mult(E, kappa, (a[1], b[1])))


def operands(E, st, mec_lv, arrs, a, b, S, sp, kr, ka):
    k1 = key(E, st, "radial", E.read(st, mec_lv.sub(("f", "method"))), sp, kr, a[0], b[0], a[1], b[1], a[2], b[2])
    k2 = mk_ang(E, st, ka, S, a, b)
    k3 = mk_com(E, st, ka, S, a, b)
    k4 = mk_mul(E, st, ka, S, a, b)
    sel = lambda c, kk, k: z3.Select(arrs[c], E.key(mec.CACHES[c], E.read(st, k)))
    sg = lambda k: toreal(E.read(st, k).f["sgn"])
    return {"R": sel("cache_radial", "radial", k1), "A": sg(k2) * sel("cache_angular", "angular", k2),
            "S": sg(k3) * sel("cache_reduced_commutes_s", "c", k3),
            "L": sg(k3) * sel("cache_reduced_commutes_l", "c", k3),
            "M": sg(k4) * sel("cache_reduced_multipole", "m", k4)}


def elem(name, call, spec, same_l=False):
    @task(name, TUS)
    def t(E):
        st, S, a, b = setup(E)
        sp = E.fresh("std::basic_string<char>", "species")
        lv, arrs = mec.new_cache(E, st)
        E.contracts["MatrixElementCache::update"] = mec.update_contract(arrs)
        la, lb = mec.state(E, st, sp, S, a), mec.state(E, st, sp, S, b)
        ops = lambda kr, ka: operands(E, st, lv, arrs, a, b, S, sp, kr, ka)
        want = spec(E, st, ops, a, b, half(S))
        r = call(E, st, lv, la, lb)
        E.prove("equals the product of the factors of the request", toreal(r) == want)
        E.prove("does not throw for states of one species", Not(st.mem["$exc"]))
        for c in mec.CACHES:
            m = E.read(st, lv.sub(("f", c)))
            E.prove("no stored value of %s changes" % c, m.val == arrs[c])
        lc = mec.state(E, st, E.fresh("std::basic_string<char>", "other"), S, b)
        st2 = st.copy()
        sp2 = E.read(st2, lc.sub(("f", "species")))
        call(E, st2, lv, la, lc)
        E.prove("different species are refused", Implies(sp2 != sp, st2.mem["$exc"]))
        E.cover("a value is returned", Not(st.mem["$exc"]))


def em(f):
    def spec(E, st, ops, a, b, s):
        kr, ka, pre = f(E, st)
        o = ops(kr, ka)
        return pre * mec.const(E, st, "elementary_charge") * o["R"] * o["A"] * o["S"] * o["M"]
    return spec


def iv(x):
    return z3.IntVal(x)


MEC = "MatrixElementCache::"
KK = z3.Int("kappa")
elem("electric multipole element", lambda E, st, lv, x, y: E.run(st, MEC + "getElectricMultipole", lv, [x, y, KK], nargs=3),
     em(lambda E, st: (KK, KK, ONE)))
elem("electric multipole element, radial and angular rank given",
     lambda E, st, lv, x, y: E.run(st, MEC + "getElectricMultipole", lv, [x, y, z3.Int("kr"), KK], nargs=4),
     em(lambda E, st: (z3.Int("kr"), KK, ONE)))
elem("electric dipole element", lambda E, st, lv, x, y: E.run(st, MEC + "getElectricDipole", lv, [x, y]),
     em(lambda E, st: (iv(1), iv(1), ONE)))
elem("diamagnetic element", lambda E, st, lv, x, y: E.run(st, MEC + "getDiamagnetism", lv, [x, y, KK]),
     em(lambda E, st: (iv(2), KK, z3.RealVal("2/3") * mec.const(E, st, "elementary_charge"))))
elem("radial element", lambda E, st, lv, x, y: E.run(st, MEC + "getRadial", lv, [x, y, KK]),
     lambda E, st, ops, a, b, s: ops(KK, iv(1))["R"])


def mag(E, st, ops, a, b, s):
    o = ops(iv(0), iv(1))
    L = toreal(a[1])
    return -mec.const(E, st, "bohr_magneton") * o["R"] * o["A"] * (
        mec.const(E, st, "gL") * o["S"] * sqrt_of(E, toreal(a[1] * (a[1] + 1) * (2 * a[1] + 1))) +
        mec.const(E, st, "gS") * o["L"] * sqrt_of(E, s * (s + 1) * (2 * s + 1)))


elem("magnetic dipole element", lambda E, st, lv, x, y: E.run(st, MEC + "getMagneticDipole", lv, [x, y]), mag)
