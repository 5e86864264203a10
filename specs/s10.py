"""Radial wavefunctions and radial matrix elements: the published model potential, the Numerov recurrence on the
square-root grid, normalisation, and integration over the overlap of the two grids, symmetric in the two states."""
from fractions import Fraction

import z3

from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s10.cpp", "srcs": ["QuantumDefect.cpp", "Wavefunction.cpp"], "n": (30, 600), "flags": ["-pthread"]}
RULE = "random levels of generated and published databases; closed forms for hydrogen; distinct by the levels"
ASSUME = ["real arithmetic in the proofs (rounding, and the search for grid points in rounded grids, is covered by "
          "the harness)", "GSL's hypergeometric function; exp, sqrt and pow of the C library"]
TU = "Wavefunction.cpp"
TW = "tu:tu/wave.cpp"
QD = "QuantumDefect"


def qd(E, st, n="qd"):
    f = {}
    for x in E.P.fields(QD):
        t = x["type"].replace(" &", "")
        f[x["name"]] = Opaque(t) if "Key" in t or "function" in t else E.fresh(t, n + "_" + x["name"])
    lv = E.alloc(st, Rec(QD, f), n)
    q = lambda k: f[k]
    E.facts.append(And(q("l") >= 0, q("n") > q("l"), q("n") <= 1000))
    return lv, q


def uf(E, name, x):
    return E.uninterp(name, z3.RealSort(), z3.RealSort())(x)


def potential(E, q, x):
    """Marinescu, Sadeghpour, Dalgarno 1994, with the spin-orbit term below l = 4"""
    a = {k: q(k) for k in ("ac", "a1", "a2", "a3", "a4", "rc")}
    Z, l, j = toreal(q("Z")), toreal(q("l")), q("j")
    from stdmodel import ipow, apply_uf
    ex = lambda v: apply_uf(E, "exp", v)
    half = R("1/2")
    back = E.uninterp("strback", z3.RealSort(), z3.IntSort())(q("species"))
    s = ite(And(back >= 48, back <= 57), rdiv(toreal(back - 48 - 1), R(2)), half)
    zl = radd(radd(R(1), rmul(rsub(Z, R(1)), ex(rneg(rmul(a["a1"], x))))),
              rneg(rmul(rmul(x, radd(a["a3"], rmul(a["a4"], x))), ex(rneg(rmul(a["a2"], x))))))
    x3, x4 = ipow(E, x, 3), ipow(E, x, 4)
    vp = rmul(rdiv(rneg(a["ac"]), rmul(R(2), x4)), rsub(R(1), ex(rneg(ipow(E, rdiv(x, a["rc"]), 6)))))
    al = R(Fraction(7.2973525664e-3))
    vso = rmul(rdiv(rmul(al, al), rmul(R(4), x3)),
               rsub(rsub(rmul(j, radd(j, R(1))), rmul(l, radd(l, R(1)))), rmul(s, radd(s, R(1)))))
    return radd(radd(rdiv(rneg(zl), x), vp), ite(q("l") < 4, vso, ZERO))


@task("model potential", [TU], isdigit=True)
def t_v(E):
    st = E.new_state()
    lv, q = qd(E, st)
    x = E.fresh("double", "x")
    E.facts.append(And(x > 0, q("rc") > 0))
    V = E.run(st, "model_potential::V", None, [lv, x])
    E.prove("V is the parametric model potential with the spin-orbit term", V == potential(E, q, x))
    E.prove("no exception", Not(st.mem["$exc"]))
    v = E.fresh("double", "V")
    E.contracts["model_potential::V"] = lambda E, st, A: v
    g = E.run(st, "model_potential::g", None, [lv, x])
    l = toreal(q("l"))
    E.prove("g is the reduced radial equation in the square-root coordinate",
            g == radd(rdiv(rmul(radd(rmul(R(2), l), R("1/2")), radd(rmul(R(2), l), R("3/2"))), x),
                      rmul(rmul(R(8), x), rsub(v, rdiv(q("energy"), R(Fraction(6579683.920757349)))))))


DX = R(Fraction(0.01))


def xyof(E, st, lv, cls):
    return E.read(st, lv).f[[x["name"] for x in E.P.fields(cls) if "Matrix" in x["type"]][0]]


def grid_ok(E, m, n, x0):
    i = z3.Int("gi")
    return z3.ForAll([i], Implies(And(i >= 0, i < n), z3.Select(m.f["c0"].d, i) == x0 + z3.ToReal(i) * DX))


def radius(E, q):
    from stdmodel import sqrt_of
    n = toreal(q("n"))
    return sqrt_of(E, rmul(rmul(R(2), n), radd(n, R(15))))


def grid_task(cls, first):
    @task(cls + " grid", [TU], functions=[cls], limit=200)
    def t(E):
        st = E.new_state()
        l, q = qd(E, st)
        lv = E.alloc(st, Rec(cls, {}), "w")
        x0, xmax = first(E, q), radius(E, q)
        n = z3.Int("npoints")
        K = z3.Int("K")

        def inv(c):
            m = xyof(E, c.st, lv, cls)
            return And(c["i"] >= 0, Implies(And(K >= 0, K < c["i"]),
                                           z3.Select(m.f["c0"].d, K) == x0 + z3.ToReal(K) * DX),
                       m.f["c0"].n == n)
        E.loops["*"] = {"inv": inv}
        # the number of points: the smallest whole number of steps that covers the interval
        E.facts.append(n == -z3.ToInt(rneg(rdiv(rsub(xmax, x0), DX))))
        fn = [f for f in E.P.by_q[cls + "::" + cls] if len(f["params"]) == 1][0]
        E.run(st, None, lv, [l], fn=fn)
        m = xyof(E, st, lv, cls)
        E.prove("covers the interval with steps of dx", m.f["c0"].n == n)
        E.prove("two columns of the same length", T if len(m.f) == 2 else F)
        E.prove("second column has the same length", m.f["c1"].n == n)
        E.prove("point K is x0 + K dx", Implies(And(K >= 0, K < n), z3.Select(m.f["c0"].d, K) == x0 + z3.ToReal(K) * DX))
        E.prove("no exception", Not(st.mem["$exc"]))
        E.prove("the level is kept by reference", T if qdref(E, st, lv, cls) == l else F)
    return t


def qdref(E, st, lv, cls):
    return E.read(st, lv).f.get([x["name"] for x in E.P.fields(cls) if QD in x["type"]][0])


def inner(E, q):
    """square root of the inner classical turning point, at least sqrt(2.08), rounded down"""
    from stdmodel import sqrt_of, to_floor
    n, l = toreal(q("n")), toreal(q("l"))
    n2 = rmul(n, n)
    t = rsub(n2, rmul(n, sqrt_of(E, rsub(n2, rmul(rsub(l, R(1)), rsub(l, R(1)))))))
    c = R(Fraction(2.08))
    return ite(t < c, R(1), to_floor(sqrt_of(E, t)))


grid_task("Numerov", inner)
grid_task("Whittaker", lambda E, q: R(1))


def dynmat(E, name, rows, x0=None):
    from stdmodel import dyn
    m = dyn(E, rows, 2, name=name)
    return m


@task("Numerov integration", [TU], functions=["Numerov::integrate"], limit=300)
def t_num(E):
    st = E.new_state()
    l, q = qd(E, st)
    n = z3.Int("npoints")
    E.facts.append(And(n >= 2, n < 10**7))
    m0 = dynmat(E, "xy", n)
    X = m0.f["c0"].d
    m0 = Rec("$dyn", {"c0": m0.f["c0"], "c1": Vec("double", n, z3.K(z3.IntSort(), ZERO))})
    f = {}
    for x in E.P.fields("Numerov"):
        f[x["name"]] = m0 if "Matrix" in x["type"] else l
    lv = E.alloc(st, Rec("Numerov", f), "w")
    G = E.uninterp("g", z3.RealSort(), z3.RealSort())
    E.contracts["model_potential::g"] = lambda E, st, A: G(toreal(A.val(1)))
    K = z3.Int("K")
    E.facts.append(And(K >= 0, K < n))
    raw = {}

    def y(c):
        return xyof(E, c.st, lv, "Numerov").f["c1"].d

    def rest(c):
        m = xyof(E, c.st, lv, "Numerov")
        return And(m.f["c0"].n == n, m.f["c1"].n == n, m.f["c0"].d == X)

    def at(k):
        return z3.Select(X, k)

    def rhs(Y, k):
        h2 = rmul(DX, DX)
        gg = lambda i: G(rmul(at(i), at(i)))
        A = rmul(radd(R(2), rmul(rmul(R("5/6"), h2), gg(k + 1))), z3.Select(Y, k + 1))
        B = rmul(rsub(R(1), rmul(rmul(R("1/12"), h2), gg(k + 2))), z3.Select(Y, k + 2))
        C = rsub(R(1), rmul(rmul(R("1/12"), h2), gg(k)))
        return rdiv(rsub(A, B), C)
    sign = z3.If((q("n") - q("l")) % 2 == 0, R(Fraction(-1e-10)), R(Fraction(1e-10)))

    def recur(Y, lo):
        """Y is the solution from index lo on, at the arbitrary index K"""
        return And(z3.Select(Y, n - 2) == sign, z3.Select(Y, n - 1) == 0,
                   Implies(And(K >= lo, K <= n - 3), z3.Select(Y, K) == rhs(Y, K)))

    def inv1(c):
        Y = y(c)
        return And(rest(c), c["i"] >= -1, c["i"] <= n - 3, recur(Y, c["i"] + 1))
    S = E.uninterp("norm_sum", z3.IntSort(), z3.RealSort())

    def term(i):
        Y = raw["Y"]
        return rmul(rmul(rmul(rmul(z3.Select(Y, i), z3.Select(Y, i)), at(i)), at(i)), DX)

    def inv2(c):
        raw.setdefault("Y", y(c))
        i = c["i"]
        E.facts.append(And(S(0) == 0, Implies(i >= 0, S(i + 1) == S(i) + term(i))))
        return And(rest(c), y(c) == raw["Y"], i >= 0, i <= n, c["norm"] == S(i))

    def inv3(c):
        Y, Z, i = raw["Y"], y(c), c["i"]
        raw["norm"] = c["norm"]
        return And(rest(c), i >= 0, i <= n,
                   z3.Select(Z, K) == z3.If(K < i, rdiv(z3.Select(Y, K), c["norm"]), z3.Select(Y, K)))
    F_ = "Numerov::integrate"
    E.loops[(F_, 0)] = {"inv": inv1}
    E.loops[(F_, 1)] = {"inv": inv2}
    E.loops[(F_, 2)] = {"inv": inv3}
    r = E.run(st, F_, lv)
    Y = raw["Y"]
    from stdmodel import sqrt_of
    N = sqrt_of(E, rmul(R(2), S(n)))
    E.prove("the unnormalised function obeys the Numerov recurrence at every grid point", recur(Y, 0))
    E.prove("the result is that function divided by its norm",
            z3.Select(r.f["c1"].d, K) == z3.If(N > 0, rdiv(z3.Select(Y, K), N), z3.Select(Y, K)))
    E.prove("the grid is returned unchanged", And(r.f["c0"].d == X, r.f["c0"].n == n, r.f["c1"].n == n))
    E.prove("no exception", Not(st.mem["$exc"]))
    # lemma: the normalised function has unit norm (induction over the number of points)
    i = z3.Int("ind")
    S2 = E.uninterp("norm_sum_of_result", z3.IntSort(), z3.RealSort())
    P = z3.Real("P")        # the norm
    yn = rdiv(z3.Select(Y, i), P)
    step = rmul(rmul(rmul(rmul(yn, yn), at(i)), at(i)), DX)
    E.prove("normalisation lemma, induction step",
            Implies(And(P > 0, i >= 0, S2(i) == rdiv(S(i), rmul(P, P)), S(i + 1) == S(i) + term(i),
                        S2(i + 1) == S2(i) + step), S2(i + 1) == rdiv(S(i + 1), rmul(P, P))))
    E.prove("normalisation lemma, conclusion: twice the sum is one",
            Implies(And(P > 0, rmul(P, P) == rmul(R(2), S(n)), S2(n) == rdiv(S(n), rmul(P, P))),
                    rmul(R(2), S2(n)) == 1))


@task("Whittaker functions", [TU, TW])
def t_whit(E):
    from stdmodel import apply_uf, sqrt_of, pow_of
    st = E.new_state()
    U = E.uninterp("hyperg_U", *[z3.RealSort()] * 4)
    E.contracts["gsl_sf_hyperg_U"] = lambda E, st, A: U(*[toreal(A.val(i)) for i in range(3)])
    r, nu, l = z3.Real("r"), z3.Real("nu"), z3.Int("l")
    E.facts.append(And(r > 0, nu > 0, l >= 0, l < 1000))
    lr = toreal(l)
    z = rdiv(rmul(R(2), r), nu)
    m = radd(lr, R("1/2"))
    W = rmul(rmul(apply_uf(E, "exp", rneg(rmul(R("1/2"), z))), pow_of(E, z, radd(m, R("1/2")))),
             U(radd(rsub(m, nu), R("1/2")), radd(R(1), rmul(R(2), m)), z))
    G = lambda x: apply_uf(E, "tgamma", x)
    want = rdiv(W, sqrt_of(E, rmul(rmul(rmul(nu, nu), G(radd(radd(nu, lr), R(1)))), G(rsub(nu, lr)))))
    v = E.run(st, "whittaker_functions::RadialWFWhittaker", None, [r, nu, l])
    E.prove("Coulomb function: W(nu, l+1/2, 2r/nu) over sqrt(nu^2 Gamma(nu+l+1) Gamma(nu-l))", v == want)
    # the sampled function: value at the square of the grid point, sign by the number of nodes
    lv0, q = qd(E, st)
    n = z3.Int("npoints")
    K = z3.Int("K")
    E.facts.append(And(n >= 0, K >= 0, K < n))
    m0 = dynmat(E, "xy", n)
    X = m0.f["c0"].d
    f = {}
    for x in E.P.fields("Whittaker"):
        f[x["name"]] = m0 if "Matrix" in x["type"] else lv0
    lv = E.alloc(st, Rec("Whittaker", f), "w")
    Wf = E.uninterp("coulomb", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
    E.contracts["whittaker_functions::RadialWFWhittaker"] = \
        lambda E, st, A: Wf(toreal(A.val(0)), toreal(A.val(1)), toint(A.val(2)))
    s = z3.If((q("n") - q("l")) % 2 == 0, R(-1), R(1))
    val = lambda k: rmul(s, Wf(rmul(z3.Select(X, k), z3.Select(X, k)), q("nstar"), q("l")))

    def inv(c):
        x = xyof(E, c.st, lv, "Whittaker")
        return And(c["i"] >= 0, x.f["c0"].n == n, x.f["c1"].n == n, x.f["c0"].d == X,
                   Implies(K < c["i"], z3.Select(x.f["c1"].d, K) == val(K)))
    E.loops["*"] = {"inv": inv}
    r = E.run(st, "Whittaker::integrate", lv)
    E.prove("the Coulomb function of the level at the square of every grid point",
            z3.Select(r.f["c1"].d, K) == val(K))
    E.prove("the grid is returned unchanged", And(r.f["c0"].d == X, r.f["c0"].n == n))
    p = E.fresh("int", "power")
    E.facts.append(And(p >= -100, p <= 100))
    E.prove("power kernel of the scaled function: r^p = x^(2p), volume element 2 x^2 dx (Numerov)",
            E.run(st, "Numerov::power_kernel", None, [p]) == 2 * p + 2)
    E.prove("power kernel (Whittaker)", toreal(E.run(st, "Whittaker::power_kernel", None, [p])) == toreal(2 * p + 1))


EPS = R(Fraction(2) ** -52)


def close(a, b, eps):
    ab = lambda x: z3.If(x >= 0, x, -x)
    mx = z3.If(ab(a) >= ab(b), ab(a), ab(b))
    return Or(a == b, ab(a - b) <= mx * eps)


@task("searching a grid point", [TW], functions=["findidx"])
def t_find(E):
    st = E.new_state()
    n, d, eps = z3.Int("n"), z3.Real("d"), z3.Real("eps")
    X = z3.Const("X", z3.ArraySort(z3.IntSort(), z3.RealSort()))
    i, j, D = z3.Int("qi"), z3.Int("qj"), z3.Int("D")
    E.facts.append(And(n >= 1, n < 10**7, eps >= EPS, eps <= 2 * EPS))
    E.facts.append(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), z3.Select(X, i) < z3.Select(X, j))))
    x = E.alloc(st, Vec("double", n, X), "x")
    fn = [f for f in E.P.by_q["findidx"]][0]
    # the value is a grid point (index D)
    E.facts.append(And(0 <= D, D < n, z3.Select(X, D) == d))

    def inv(c):
        return And(c["L"] >= 0, c["R"] < n, c["L"] <= D, D <= c["R"])

    def again(E, st, A):
        E.prove("the search is not restarted", F, st)
        return E.fresh("int", "again")
    E.contracts["findidx"] = again
    E.loops["*"] = {"inv": inv, "variant": lambda c: c["R"] - c["L"] + 1}
    r = E.run(st, None, None, [x, d, eps], fn=fn)
    E.prove("returns an index of the grid", And(r >= 0, r < n))
    E.prove("the point found is the value up to the tolerance", close(z3.Select(X, r), d, eps))
    E.prove("does not throw if the value is a grid point", Not(st.mem["$exc"]))


@task("searching a value that is no grid point", [TW], functions=["findidx"])
def t_find2(E):
    st = E.new_state()
    n, d, eps = z3.Int("n"), z3.Real("d"), z3.Real("eps")
    X = z3.Const("X", z3.ArraySort(z3.IntSort(), z3.RealSort()))
    E.facts.append(And(n >= 1, n < 10**7, eps >= EPS, eps <= 2 * EPS))
    x = E.alloc(st, Vec("double", n, X), "x")
    fn = [f for f in E.P.by_q["findidx"]][0]
    res = E.fresh("int", "again")

    def again(E, st, A):
        # contract of the restarted search, at twice the tolerance
        E.prove("the restarted search is for the same value", And(A.val(1) == d), st)
        E.prove("the search is restarted at most once", And(A.val(2) == 2 * EPS, eps == EPS), st)
        E.assume(And(res >= 0, res < n, close(z3.Select(X, res), d, 2 * EPS)), st)
        return res
    E.contracts["findidx"] = again
    E.loops["*"] = {"inv": lambda c: And(c["L"] >= 0, c["R"] < n, c["L"] <= n, c["R"] >= c["L"] - 1),
                    "variant": lambda c: c["R"] - c["L"] + 1}
    r = E.run(st, None, None, [x, d, eps], fn=fn)
    ok = Not(st.mem["$exc"])
    E.prove("what is returned is an index whose point is the value up to twice the tolerance",
            Implies(ok, And(r >= 0, r < n, close(z3.Select(X, r), d, 2 * EPS))))


def integral(cls):
    @task("radial matrix element, " + cls, [TW], functions=["IntegrateRadialElement"], limit=240)
    def t(E):
        from stdmodel import pow_of
        st = E.new_state()
        la, qa = qd(E, st, "qa")
        lb, qb = qd(E, st, "qb")
        ms = []
        for nm in ("A", "B"):
            n = z3.Int("n" + nm)
            E.facts.append(And(n >= 2, n < 10**7))
            m = dynmat(E, nm, n)
            i, j = z3.Int("i" + nm), z3.Int("j" + nm)
            x = m.f["c0"].d
            E.facts.append(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), z3.Select(x, i) < z3.Select(x, j))))
            ms.append((n, x, m.f["c1"].d, m))
        (na, xa, ya, ma), (nb, xb, yb, mb) = ms

        def ctor(E, st, A):
            l = A.lv(0)
            return Rec(cls, {"$of": z3.IntVal(0 if l == la else 1)})
        E.contracts["%s::%s/1" % (cls, cls)] = ctor
        E.contracts[cls + "::integrate"] = lambda E, st, A: ma if rc(A.thisv().f["$of"]) == 0 else mb
        power = E.fresh("int", "power")
        E.facts.append(And(power >= -50, power <= 50))

        def find(E, st, A):
            v, d = A.val(0), A.val(1)
            if isinstance(v, LV):
                v = E.read(st, v)
            r = E.fresh("int", "at")
            E.assume(And(r >= 0, r < v.n, close(z3.Select(v.d, r), d, 2 * EPS)), st)
            # the points are further apart than the tolerance: a value of the grid is found at its own index
            k = z3.Int(fresh_name("k"))
            E.assume(z3.ForAll([k], Implies(And(k >= 0, k < v.n, z3.Select(v.d, k) == d), r == k)), st)
            found.append((v, d, r))
            return r
        found = []
        E.contracts["findidx"] = find
        S = E.uninterp("overlap_sum", z3.IntSort(), z3.RealSort())
        kern = 2 * power + (2 if cls == "Numerov" else 1)
        # spec: from the first common point to (excluding) the last one
        xmin = z3.If(z3.Select(xa, 0) >= z3.Select(xb, 0), z3.Select(xa, 0), z3.Select(xb, 0))
        xmax = z3.If(z3.Select(xa, na - 1) <= z3.Select(xb, nb - 1), z3.Select(xa, na - 1), z3.Select(xb, nb - 1))
        sa, ea, sb, eb = z3.Ints("sa ea sb eb")

        def term(t):
            return rmul(rmul(rmul(z3.Select(ya, sa + t), z3.Select(yb, sb + t)),
                             pow_of(E, z3.Select(xa, sa + t), toreal(kern))), DX)

        def inv(c):
            # ghost: the number of terms summed so far
            if len(found) < 4:
                raise Unsupported("grid searches")
            w = [[r for v, d, r in found if v.d.eq(x)] for x in (xa, xb)]
            if [len(z) for z in w] != [2, 2]:
                raise Unsupported("grid searches")
            t = c["i1"] - w[0][0]
            E.facts.append(And(sa == w[0][0], ea == w[0][1], sb == w[1][0], eb == w[1][1]))
            E.facts.append(And(S(0) == 0, Implies(t >= 0, S(t + 1) == S(t) + term(t))))
            return And(t >= 0, c["i2"] == sb + t, c["mu"] == S(t), Or(t == 0, And(sa + t <= ea, sb + t <= eb)))
        E.loops["*"] = {"inv": inv}
        fn = [f for f in E.P.by_q["IntegrateRadialElement"] if cls in str(f["q"]) + f["m"]][0]
        r = E.run(st, None, None, [la, power, lb], fn=fn)
        E.prove("no overlap: zero", Implies(xmin > xmax, r == 0))
        for v, d, at in found:
            E.prove("searches the ends of the overlap", Implies(xmin <= xmax, Or(d == xmin, d == xmax)))
        T_ = z3.If(ea - sa <= eb - sb, ea - sa, eb - sb)
        E.prove("overlap: twice the sum of the product with the power kernel over the common points",
                Implies(xmin <= xmax, r == rmul(R(2), S(z3.If(T_ >= 0, T_, z3.IntVal(0))))))
        E.prove("both grids are read from the first common point", Implies(xmin <= xmax, And(
            close(z3.Select(xa, sa), xmin, 2 * EPS), close(z3.Select(xb, sb), xmin, 2 * EPS),
            close(z3.Select(xa, ea), xmax, 2 * EPS), close(z3.Select(xb, eb), xmax, 2 * EPS))))
        E.prove("no exception", Not(st.mem["$exc"]))
        E.cover("overlap", xmin < xmax)


integral("Numerov")
integral("Whittaker")
