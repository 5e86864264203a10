"""C3 and C6."""
from driver import task
from vc import VOID
from values import *  # noqa: F401,F403
from sparse import *  # noqa: F401,F403
import stdmodel
from fractions import Fraction
import z3

LEVEL = "proof"
HARNESS = {"main": "s18.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp", "PerturbativeInteraction.cpp"], "n": (60, 1500), "flags": ["-D_GLIBCXX_ASSERTIONS"]}
RULE = "random pair states of Rb, Cs, Sr1, Sr3, angles and deltaN, compared with sums over all virtual pair states with the dipole-dipole interaction in Cartesian coordinates; and with the Hamiltonian of SystemTwo"
ASSUME = ["MatrixElementCache::getElectricDipole and the energies of the states are any functions of the quantum numbers (S04, S05, S07); the species determines the spin",
          "the states are physical (|l - s| <= j <= l + s, |m| <= j, l < n, spin at most 1), their momenta finite and exact",
          "matrices are cells reached by (row, column); Eigen's selfadjointView<Upper> mirrors the upper triangle",
          "sin^2 + cos^2 = 1 for std::sin and std::cos of one angle; real arithmetic for the terms of the sums"]
TU = ["PerturbativeInteraction.cpp", "State.cpp"]
PI = "PerturbativeInteraction"
R0, R1 = z3.RealVal(0), z3.RealVal(1)
QS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


@task("angle terms", TU, functions=["PerturbativeInteraction::initializeAngleTerms"])
def angle_terms(E):
    st = E.new_state()
    r = E.default(st, PI)
    r.f["array_angle_term"] = E.fresh("std::array<double, 9>", "garbage")
    this = E.alloc(st, r, "p")
    th = z3.Real("angle")
    c, s, w = z3.Reals("cosine sine half_root")
    E.contracts["std::cos"] = E.contracts["cos"] = lambda E, st, a: (E.prove("of the angle", a.val(0) == th, st), c)[1]
    E.contracts["std::sin"] = E.contracts["sin"] = lambda E, st, a: (E.prove("of the angle", a.val(0) == th, st), s)[1]
    E.assume(And(s * s + c * c == 1, Implies(th == 0, And(s == 0, c == 1)), w > 0, 2 * w * w == 1))
    E.run(st, PI + "::initializeAngleTerms", this, [th])
    v = E.read(st, this)
    q, t = v.f["array_q"], v.f["array_angle_term"]
    # Cartesian components of a unit of the spherical component q: x = (d_- - d_+)/sqrt2, y = i (d_+ + d_-)/sqrt2, z = d_0
    X, Y, Z = {1: -w, -1: w, 0: R0}, {1: w, -1: w, 0: R0}, {1: R0, -1: R0, 0: R1}
    elem = lambda k: (q.d.e[0][k], q.d.e[1][k])
    for a, b in QS:
        want = X[a] * X[b] - Y[a] * Y[b] + Z[a] * Z[b] - 3 * (s * X[a] + c * Z[a]) * (s * X[b] + c * Z[b])
        has = [And(k < q.n, elem(k)[0] == a, elem(k)[1] == b) for k in range(9)]
        listed = Or(*has)
        nm = "(%+d, %+d)" % (a, b)
        got = t.e[3 * (a + 1) + b + 1]
        E.prove("coefficient of the components %s of the dipoles" % nm, Implies(listed, got == want))
        E.prove("the components %s are listed unless they never matter" % nm, Implies(Not(listed), want == 0))
        E.prove("%s is listed once" % nm, And(*[Not(And(has[i], has[j])) for i in range(9) for j in range(i)]))
    E.prove("at most nine pairs of components; three without an angle", And(q.n >= 0, q.n <= 9, (q.n == 3) == (th == 0)))
    E.prove("all listed are components", And(*[Implies(k < q.n, And(*[And(x >= -1, x <= 1) for x in elem(k)])) for k in range(9)]))
    E.prove("nothing fails", Not(st.mem["$exc"]))


def leaves(s):
    return [s.f[k] for k in ("species", "n", "l", "j", "m")]


def lemma(E, name, goal, st=None):
    """proved, then used"""
    E.prove(name, goal, st)
    if not E.quiet:
        E.facts.append(goal if st is None else Implies(And(*st.pc, st.live()), goal))


class Setting:
    """a perturbation at some angle, uninterpreted dipole elements and energies; matrices as ghost cells"""

    def __init__(self, E, st):
        self.E = E
        con = E.contracts
        R, I = z3.RealSort(), z3.IntSort()
        sl = [x.sort() for x in leaves(E.fresh("StateOne", "x"))]
        self.D = z3.Function("dipole", *(sl + sl + [R]))
        self.En = z3.Function("pair_energy", *(sl + sl + [R]))
        self.K = None
        self.kc = z3.RealVal(str(Fraction(5142206707.0 * 5142206707.0 * 5.2917721067e-05 * 5.2917721067e-05 * 5.2917721067e-05 / 6579683.920757349)))
        r = E.fresh(PI, "p")
        self.At = z3.Array("angle_terms", I, R)
        r.f["array_angle_term"] = Vec("double", z3.IntVal(9), self.At)
        self.full = z3.Bool("with_angle")
        q = E.fresh("std::vector<std::array<int, 2>, std::allocator<std::array<int, 2>>>", "array_q")
        self.q = self.q9 = q
        r.f["array_q"] = q
        # proved in 'angle terms'
        E.assume(q.n == z3.If(self.full, 9, 3))
        x = lambda k: (q.d.e[0][k], q.d.e[1][k])
        for a, b in QS:
            E.assume(Implies(Or(self.full, z3.BoolVal(a + b == 0)), Or(*[And(k < q.n, x(k)[0] == a, x(k)[1] == b) for k in range(9)])))
        for i in range(9):
            a, b = x(i)
            E.assume(And(a >= -1, a <= 1, b >= -1, b <= 1, Or(self.full, a + b == 0)))
            for j in range(i):
                E.assume(Implies(And(i < q.n, j < q.n), Or(x(i)[0] != x(j)[0], x(i)[1] != x(j)[1])))
        self.qk = x
        r.f["cache"] = E.alloc(st, Opaque("MatrixElementCache"), "cache")
        self.this = E.alloc(st, r, "p")

        def val(st, v):
            return E.read(st, v) if isinstance(v, LV) else v

        def dip(E, st, a):
            f, i = val(st, a.val(0)), val(st, a.val(1))
            return self.D(*(leaves(f) + leaves(i)))
        con["MatrixElementCache::getElectricDipole"] = dip

        def energy(E, st, a):
            s = a.thisv_or_val()
            return self.energy(s)
        con["StateTwo::getEnergy"] = energy
        # matrices
        self.code = z3.Function("cell", I, I, I)
        self.r0, self.c0 = z3.Ints("any_row any_column")
        self.mats = []

        def zero(E, st, a):
            m = Vec("double", z3.Int("cells"), z3.K(I, R0))
            self.dims = (a.val(0), a.val(1)) if a.n == 2 else None
            return m

        def at(E, st, a):
            lv, i, j = a.this(), a.val(0), a.val(1)
            E.prove("entry of the matrix", And(i >= 0, j >= 0, i < self.dims[0], j < self.dims[1]), st)
            k = self.code(i, j)
            E.facts.append(Implies(k == self.code(self.r0, self.c0), And(i == self.r0, j == self.c0)))
            return lv.sub(("i", k))
        con["Eigen::DenseBase::Zero"] = zero
        con["Eigen::DenseCoeffsBase::operator()"] = con["Eigen::PlainObjectBase::operator()"] = con["Eigen::PlainObjectBase::coeffRef"] = at

        def view(E, st, a):
            self.view = a.e["t"]
            return a.thisv_or_val()
        con["Eigen::MatrixBase::selfadjointView"] = con["Eigen::DenseBase::selfadjointView"] = view
        for n in ("ctor:Eigen::Matrix", "Eigen::Matrix::Matrix"):
            con[n] = lambda E, st, a: a.val(0) if not isinstance(a.val(0), LV) else E.read(st, a.val(0))

    def energy(self, s):
        a, b = s.f["state_array"].e
        return self.En(*(leaves(a) + leaves(b)))

    def coef(self, a, b):
        return z3.Select(self.At, 3 * (a + 1) + (b + 1))

    def states(self, st, n="states"):
        E = self.E
        v = named(E, E.fresh("std::vector<StateTwo, std::allocator<StateTwo>>", n))
        i = z3.Int("i")
        for k in (0, 1):
            a = v.d.f["state_array"].e[k].f["n"]
            E.facts.append(forall([i], Implies(And(i >= 0, i < v.n), a[i] != 0), patterns=[a[i]]))
        E.facts.append(v.n < 2 ** 31 - 1)
        return v


def pick(v, i):
    return tmap(lambda x: z3.Select(x, i), v.d)


@task("C3", TU, functions=["PerturbativeInteraction::getC3"])
def c3(E):
    st = E.new_state()
    s = Setting(E, st)
    v = s.states(st)
    ls = E.alloc(st, v, "states")
    r0, c0 = s.r0, s.c0
    E.assume(And(r0 >= 0, r0 < c0, c0 < v.n))
    a, b = pick(v, r0), pick(v, c0)
    (a1, a2), (b1, b2) = a.f["state_array"].e, b.f["state_array"].e
    d1, d2 = z3.Ints("turns1 turns2")  # momenta differ by whole numbers if a dipole connects the states
    q0, q1 = z3.Ints("q0 q1")
    E.assume(And(a1.f["m"] - b1.f["m"] == z3.ToReal(q0), a2.f["m"] - b2.f["m"] == z3.ToReal(q1)))
    inside = And(q0 >= -1, q0 <= 1, q1 >= -1, q1 <= 1, Or(s.full, q0 + q1 == 0))
    want = z3.If(inside, s.kc * s.coef(q0, q1) * s.D(*(leaves(a1) + leaves(b1))) * s.D(*(leaves(a2) + leaves(b2))), R0)
    cell = s.code(r0, c0)

    def outer(c):
        return [c["idx_row"] >= 0, c["C3_matrix"].d[cell] == z3.If(c["idx_row"] > r0, want, R0)]

    def inner(c):
        i, j = c["idx_row"], c["idx_col"]
        return [j > i, c["C3_matrix"].d[cell] == z3.If(Or(i > r0, And(i == r0, j > c0)), want, R0)]
    E.loops[(PI + "::getC3", 0)], E.loops[(PI + "::getC3", 1)] = {"inv": outer}, {"inv": inner}
    m = E.run(st, PI + "::getC3", s.this, [ls])
    E.prove("the upper triangle is mirrored", "SelfAdjointView" in s.view and s.view.rstrip().endswith(", 2>"))
    E.prove("C3 is the dipole-dipole matrix element", m.d[cell] == want)


class Virtual(Setting):
    """the ghost sum over the virtual states the code evaluates, and how often it evaluates an arbitrary one"""

    def __init__(self, E, st):
        super().__init__(E, st)
        con = E.contracts
        self.n = z3.Ints("virtual_n0 virtual_n1")
        self.l = z3.Ints("virtual_l0 virtual_l1")
        self.j = z3.Reals("virtual_j0 virtual_j1")
        self.q = z3.Ints("virtual_q0 virtual_q1")
        con["utils::hash_combine"] = lambda E, st, a: VOID

        def species(E, st, a):
            this = a.this()
            E.write(st, this.sub(("f", "s")), E.fresh("float", "spin"))
            E.write(st, this.sub(("f", "element")), E.fresh("std::string", "element"))
            return VOID
        con["StateOne::analyzeSpecies"] = species

        def energy(E, st, a):
            v = a.thisv_or_val()
            self.visit(st, v)
            return self.energy(v)
        con["StateTwo::getEnergy"] = energy
        st.mem["ghost sum"], st.mem["ghost seen"] = R0, z3.IntVal(0)

    def physical(self, atoms):
        """states of atoms with total spin up to one"""
        r = []
        self.wit = []

        def W(x):
            self.wit.append(z3.FreshInt("whole"))
            return x == z3.ToReal(self.wit[-1])
        for a in atoms:
            n, l, j, m, s = (a.f[x] for x in "nljms")
            l = z3.ToReal(l)
            r += [n > 0, n < 10000, l >= 0, l < z3.ToReal(n), s >= 0, s <= 1, W(2 * s), j <= l + s, j >= l - s, j >= s - l,
                  W(j + s - l), m <= j, m >= -j, W(m - j)]
        return And(*r)

    def whole(self, x):
        return x == z3.ToReal(z3.ToInt(x))

    def atom(self, k, L, J, M, S, qf):
        """the dipole operator can take an atom with L, J, M to the virtual state, which exists"""
        n, l, j, q = self.n[k], self.l[k], self.j[k], self.q[k]
        lo = z3.ToReal(l) - S
        lo = z3.If(lo < 0, -lo, lo)
        m = M + z3.ToReal(q)
        return And(Or(l == L - 1, l == L + 1), l >= 0, l < n, self.fine(j, l, S, J), qf, m <= j, -m <= j)

    def fine(self, j, l, S, J):
        lo = z3.ToReal(l) - S
        lo = z3.If(lo < 0, -lo, lo)
        return And(j >= lo, j <= z3.ToReal(l) + S, self.whole(j - lo), j - J <= 1, J - j <= 1)


def first(v, i, x):
    """x is one of the first i elements"""
    return Or(*[And(k < i, k < v.n, v.d[k] == x) for k in range(2)])


@task("C6 of a state", TU, functions=["PerturbativeInteraction::getC6"])
def c6(E):
    st = E.new_state()
    s = Virtual(E, st)
    v = E.fresh("StateTwo", "state")
    a = v.f["state_array"].e
    ls = E.alloc(st, v, "state")
    dn = z3.Real("deltaN")
    L, J, M, S = [[x.f[y] for x in a] for y in "ljms"]
    N = [x.f["n"] for x in a]
    E.assume(And(dn >= 0, dn < 1000))
    E.assume(s.physical(a))
    Ev = s.energy(v)

    def visit(st, x):
        b = x.f["state_array"].e
        if x is v or b[0].f["n"] is a[0].f["n"]:
            return
        # q by the momenta
        q0, q1 = [z3.ToInt(b[k].f["m"] - M[k]) for k in (0, 1)]
        me = And(*[And(b[k].f["n"] == s.n[k], b[k].f["l"] == s.l[k], b[k].f["j"] == s.j[k], b[k].f["m"] == M[k] + z3.ToReal(s.q[k])) for k in (0, 1)])
        E.prove("the virtual states are of the species of the state", And(b[0].f["species"] == a[0].f["species"], b[1].f["species"] == a[1].f["species"]), st)
        amp = s.kc * s.coef(q0, q1) * s.D(*(leaves(b[0]) + leaves(a[0]))) * s.D(*(leaves(b[1]) + leaves(a[1])))
        st.mem["ghost sum"] = st.mem["ghost sum"] + amp * amp / (Ev - s.energy(x))
        st.mem["ghost seen"] = st.mem["ghost seen"] + z3.If(me, 1, 0)
    s.visit = visit

    one = lambda x: z3.If(x, 1, 0)
    inn = [And(z3.ToReal(s.n[k]) <= z3.ToReal(N[k]) + dn, s.n[k] >= lowest(N[k], dn)) for k in (0, 1)]
    inl = [And(Or(s.l[k] == L[k] - 1, s.l[k] == L[k] + 1), s.l[k] >= 0, s.l[k] < s.n[k]) for k in (0, 1)]
    inj = [s.fine(s.j[k], s.l[k], S[k], J[k]) for k in (0, 1)]
    inm = And(*[And(s.q[k] >= -1, s.q[k] <= 1, M[k] + z3.ToReal(s.q[k]) <= s.j[k], -M[k] - z3.ToReal(s.q[k]) <= s.j[k]) for k in (0, 1)])
    inq = And(inm, Or(s.full, s.q[0] + s.q[1] == 0))
    ok = And(*inn, *inl, *inj, inq)

    def now(c, *names):
        return And(*[c[x] == getattr(s, x[0])[int(x[1])] for x in names])

    def inv(f, also=None):
        """what the loop has added so far: the arbitrary virtual state once if f, and the same to C6 as to the ghost sum"""
        def g(c):
            r = [c["C6"] - c.pre.mem["ghost sum"] == c.st.mem["ghost sum"] - c.pre.mem["ghost sum"],
                 c.st.mem["ghost seen"] == c.pre.mem["ghost seen"] + one(f(c))]
            return r + (also(c) if also else [])
        return {"inv": g}

    def build(k):
        def g(c):
            j, l, x = c["j%d" % k], z3.ToReal(c["l%d" % k]), c["array_j%d" % k].dom
            lo = z3.If(l >= S[k], l - S[k], S[k] - l)
            v = s.j[k]
            return [s.whole(j - lo), j >= lo, z3.Select(x, v) == And(s.whole(v - lo), v >= lo, v < j, v <= l + S[k], v - J[k] < 2, J[k] - v < 2)]
        return {"inv": g}
    q = lambda c: And(now(c, "n0", "n1", "l0", "l1", "j0", "j1"), inm, Or(*[And(k < c.idx, k < s.q9.n, s.qk(k)[0] == s.q[0], s.qk(k)[1] == s.q[1]) for k in range(9)]))
    F_ = PI + "::getC6"
    E.loops[(F_, 0)] = inv(lambda c: And(s.n[0] < c["n0"], ok), lambda c: [c["n0"] >= lowest(N[0], dn)])
    E.loops[(F_, 1)] = inv(lambda c: And(now(c, "n0"), s.n[1] < c["n1"], inn[1], *inl, *inj, inq), lambda c: [c["n1"] >= lowest(N[1], dn)])
    E.loops[(F_, 2)] = inv(lambda c: And(now(c, "n0", "n1"), first(c["array_l0"], c.idx, s.l[0]), inl[1], *inj, inq), lambda c: [c.idx >= 0])
    E.loops[(F_, 3)] = inv(lambda c: And(now(c, "n0", "n1", "l0"), first(c["array_l1"], c.idx, s.l[1]), *inj, inq), lambda c: [c.idx >= 0])
    E.loops[(F_, 4)] = build(0)
    E.loops[(F_, 5)] = inv(lambda c: And(now(c, "n0", "n1", "l0", "l1"), z3.Select(c.idx.dom, s.j[0]), inj[1], inq))
    E.loops[(F_, 6)] = build(1)
    E.loops[(F_, 7)] = inv(lambda c: And(now(c, "n0", "n1", "l0", "l1", "j0"), z3.Select(c.idx.dom, s.j[1]), inq))
    E.loops[(F_, 8)] = inv(q, lambda c: [c.idx >= 0])
    r = E.run(st, F_, s.this, [ls, dn], ptypes=["const StateTwo &", "double"])
    E.prove("C6 is the sum over the virtual states", r == st.mem["ghost sum"])
    E.prove("the virtual states are those of the dipole-dipole interaction, each once", st.mem["ghost seen"] == one(ok))


def lowest(n, dn):
    """the smallest principal quantum number: n - deltaN, rounded towards zero"""
    x = z3.ToReal(n) - dn
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


@task("C6 matrix", TU, functions=["PerturbativeInteraction::getC6"])
def c6_matrix(E):
    E.split_inv = True
    st = E.new_state()
    s = Virtual(E, st)
    v = s.states(st)
    ls = E.alloc(st, v, "states")
    r0, c0 = s.r0, s.c0
    E.assume(And(r0 >= 0, r0 <= c0, c0 < v.n))
    dn = z3.Real("deltaN")
    E.assume(And(dn >= 0, dn < 1000))
    row, col = pick(v, r0), pick(v, c0)
    a, b = row.f["state_array"].e, col.f["state_array"].e
    g = lambda x, y: [p.f[y] for p in x]
    S = g(b, "s")
    wit = []
    for x in (a, b):
        E.assume(s.physical(x))
        wit.append(s.wit)
    M, Mr = g(b, "m"), g(a, "m")
    same = And(*[And(a[k].f["s"] == b[k].f["s"], a[k].f["species"] == b[k].f["species"]) for k in (0, 1)])
    # the momenta of the row and the column differ by whole numbers
    d = [wit[0][3 * k + 2] + wit[0][3 * k + 1] + a[k].f["l"] - wit[1][3 * k + 2] - wit[1][3 * k + 1] - b[k].f["l"] for k in (0, 1)]
    for k in (0, 1):
        lemma(E, "the momenta of atom %d differ by whole numbers" % (k + 1), Implies(same, Mr[k] - M[k] == z3.ToReal(d[k])))
    given = {}

    def visit(st, x):
        y = x.f["state_array"].e
        k = tuple(t.get_id() for z in y for t in leaves(z))
        at = And(E.read(st, E.lookup(st, st.names["idx_row"])) == r0, E.read(st, E.lookup(st, st.names["idx_col"])) == c0)
        own = v.d.f["state_array"].e[0].f["n"]
        if (k, E.quiet) in given or (z3.is_select(y[0].f["n"]) and y[0].f["n"].arg(0).eq(own)):
            return
        given[k, E.quiet] = 1
        here = [E.read(st, E.lookup(st, st.names[z])) for z in ("state_row", "state_col")]
        lr, lc = (z.f["state_array"].e for z in here)
        lemma(E, "of one species", Implies(at, same), st)
        lemma(E, "of the row and the column", Implies(at, And(*[p == q for k in (0, 1) for z, w in ((lr, a), (lc, b)) for p, q in zip(leaves(z[k]), leaves(w[k]))])), st)
        forth = [z3.simplify(z3.ToInt(z3.simplify(y[k].f["m"] - lc[k].f["m"]))) for k in (0, 1)]
        back = [E.real_to_int(lr[k].f["m"] - y[k].f["m"]) for k in (0, 1)]
        for k in (0, 1):
            lemma(E, "whole momenta are transferred", Implies(at, y[k].f["m"] == M[k] + z3.ToReal(forth[k])), st)
            lemma(E, "whole momenta are transferred back", Implies(at, lr[k].f["m"] - y[k].f["m"] == z3.ToReal(d[k] - forth[k])), st)
            lemma(E, "by the difference", Implies(at, back[k] == d[k] - forth[k]), st)
        me = And(*[And(y[k].f["n"] == s.n[k], y[k].f["l"] == s.l[k], y[k].f["j"] == s.j[k], y[k].f["m"] == M[k] + z3.ToReal(s.q[k])) for k in (0, 1)])
        E.prove("the virtual states are of the species of the states", Implies(at, And(*[y[k].f["species"] == a[k].f["species"] for k in (0, 1)])), st)
        Ev, Er, Ec = s.energy(x), s.energy(here[0]), s.energy(here[1])
        t = s.kc * s.coef(*back) * s.D(*(leaves(lr[0]) + leaves(y[0]))) * s.D(*(leaves(lr[1]) + leaves(y[1]))) \
            * s.kc * s.coef(*forth) * s.D(*(leaves(y[0]) + leaves(lc[0]))) * s.D(*(leaves(y[1]) + leaves(lc[1]))) \
            * z3.Q(1, 2) * (1 / (Er - Ev) + 1 / (Ec - Ev))
        st.mem["ghost sum"] = st.mem["ghost sum"] + z3.If(at, t, 0)
        st.mem["ghost seen"] = st.mem["ghost seen"] + z3.If(And(at, me), 1, 0)
    s.visit = visit
    E.keyviews = {"StateTwo": lambda x: Rec("StateTwo", {"%s%d" % (y, k): x.f["state_array"].e[k].f[y] for k in (0, 1) for y in ("species", "n", "l", "j", "m")})}

    def the_states(E, st, x):
        p, q = x.val(0), x.val(1)
        ok = all(isinstance(y, LV) and y.root == ls.root and len(y.path) == 1 for y in (p, q))
        E.prove("the set of all of the states", And(p.path[0][1] == 0, q.path[0][1] == v.n) if ok else F, st)
        return s.set
    E.set_of_range = the_states
    s.set = Set("StateTwo", z3.Array("the_states", E.keysort("StateTwo"), z3.BoolSort()))
    key = E.key("StateTwo", virtual_state(s, b, M))
    one = lambda x: z3.If(x, 1, 0)
    N = [a[k].f["n"] for k in (0, 1)], [b[k].f["n"] for k in (0, 1)]
    low = [z3.If(N[0][k] < N[1][k], N[0][k], N[1][k]) for k in (0, 1)]
    high = [z3.If(N[0][k] < N[1][k], N[1][k], N[0][k]) for k in (0, 1)]
    inn = [And(z3.ToReal(s.n[k]) <= z3.ToReal(high[k]) + dn, s.n[k] >= lowest(low[k], dn)) for k in (0, 1)]
    adj = lambda l, L: Or(l == L - 1, l == L + 1)
    inl = [And(adj(s.l[k], a[k].f["l"]), adj(s.l[k], b[k].f["l"]), s.l[k] >= 0, s.l[k] < s.n[k]) for k in (0, 1)]
    inj = [And(s.fine(s.j[k], s.l[k], S[k], a[k].f["j"]), s.fine(s.j[k], s.l[k], S[k], b[k].f["j"])) for k in (0, 1)]
    back = [d[k] - s.q[k] for k in (0, 1)]
    inm = And(*[And(s.q[k] >= -1, s.q[k] <= 1, M[k] + z3.ToReal(s.q[k]) <= s.j[k], -M[k] - z3.ToReal(s.q[k]) <= s.j[k], back[k] >= -1, back[k] <= 1) for k in (0, 1)])
    inm = And(inm, Or(s.full, back[0] + back[1] == 0), Not(z3.Select(s.set.dom, key)))
    inq = And(inm, Or(s.full, s.q[0] + s.q[1] == 0))
    ok = And(same, *inn, *inl, *inj, inq)

    def now(c, *names):
        return And(same, *[c[x] == (r0 if x == "idx_row" else c0 if x == "idx_col" else getattr(s, x[0])[int(x[1])]) for x in ("idx_row", "idx_col") + names])

    def inv(f, also=None):
        def g(c):
            at = now(c)
            d = c.st.mem["ghost sum"] - c.pre.mem["ghost sum"]
            C = lambda st: E.read(st, E.lookup(st, st.names["C6"]))
            r = [Implies(at, C(c.st) - C(c.pre) == d), Implies(Not(at), d == 0),
                 c.st.mem["ghost seen"] == c.pre.mem["ghost seen"] + one(And(at, f(c)))]
            return r + (also(c) if also else [])
        return {"inv": g}

    def build(k):
        def g(c):
            j, l, x = c["j%d" % k], z3.ToReal(c["l%d" % k]), c["array_j%d" % k].dom
            x0, x1 = (c[y].f["state_array"].e[k] for y in ("state_row", "state_col"))
            sp = x1.f["s"]
            lo = z3.If(l >= sp, l - sp, sp - l)
            v = s.j[k]
            near = And(*[And(v - y.f["j"] < 2, y.f["j"] - v < 2) for y in (x0, x1)])
            return [s.whole(j - lo), j >= lo, z3.Select(x, v) == And(s.whole(v - lo), v >= lo, v < j, v <= l + sp, near)]
        return {"inv": g}
    cell = s.code(r0, c0)

    def outer(c, done, seen):
        return [c["C6_matrix"].d[cell] == z3.If(done, c.st.mem["ghost sum"], R0), Implies(Not(done), c.st.mem["ghost sum"] == 0),
                c.st.mem["ghost seen"] == one(And(done, ok))]
    F_ = PI + "::getC6"
    i, j = "idx_row", "idx_col"
    E.loops[(F_, 0)] = {"inv": lambda c: [c[i] >= 0] + outer(c, c[i] > r0, 0)}
    E.loops[(F_, 1)] = {"inv": lambda c: [c[j] >= c[i]] + outer(c, Or(c[i] > r0, And(c[i] == r0, c[j] > c0)), 0)}
    E.loops[(F_, 2)] = inv(lambda c: And(s.n[0] < c["n0"], ok), lambda c: [c["n0"] >= lowest(c["n0_min"], dn)])
    E.loops[(F_, 3)] = inv(lambda c: And(now(c, "n0"), s.n[1] < c["n1"], inn[1], *inl, *inj, inq), lambda c: [c["n1"] >= lowest(c["n1_min"], dn)])
    E.loops[(F_, 4)] = inv(lambda c: And(now(c, "n0", "n1"), first(c["array_l0"], c.idx, s.l[0]), inl[1], *inj, inq), lambda c: [c.idx >= 0])
    E.loops[(F_, 5)] = inv(lambda c: And(now(c, "n0", "n1", "l0"), first(c["array_l1"], c.idx, s.l[1]), *inj, inq), lambda c: [c.idx >= 0])
    E.loops[(F_, 6)] = build(0)
    E.loops[(F_, 7)] = inv(lambda c: And(now(c, "n0", "n1", "l0", "l1"), z3.Select(c.idx.dom, s.j[0]), inj[1], inq))
    E.loops[(F_, 8)] = build(1)
    E.loops[(F_, 9)] = inv(lambda c: And(now(c, "n0", "n1", "l0", "l1", "j0"), z3.Select(c.idx.dom, s.j[1]), inq))
    E.loops[(F_, 10)] = inv(lambda c: And(now(c, "n0", "n1", "l0", "l1", "j0", "j1"), inm, Or(*[And(k < c.idx, k < s.q9.n, s.qk(k)[0] == s.q[0], s.qk(k)[1] == s.q[1]) for k in range(9)])),
                            lambda c: [c.idx >= 0])
    m = E.run(st, F_, s.this, [ls, dn], ptypes=["const std::vector<StateTwo", "double"])
    E.prove("the upper triangle is mirrored", "SelfAdjointView" in s.view and s.view.rstrip().endswith(", 2>"))
    E.prove("C6 is the sum over the virtual states", m.d[cell] == st.mem["ghost sum"])
    E.prove("the virtual states are those of the dipole-dipole interaction not in the list, each once", st.mem["ghost seen"] == one(ok))


def virtual_state(s, like, M):
    at = [Rec("StateOne", dict(like[k].f, n=s.n[k], l=s.l[k], j=s.j[k], m=M[k] + z3.ToReal(s.q[k]))) for k in (0, 1)]
    return Rec("StateTwo", {"state_array": Arr(at)})


@task("energies", TU, functions=["PerturbativeInteraction::getEnergy"])
def energies(E):
    st = E.new_state()
    s = Setting(E, st)
    v = s.states(st)
    ls = E.alloc(st, v, "states")
    r0, c0 = s.r0, s.c0
    E.assume(And(r0 >= 0, r0 < v.n, c0 >= 0, c0 < v.n))
    cell = s.code(r0, c0)
    E.loops[PI + "::getEnergy"] = {"inv": lambda c: [c["idx"] >= 0, c["energies_matrix"].d[cell] == z3.If(And(r0 == c0, c["idx"] > r0), s.energy(pick(v, r0)), R0)]}
    m = E.run(st, PI + "::getEnergy", s.this, [ls])
    E.prove("the energies of the states on the diagonal, zero elsewhere", m.d[cell] == z3.If(r0 == c0, s.energy(pick(v, r0)), R0))
