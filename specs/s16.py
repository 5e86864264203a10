"""The interaction of two atoms."""
from driver import task
from values import *  # noqa: F401,F403
from sparse import *  # noqa: F401,F403
import stdmodel
import z3

LEVEL = "proof"
HARNESS = {"main": "s16.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (150, 4000), "flags": []}
RULE = "random pairs of atoms, geometries, orders and surfaces, compared with the Coulomb energy expanded in Cartesian coordinates"
ASSUME = ["entries are real numbers, not doubles; std::pow is a positive function of a positive base; distances are positive",
          "Eigen's sums and products with numbers do what they document; the system passed to incorporate is a SystemTwo; which momenta a combined system has is not claimed",
          "initializeInteraction is under contract without the Green tensor: the matrix elements of S04 and the binomial coefficients are functions of their arguments, states that a rule of S03 connects differ in momentum by at most its order, a matrix made from a list of triplets has their sums as entries, the list of states numbers them by position; with the Green tensor it is exercised by the bounded search only"]
TU = "SystemTwo.cpp"
CL = ["SystemTwo<%s>" % t for t in ("std::complex<double>", "double")]
MAXD = z3.Real("realmax_double")
KINDS = ("angulardipole", "multipole", "greentensor_dd", "greentensor_dq", "greentensor_qd")
PARS = ("distance", "distance_x", "distance_y", "distance_z", "GTbool", "surface_distance", "ordermax", "minimal_le_roy_radius")


def base(cl):
    return "SystemBase<%s, StateTwo>" % cl[10:-1]


def each(name, fns, tus=(TU,)):
    def deco(f):
        for cl in CL:
            def g(E, cl=cl):
                f(E, cl)
            task("%s of %s" % (name, cl), list(tus), functions=fns)(g)
        return f
    return deco


def sqrt(E):
    def f(E, st, a):
        v = toreal(a.val(0))
        x = z3.Real(fresh_name("sqrt"))
        E.facts += [x >= 0, x * x == v]
        return x
    E.contracts["std::sqrt"] = E.contracts["sqrt"] = f


def c(re, im=ZERO):
    return Cx(re, im)


# ---------------------------------------------------------------- parameters

def run_setter(E, cl, fn, args, ptypes=None):
    st = E.new_state()
    r = E.fresh(cl, "s")
    E.facts.append(MAXD > 0)
    r.f["$changed"] = F
    this = E.alloc(st, r, "s")
    old = dict(r.f)
    E.contracts[base(cl) + "::onParameterChange"] = lambda E, st, a: E.write(st, this.sub(("f", "$changed")), T)
    E.run(st, cl + "::" + fn, this, args, **({"ptypes": ptypes} if ptypes else {}))
    s = E.read(st, this)
    return old, s, st.mem["$exc"]


def keeps(E, fn, old, s, x, but):
    E.prove(fn + " keeps everything else", And(*[teq(s.f[k], old[k]) for k in PARS if k not in but]))
    E.prove(fn + " marks the Hamiltonian as outdated", Implies(Not(x), s.f["$changed"]))
    E.prove(fn + ": a refused value leaves no trace", Implies(x, And(*[teq(s.f[k], old[k]) for k in PARS])))


@each("geometry", ["SystemTwo::setDistance", "SystemTwo::setDistanceVector", "SystemTwo::setAngle", "SystemTwo::enableGreenTensor"])
def geometry(E, cl):
    sqrt(E)
    sin, cos = z3.Reals("sin cos")
    E.contracts["std::sin"] = E.contracts["sin"] = lambda E, st, a: (E.prove("angle", a.val(0) == z3.Real("angle"), st), sin)[1]
    E.contracts["std::cos"] = E.contracts["cos"] = lambda E, st, a: (E.prove("angle", a.val(0) == z3.Real("angle"), st), cos)[1]
    xyz = ("distance_x", "distance_y", "distance_z")
    d = [z3.Real("d" + i) for i in "xyz"]
    old, s, x = run_setter(E, cl, "setDistanceVector", [Arr(d)], ["array"])
    E.prove("setDistanceVector stores the vector", And(Not(x), *[s.f[k] == v for k, v in zip(xyz, d)]))
    E.prove("and its length", And(s.f["distance"] >= 0, s.f["distance"] * s.f["distance"] == d[0] * d[0] + d[1] * d[1] + d[2] * d[2]))
    E.prove("a component along y needs the Green tensor", s.f["GTbool"] == Or(old["GTbool"], d[1] != 0))
    keeps(E, "setDistanceVector", old, s, x, xyz + ("distance", "GTbool"))
    new = z3.Real("new")
    old, s, x = run_setter(E, cl, "setDistance", [new])
    E.prove("setDistance stores the distance", And(Not(x), s.f["distance"] == new))
    E.prove("setDistance keeps the direction", Implies(old["distance"] > 0, And(*[s.f[k] * old["distance"] == old[k] * new for k in xyz])))
    keeps(E, "setDistance", old, s, x, xyz + ("distance",))
    old, s, x = run_setter(E, cl, "setAngle", [z3.Real("angle")])
    E.prove("setAngle: the axis is in the xz-plane", And(Not(x), s.f["distance_x"] == old["distance"] * sin, s.f["distance_y"] == 0, s.f["distance_z"] == old["distance"] * cos))
    keeps(E, "setAngle", old, s, x, xyz)


@each("parameters", ["SystemTwo::setOrder", "SystemTwo::setSurfaceDistance", "SystemTwo::enableGreenTensor"])
def parameters(E, cl):
    o = z3.Int("order")
    E.assume(And(o >= 0, o < 2 ** 31))
    old, s, x = run_setter(E, cl, "setOrder", [toreal(o)])
    E.prove("setOrder stores the order", And(Not(x), s.f["ordermax"] == o))
    keeps(E, "setOrder", old, s, x, ("ordermax",))
    d = z3.Real("surface")
    old, s, x = run_setter(E, cl, "setSurfaceDistance", [d])
    E.prove("setSurfaceDistance stores the distance", And(Not(x), s.f["surface_distance"] == d))
    E.prove("a surface needs the Green tensor", s.f["GTbool"] == Or(old["GTbool"], d != MAXD))
    keeps(E, "setSurfaceDistance", old, s, x, ("surface_distance", "GTbool"))
    b = z3.Bool("green")
    old, s, x = run_setter(E, cl, "enableGreenTensor", [b])
    E.prove("the Green tensor cannot be disabled in front of a surface", x == And(Not(b), old["surface_distance"] != MAXD))
    E.prove("enableGreenTensor stores the choice", Implies(Not(x), s.f["GTbool"] == b))
    keeps(E, "enableGreenTensor", old, s, x, ("GTbool",))


@each("incorporate", ["SystemTwo::incorporate", "SystemTwo::deleteInteraction"])
def incorporate(E, cl):
    st = E.new_state()
    r, o = E.fresh(cl, "s"), E.fresh(cl, "o")
    this, other = E.alloc(st, r, "s"), E.alloc(st, o, "o")
    E.dynamic_ok = True

    def any_set(E, st, a):
        E.write(st, a.this(), E.fresh_like(E.read(st, a.this())))
    E.contracts["std::set::insert"] = E.contracts["std::set::operator="] = any_set
    E.contracts["std::equal"] = lambda E, st, a: z3.Bool("same_momenta")
    for k in KINDS:
        r.f["$gone_" + k] = F
    E.contracts["std::unordered_map::clear"] = lambda E, st, a: E.write(st, this.sub(("f", "$gone_" + a.this().path[-1][1][len("interaction_"):])), T)
    E.run(st, cl + "::incorporate", this, [other])
    x = st.mem["$exc"]
    same = And(*[teq(r.f[k], o.f[k]) for k in ("species", "distance_x", "distance_y", "distance_z", "ordermax", "GTbool", "surface_distance")])
    E.prove("systems are combined exactly if species, geometry, order, Green tensor and surface are the same", x == Not(same))
    s = E.read(st, this)
    for k in KINDS:
        E.prove("interactions of the smaller basis are dropped: " + k, Implies(Not(x), s.f["$gone_" + k]))
    for k in ("permutation", "inversion", "reflection"):
        p, q = r.f["sym_" + k], o.f["sym_" + k]
        E.prove("a symmetry the systems do not share is given up: " + k, Implies(Not(x), s.f["sym_" + k] == ite(p == q, p, z3.IntVal(2 ** 31 - 1))))
    E.prove("geometry is kept", And(*[teq(s.f[k], r.f[k]) for k in PARS + ("species",)]))


# ---------------------------------------------------------------- the Hamiltonian from the interactions

def at(m, k):
    return tmap(lambda a: z3.Select(a, k), m.val)


def gated(k, k0):
    """the matrix with key k: V if the key is k0, else something else"""
    e = ite(k == k0, ONE, ZERO)
    return mat_add(mat_atom("V", c(e)), mat_atom("other", c(1 - e)))


def coeff(h, n):
    return h.t.get(((n, False),), c(ZERO))


@each("addInteraction", ["SystemTwo::addInteraction"])
def add_interaction(E, cl):
    """the coefficient of one stored matrix, of an arbitrary kind k and key k0"""
    st = E.new_state()
    r = E.fresh(cl, "s")
    k0 = z3.Int("k0")
    kind = z3.Int("kind")
    E.assume(And(kind >= 0, kind < 5))
    r.f["hamiltonian"] = mat_atom("H0")
    E.assume(And(r.f["ordermax"] >= 0, r.f["ordermax"] < 2 ** 32 - 1))
    this = E.alloc(st, r, "s")
    old = stdmodel.HANDLERS["std::unordered_map::operator[]"]

    def sub(E, st, a):
        lv = a.this()
        n = lv.path[-1][1] if lv.path and lv.path[-1][0] == "f" else ""
        if n.startswith("interaction_"):
            v = a.val(0)
            v = E.read(st, v) if isinstance(v, LV) else v
            return E.alloc(st, gated(ite(kind == KINDS.index(n[len("interaction_"):]), v, k0 + 1), k0))
        return old(E, st, a)
    E.contracts["std::unordered_map::operator[]"] = E.contracts["std::unordered_map::at"] = sub
    p = z3.Function("power", z3.RealSort(), z3.IntSort(), z3.RealSort())
    E.contracts["std::pow"] = E.contracts["pow"] = lambda E, st, a: p(toreal(a.val(0)), a.val(1))
    x, q = z3.Real("x"), z3.Int("q")
    E.facts.append(z3.ForAll([x, q], Implies(x > 0, p(x, q) > 0), patterns=[p(x, q)]))
    d, om, z = r.f["distance"], r.f["ordermax"], r.f["distance_z"]
    E.assume(d > 0)
    E.mat_span = [(("V", False),), (("other", False),)]
    terms = [r.f["angle_terms"]] + [None] + [r.f["greentensor_terms_" + k] for k in ("dd", "dq", "qd")]

    def has(m):
        return z3.Select(m.dom, k0)

    def val(m):
        return at(m, k0)

    def inv(cc):
        h = E.read(cc.st, this).f["hamiltonian"]
        v = coeff(h, "V")
        free = ((("V", False),), (("other", False),))
        o = E.read(cc.pre, this).f["hamiltonian"]
        out = [v.im == 0] + [teq(h.t.get(m, c(ZERO)), o.t.get(m, c(ZERO))) for m in set(h.t) | set(o.t) if m not in free]
        b = coeff(o, "V").re
        if cc.rng is None:
            n = cc["order"]
            out += [n >= 3, n <= ite(om >= 3, om + 1, z3.IntVal(3)),
                    v.re == ite(And(kind == 1, k0 >= 3, k0 < n), ite(And(z < 0, k0 % 2 == 0), -ONE, ONE) / p(d, k0), ZERO)]
        else:
            name = cc.rng.path[-1][1]
            i = {"angle_terms": 0, "greentensor_terms_dd": 2, "greentensor_terms_dq": 3, "greentensor_terms_qd": 4}[name]
            m = terms[i]
            f = 1 / p(d, z3.IntVal(3)) if i == 0 else ONE
            out += [v.re == b + ite(And(kind == i, z3.Select(cc.idx.dom, k0)), val(m) * f, ZERO)]
        return out
    E.loops["*"] = {"inv": inv}
    E.run(st, cl + "::addInteraction", this, [])
    h = E.read(st, this).f["hamiltonian"]
    E.prove("it does not fail", Not(st.mem["$exc"]))
    E.prove("H0", teq(coeff(h, "H0"), c(ONE)))
    v = coeff(h, "V")
    E.prove("real factors", v.im == 0)
    none = d == MAXD
    gt = r.f["GTbool"]
    for i, k in enumerate(KINDS):
        if k == "multipole":
            w = ite(And(Not(none), Not(gt), r.f["distance_x"] == 0, k0 >= 3, k0 <= om), ite(And(z < 0, k0 % 2 == 0), -ONE, ONE) / p(d, k0), ZERO)
            what = "the interaction of order n, divided by distance^n, with the sign of the direction to the power n+1, for every n"
        elif k == "angulardipole":
            w = ite(And(Not(none), Not(gt), r.f["distance_x"] != 0, has(terms[0])), val(terms[0]) / p(d, z3.IntVal(3)), ZERO)
            what = "every angular term with its dipole operators, divided by distance^3"
        else:
            w = ite(And(Not(none), gt, has(terms[i])), val(terms[i]), ZERO)
            what = "every component of the Green tensor with its operator: " + k[-2:]
        E.prove(what, Implies(kind == i, v.re == w))
    E.prove("nothing else is added", And(*[teq(x, c(ZERO)) for m, x in h.t.items() if m not in ((("H0", False),), (("V", False),), (("other", False),))]))


@each("transformInteraction", ["SystemTwo::transformInteraction"])
def transform_interaction(E, cl):
    from s15 import transform
    transform(E, cl, ["interaction_" + k for k in KINDS])


@each("addTriplet", ["SystemTwo::addTriplet"])
def add_triplet(E, cl):
    import s15
    for of in sorted({"double", cl[10:-1]}):
        s15.add_triplet_of(E, cl, of)


@each("deleteInteraction", ["SystemTwo::deleteInteraction"])
def delete_interaction(E, cl):
    import s15
    s15.delete(E, cl, ["interaction_" + k for k in KINDS])


@each("initializeInteraction without Green tensor", ["SystemTwo::initializeInteraction"], tus=(TU, "State.cpp"))
def init_interaction(E, cl):
    """one arbitrary entry (row, column) of one arbitrary operator: the triplets made for it add up to the matrix element the operator
    has there, and the operator stored is the mirrored lower half, brought into the basis. The approach with the Green tensor is searched."""
    import matsort as ms
    from s15 import consts, keeps_only
    from s17 import states_vec, install_states, named
    st = E.new_state()
    ms.install(E)
    con = E.contracts
    E.multi_index = True
    r = E.fresh(cl, "s")
    install_states(E)
    S = states_vec(E, st, "StateTwo")
    i = z3.Int("i")
    S.d.f["idx"] = z3.Lambda([i], i)
    S.d.f["state"] = named(E, Vec("x", S.n, S.d.f["state"])).d
    r.f["states"] = S
    B = r.f["basisvectors"] = z3.Const("B", ms.M)
    KN = ("angulardipole", "multipole")
    old = {k: ms.maps(E, r, "interaction_" + k) for k in KN}
    r.f["m_cache"] = E.alloc(st, Opaque("MatrixElementCache"), "cache")
    r.f["GTbool"] = F
    E.assume(And(r.f["ordermax"] >= 0, r.f["ordermax"] < 2 ** 31 - 1))
    this = E.alloc(st, r, "s")
    n = S.n
    E.assume(n < 2 ** 31 - 1)
    ka, kq, r0, c0 = z3.Ints("any_pair any_order any_row any_column")
    E.assume(And(kq >= 3, r0 >= 0, r0 < n, c0 >= 0, c0 < n))
    K = {"angulardipole": ka, "multipole": kq}
    at_ = lambda p: tmap(lambda x: z3.Select(x, p), S.d.f["state"])
    sr, sc = at_(r0), at_(c0)
    one = lambda s, q: tmap(lambda x: x, s.f["state_array"].e[q])
    lv = lambda s: [s.f[k] for k in ("species", "n", "l", "j", "m")]
    I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    sl = [x.sort() for x in lv(one(sr, 0))]
    fn = lambda nm, *more: z3.Function(nm, *(sl + sl + list(more)))
    De, Dm, rule = fn("electric_dipole", R_), fn("multipole", I_, R_), fn("multipole_rule", I_, B_)
    val = lambda st, v: E.read(st, v) if isinstance(v, LV) else v
    two = lambda st, a: lv(val(st, a.val(0))) + lv(val(st, a.val(1)))

    def selection(E, st, a):
        if a.n != 3:
            raise Unsupported("selectionRulesMultipoleNew")
        return allowed(val(st, a.val(0)), val(st, a.val(1)), a.val(2))

    def allowed(x, y, k):  # S03: the momenta differ by no more than the order
        d = x.f["m"] - y.f["m"]
        return And(rule(*lv(x), *lv(y), k), d <= toreal(k), -d <= toreal(k))
    con["selectionRulesMultipoleNew"] = selection
    C = "MatrixElementCache::"
    con[C + "getElectricDipole"] = lambda E, st, a: De(*two(st, a))
    con[C + "getElectricMultipole"] = lambda E, st, a: Dm(*two(st, a), a.val(2))
    con[C + "precalculateMultipole"] = lambda E, st, a: None  # S05: changes no value
    con[cl + "::checkDistance"] = lambda E, st, a: None  # a warning; the radius itself is under contract
    for x in ("First", "Second"):
        con[cl + "::getStates" + x] = lambda E, st, a: Opaque("states")
    sq, binom = z3.Function("root", R_, R_), z3.Function("binomial", R_, R_, R_)
    sin, cos, atan2 = z3.Function("sine", R_, R_), z3.Function("cosine", R_, R_), z3.Function("arctangent2", R_, R_, R_)
    fun1 = lambda f: lambda E, st, a: f(toreal(val(st, a.val(0))))
    con["std::sqrt"] = con["sqrt"] = lambda E, st, a: z3.Real("sqrt2") if z3.is_true(z3.simplify(toreal(val(st, a.val(0))) == 2)) else sq(toreal(val(st, a.val(0))))
    E.assume(And(z3.Real("sqrt2") * z3.Real("sqrt2") == 2, z3.Real("sqrt2") > 0))
    con["boost::math::binomial_coefficient"] = lambda E, st, a: binom(toreal(val(st, a.val(0))), toreal(val(st, a.val(1))))
    con["std::sin"] = con["sin"] = fun1(sin)
    con["std::cos"] = con["cos"] = fun1(cos)
    con["std::atan2"] = con["atan2"] = lambda E, st, a: atan2(toreal(val(st, a.val(0))), toreal(val(st, a.val(1))))
    sgn = lambda k: z3.If(k % 2 == 0, ONE, -ONE)

    def power(E, st, a):
        x, y = toreal(val(st, a.val(0))), val(st, a.val(1))
        if z3.is_true(z3.simplify(x == -1)):
            return sgn(y)
        if z3.is_true(z3.simplify(toreal(y) == 2)):
            return x * x
        raise Unsupported("power")
    con["std::pow"] = con["pow"] = power

    GH = {k: "ghost " + k for k in KN}
    for k in KN:
        st.mem[GH[k]] = ZERO
    made = {k: z3.Function("matrix_of_" + k, I_, ms.M) for k in KN}
    sized = z3.Function("empty_matrix", I_, I_, ms.M)
    oldsub = stdmodel.HANDLERS["std::unordered_map::operator[]"]

    def sub(E, st, a):
        l = a.this()
        nm = l.root if not l.path else ""
        for k in KN:
            if ("interaction_%s_triplets" % k) in nm:
                return E.alloc(st, Rec("list:" + k, {"key": val(st, a.val(0))}), "list")
        if l.path and l.path[-1][0] == "f" and str(l.path[-1][1]).startswith("interaction_"):
            m = E.read(st, l)
            k = E.key(m.kt, val(st, a.val(0)))
            E.write(st, l, Map(m.kt, m.vt, z3.Store(m.dom, k, T), m.val))
            return l.sub(("k", k))
        return oldsub(E, st, a)
    con["std::unordered_map::operator[]"] = sub
    is_list = lambda v: isinstance(v, Rec) and v.type.startswith("list:")

    def add(E, st, a):
        v = val(st, a.val(0))
        if not is_list(v):
            raise Unsupported("addTriplet")
        kind = v.type[5:]
        hit = And(v.f["key"] == K[kind], a.val(1) == r0, a.val(2) == c0)
        E.prove("an entry of the matrix", And(a.val(1) >= 0, a.val(1) < n, a.val(2) >= 0, a.val(2) < n), st)
        st.mem[GH[kind]] = st.mem[GH[kind]] + z3.If(hit, toreal(val(st, a.val(3))), ZERO)
    con[cl + "::addTriplet"] = con["SystemTwo::addTriplet"] = add
    for nm in ("begin", "end", "cbegin", "cend"):
        h = stdmodel.HANDLERS["std::vector::" + nm]
        con["std::vector::" + nm] = lambda E, st, a, h=h: E.read(st, a.this()) if is_list(E.read(st, a.this())) else h(E, st, a)
    for nm in ("clear", "reserve", "shrink_to_fit"):
        h = stdmodel.HANDLERS["std::vector::" + nm]
        con["std::vector::" + nm] = lambda E, st, a, h=h: None if is_list(E.read(st, a.this())) else h(E, st, a)

    def sft(E, st, a):
        x, y = val(st, a.val(0)), val(st, a.val(1))
        if not (is_list(x) and is_list(y) and x.type == y.type):
            raise Unsupported("setFromTriplets")
        E.prove("the list of one key, as a whole", x.f["key"] == y.f["key"], st)
        E.prove("the matrix has the size of the list of states", E.read(st, a.this()) == sized(n, n), st)
        E.write(st, a.this(), made[x.type[5:]](x.f["key"]))
    con["Eigen::SparseMatrix::setFromTriplets"] = sft
    con["Eigen::SparseMatrix::resize"] = lambda E, st, a: E.write(st, a.this(), sized(a.val(0), a.val(1)))

    f = r.f
    E.assume(And(f["distance"] <= MAXD, f["surface_distance"] <= MAXD, MAXD > 0))
    off = f["distance"] == MAXD
    x0 = f["distance_x"] != 0
    gt = Or(f["distance_y"] != 0, f["surface_distance"] != MAXD, And(x0, f["ordermax"] > 3))
    on = And(Not(off), Not(gt), f["ordermax"] >= 3)
    phi = atan2(f["distance_x"], f["distance_z"])
    s, c_ = sin(phi), cos(phi)
    tol = R(Fraction(1e-16))
    w2 = z3.Real("sqrt2")
    term = {4: 1 - 3 * c_ * c_, 2: -1 + z3.Q(3, 2) * s * s, 5: 3 / w2 * s * c_, 1: -3 / w2 * s * c_, 8: -z3.Q(3, 2) * s * s, 0: -z3.Q(3, 2) * s * s}
    big = lambda v: Or(v > tol, -v > tol)
    has = lambda m, k: z3.Select(m.dom, k)
    aneed = lambda k: And(on, x0, Not(has(old["angulardipole"], k)), Or(*[And(k == q, big(v)) for q, v in term.items()]))
    qneed = lambda k: And(on, Not(x0), k >= 3, k <= f["ordermax"], Not(has(old["multipole"], k)))
    cnt = z3.Function("orders_before", I_, I_)
    E.facts.append(cnt(3) == 0)
    miss = lambda k: Not(has(old["multipole"], k))
    L = cl + "::initializeInteraction"
    lp = E.loops

    def setkeys(c):  # the keys asked for among those visited
        z, vis = c["interaction_angulardipole_keys"], c.idx.dom
        t = E.read(c.st, this).f["angle_terms"]
        return [z3.Select(z.dom, ka) == And(z3.Select(vis, ka), miss_a(ka)), Implies(z3.Select(vis, ka), has(t, ka))]
    miss_a = lambda k: Not(has(old["angulardipole"], k))
    lp[(L, 1)] = {"inv": setkeys}

    def orders(v, upto):
        q = z3.Int("q")
        return [v.n == cnt(upto), v.n >= 0, Implies(And(kq < upto, miss(kq)), And(cnt(kq) >= 0, cnt(kq) < v.n, v.d[cnt(kq)] == kq)),
                forall([q], Implies(And(q >= 0, q < v.n), And(v.d[q] >= 3, v.d[q] < upto, Implies(v.d[q] == kq, And(q == cnt(kq), miss(kq))))), patterns=[v.d[q]])]

    def l6(c):
        o = c["order"]
        E.facts.append(cnt(o + 1) == cnt(o) + z3.If(miss(o), 1, 0))
        return [o >= 3, o <= z3.If(f["ordermax"] >= 3, f["ordermax"] + 1, 3)] + orders(c["interaction_multipole_keys"], o)
    lp[(L, 0)] = {"inv": l6}
    lp[(L, 7)] = {"inv": lambda c: [c["kappa"] >= 1]}

    a1, c1, a2, c2 = one(sr, 0), one(sc, 0), one(sr, 1), one(sc, 1)
    cut = lambda x: z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    q1, q2 = cut(a1.f["m"] - c1.f["m"]), cut(a2.f["m"] - c2.f["m"])
    ll1, ll2 = lv(a1) + lv(c1), lv(a2) + lv(c2)
    cc = consts("coulombs_constant")
    art = Or(*[x.f["n"] == 0 for x in (a1, c1, a2, c2)])
    lower = r0 >= c0
    pair = z3.If(q1 < q2, 3 * (q1 + 1) + q2 + 1, 3 * (q2 + 1) + q1 + 1)
    part = z3.Function("sum_of_multipoles", I_, R_)  # the first multipoles of the first atom

    def summand(k):
        m = kq - 1 - k
        return z3.If(And(allowed(a1, c1, k), allowed(a2, c2, m)), cc * sgn(m) * sq(binom(toreal(k + m), toreal(k + q1)) * binom(toreal(k + m), toreal(m - q2))) * Dm(*ll1, k) * Dm(*ll2, m), ZERO)
    E.facts.append(part(1) == 0)
    want = {"angulardipole": z3.If(And(allowed(a1, c1, z3.IntVal(1)), allowed(a2, c2, z3.IntVal(1)), pair == ka), cc * De(*ll1) * De(*ll2), ZERO),
            "multipole": z3.If(q1 + q2 == 0, part(kq - 1), ZERO)}

    def asked(c, kind):
        if kind == "angulardipole":
            return z3.Select(c["interaction_angulardipole_keys"].dom, ka)
        v = c["interaction_multipole_keys"]
        return And(cnt(kq) >= 0, cnt(kq) < v.n, v.d[cnt(kq)] == kq)
    full = {k: z3.If(Or(art, Not(lower)), ZERO, w) for k, w in want.items()}

    def sums(c, done):
        return [c.st.mem[GH[k]] == z3.If(And(done, asked(c, k)), full[k], ZERO) for k in KN]
    lp[(L, 8)] = {"inv": lambda c: [c.idx >= 0, c.idx <= n] + sums(c, c0 < c.idx)}
    lp[(L, 9)] = {"inv": lambda c: [c.idx >= 0, c.idx <= n] + sums(c, Or(c0 < c["c"].f["idx"], And(c0 == c["c"].f["idx"], r0 < c.idx)))}
    here = lambda c: And(c["c"].f["idx"] == c0, c["r"].f["idx"] == r0)

    def l13(c):
        v = c["interaction_multipole_keys"]
        seen = And(cnt(kq) >= 0, cnt(kq) < c.idx, cnt(kq) < v.n, v.d[cnt(kq)] == kq)
        return [c.idx >= 0, c.idx <= v.n, c.st.mem[GH["multipole"]] == c.pre.mem[GH["multipole"]] + z3.If(And(here(c), seen), part(kq - 1), ZERO)]
    lp[(L, 13)] = {"inv": l13}

    def l14(c):
        k, o = c["kappa1"], c["order"]
        E.facts.append(part(k + 1) == part(k) + summand(k))
        return [k >= 1, k <= o - 1, Implies(And(here(c), o == kq), c["val"] == part(k))]
    lp[(L, 14)] = {"inv": l14}

    def stored(kind, m, done):
        k, o = K[kind], old[kind]
        b = ms.mul(ms.mul(ms.adj(B), ms.mirror(made[kind](k))), B)
        return [has(m, k) == Or(has(o, k), done), z3.Select(m.val, k) == z3.If(done, b, z3.Select(o.val, k))]
    lp[(L, 18)] = {"inv": lambda c: stored("angulardipole", E.read(c.st, this).f["interaction_angulardipole"], z3.Select(c.idx.dom, ka))}

    def l19(c):
        v = c["interaction_multipole_keys"]
        seen = And(cnt(kq) >= 0, cnt(kq) < c.idx, cnt(kq) < v.n, v.d[cnt(kq)] == kq)
        return [c.idx >= 0, c.idx <= v.n] + stored("multipole", E.read(c.st, this).f["interaction_multipole"], seen)
    lp[(L, 19)] = {"inv": l19}
    E.run(st, L, this, [])
    z = E.read(st, this)
    E.prove("refused: directions and surfaces that need the Green tensor", st.mem["$exc"] == And(Not(off), gt))
    ok = Not(st.mem["$exc"])
    need = {"angulardipole": aneed(ka), "multipole": qneed(kq)}
    for k in KN:
        E.prove(k + ": an operator is made if its coefficient counts and it is missing, mirrored and brought into the basis; the others are kept",
                Implies(ok, And(*stored(k, z.f["interaction_" + k], need[k]))))
        E.prove(k + ": the entry is the matrix element", Implies(And(ok, need[k]), st.mem[GH[k]] == full[k]))
    E.prove("nothing else changes", keeps_only(E, r, z, ["states", "m_cache", "angle_terms"] + [x for x in r.f if x.startswith(("interaction_", "greentensor_"))]))
    t = z.f["angle_terms"]
    kk = z3.Int("any_term")
    E.prove("the terms are those of this direction", Implies(And(ok, Not(off)), has(t, kk) == And(x0, f["ordermax"] >= 3, Or(*[And(kk == q, big(v)) for q, v in term.items()]))))
    for q, v in term.items():
        E.prove("their values", Implies(And(ok, Not(off), has(t, z3.IntVal(q))), z3.Select(t.val, q) == v))
