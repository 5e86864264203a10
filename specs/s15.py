"""The Hamiltonian of an atom in fields."""
from driver import task
from values import *  # noqa: F401,F403
from sparse import *  # noqa: F401,F403
import stdmodel
import z3

LEVEL = "proof"
HARNESS = {"main": "s15.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (60, 1500), "flags": []}
RULE = "random atoms, bases, fields, axes and ions, compared with operators built from Cartesian coordinates"
ASSUME = ["the matrix elements of S04, put at the places the selection rules of S03 allow (proved for initializeInteraction), are the spherical components of the Cartesian operators; the rotation of fields given with axes or angles is exercised by the bounded search only",
          "Eigen: a matrix made from a list of triplets has the sums of the triplets as entries; selfadjointView<Lower> mirrors the lower half; products are associative; the list of states numbers its states by position; momenta of states that a rule connects differ by the whole number q",
          "a coefficient below the tolerance 1e-24 counts as zero; entries are real numbers, not doubles; std::pow is a positive function of a positive base",
          "Eigen's sums and products with numbers do what they document; the system passed to incorporate is a SystemOne"]
TU = "SystemOne.cpp"
CL = ["SystemOne<%s>" % t for t in ("std::complex<double>", "double")]
s2 = z3.Real("sqrt2")


def base(cl):
    return "SystemBase<%s, StateOne>" % cl[10:-1]


def each(name, fns, tus=(TU,)):
    def deco(f):
        for cl in CL:
            def g(E, cl=cl):
                f(E, cl)
            task("%s of %s" % (name, cl), list(tus), functions=fns)(g)
        return f
    return deco


def roots(E):
    """sqrt of the constants 2, 3 and 3/2"""
    r2, r3 = z3.Reals("root2 root3")
    E.facts += [r2 > 0, r3 > 0, r2 * r2 == 2, r3 * r3 == 3]
    return r2, r3


def sqrt(E):
    r2, r3 = roots(E)

    def f(E, st, a):
        v = z3.simplify(toreal(a.val(0)))
        for c, x in (("2", r2), ("3", r3), ("3/2", r3 / r2)):
            if z3.is_true(z3.simplify(v == R(c))):
                return x
        x = z3.Real(fresh_name("sqrt"))
        E.facts += [x >= 0, x * x == v]
        return x
    E.contracts["std::sqrt"] = E.contracts["sqrt"] = f
    return r2, r3


def scalar(cl, re, im):
    return Cx(re, im) if "complex" in cl else re


def sph(cl, f, r2):
    """spherical components of a Cartesian vector: {q: value}"""
    x, y, z = f
    return {1: scalar(cl, -x / r2, -y / r2), -1: scalar(cl, x / r2, -y / r2), 0: scalar(cl, z, ZERO)}


def at(m, k):
    return tmap(lambda a: z3.Select(a, k), m.val)


def vec3(E, n):
    return [z3.Real(n + c) for c in "xyz"]


def setter(which):
    def f(E, cl):
        st = E.new_state()
        r2, _ = sqrt(E)
        r = E.fresh(cl, "s")
        old = {k: r.f[k] for k in r.f}
        this = E.alloc(st, r, "s")
        v = vec3(E, "f")
        changed = this.sub(("f", "$changed"))
        r.f["$changed"] = F
        E.contracts[base(cl) + "::onParameterChange"] = lambda E, st, a: E.write(st, changed, T)
        b = "complex" not in cl
        E.run(st, cl + "::set%sfield" % which.upper(), this, [Arr(v)], ptypes=["array"])
        s = E.read(st, this)
        x = st.mem["$exc"]
        E.prove("a real system refuses exactly the fields along y", x == (v[1] != 0 if b else F))
        fld, sp = which + "field", which + "field_spherical"
        E.prove("the field is stored", Implies(Not(x), teq(s.f[fld], Arr(v))))
        want = sph(cl, v, r2)
        for q in (-1, 0, 1):
            E.prove("spherical component %d" % q, Implies(Not(x), And(z3.Select(s.f[sp].dom, q), teq(at(s.f[sp], q), want[q]))))
        E.prove("the Hamiltonian is marked as outdated", Implies(Not(x), E.read(st, changed)))
        E.prove("a refused field leaves no trace", Implies(x, And(teq(s.f[fld], old[fld]), teq(s.f[sp], old[sp]))))
        o = "b" if which == "e" else "e"
        E.prove("the other field is kept", And(teq(s.f[o + "field"], old[o + "field"]), teq(s.f[o + "field_spherical"], old[o + "field_spherical"])))
        if which == "b":
            d = s.f["diamagnetism_terms"]
            w = {k: cx(want[k]) for k in want}
            val = {(0, 0): cadd(cmul(w[0], w[0]), cmul(Cx(R("-2"), ZERO), cmul(w[1], w[-1]))), (2, 0): cadd(cmul(w[0], w[0]), cmul(w[1], w[-1])),
                   (2, 1): cmul(w[0], w[-1]), (2, -1): cmul(w[0], w[1]), (2, 2): cmul(w[-1], w[-1]), (2, -2): cmul(w[1], w[1])}
            for k, y in val.items():
                kk = E.key(d.kt, Arr([z3.IntVal(k[0]), z3.IntVal(k[1])]))
                E.prove("diamagnetic coefficient %d,%d" % k, Implies(Not(x), And(z3.Select(d.dom, kk), teq(cx(at(d, kk)), y))))
            E.prove("refused: the diamagnetic coefficients are kept", Implies(x, teq(d, old["diamagnetism_terms"])))
    return f


for _w in "eb":
    each("set%sfield" % _w.upper(), ["SystemOne::set%sfield" % _w.upper(), "SystemOne::changeToSphericalbasis"])(setter(_w))


@each("parameters", ["SystemOne::enableDiamagnetism", "SystemOne::setIonCharge", "SystemOne::setRydIonOrder", "SystemOne::setRydIonDistance"])
def parameters(E, cl):
    for fn, fld in (("enableDiamagnetism", "diamagnetism"), ("setIonCharge", "charge"), ("setRydIonOrder", "ordermax"), ("setRydIonDistance", "distance")):
        st = E.new_state()
        r = E.fresh(cl, "s")
        old = dict(r.f)
        r.f["$changed"] = F
        this = E.alloc(st, r, "s")
        E.contracts[base(cl) + "::onParameterChange"] = lambda E, st, a: E.write(st, this.sub(("f", "$changed")), T)
        v = E.fresh({"diamagnetism": "bool", "charge": "int", "ordermax": "unsigned int", "distance": "double"}[fld], "v")
        E.run(st, cl + "::" + fn, this, [v])
        s = E.read(st, this)
        E.prove(fn + " stores the value and marks the Hamiltonian as outdated", And(teq(s.f[fld], v), E.read(st, this.sub(("f", "$changed"))), Not(st.mem["$exc"])))
        E.prove(fn + " keeps everything else", And(*[teq(s.f[k], old[k]) for k in ("efield", "bfield", "efield_spherical", "bfield_spherical", "diamagnetism_terms", "diamagnetism", "charge", "ordermax", "distance") if k != fld]))


# ---------------------------------------------------------------- the Hamiltonian from the interactions


def ckey(k):
    """a concrete key (number or pair of numbers) of a map of matrices"""
    if isinstance(k, Arr):
        return ",".join(ckey(x) for x in k.e)
    k = z3.simplify(k)
    return str(k.as_long()) if z3.is_int_value(k) else None


def maps(E, st, this, atoms):
    """maps of matrices whose keys are concrete where they are used: one field for each key"""
    con = E.contracts
    old = stdmodel.HANDLERS["std::unordered_map::operator[]"]
    asked = []

    def sub(E, st, a):
        lv = a.this()
        n = lv.path[-1][1] if lv.path and lv.path[-1][0] == "f" else None
        if n in atoms:
            v = a.val(0)
            k = ckey(E.read(st, v) if isinstance(v, LV) else v)
            if "*" in atoms[n]:
                asked.append((n, v))
                return E.alloc(st, atoms[n]["*"](E.read(st, v) if isinstance(v, LV) else v))
            return lv.sub(("f", k))
        return old(E, st, a)
    con["std::unordered_map::operator[]"] = sub
    return sub


@each("addInteraction", ["SystemOne::addInteraction"])
def add_interaction(E, cl):
    """the interactions are the spherical components of Cartesian operators (what initializeInteraction stores)"""
    st = E.new_state()
    r2, r3 = sqrt(E)
    cplx = "complex" in cl
    r = E.fresh(cl, "s")
    c = lambda re, im=ZERO: Cx(re, im)
    A_ = lambda n, k=None: mat_scale(k or c(ONE), mat_atom(n))
    plus = lambda *m: m[0] if len(m) == 1 else mat_add(m[0], plus(*m[1:]))
    i_ = c(ZERO, ONE)

    def dip(p):
        """components +1, 0, -1 of the operator with Cartesian components px, py, pz"""
        return {"0": A_(p + "z"), "1": mat_scale(c(-1 / r2), plus(A_(p + "x"), A_(p + "y", i_))), "-1": mat_scale(c(1 / r2), plus(A_(p + "x"), A_(p + "y", c(ZERO, -ONE))))}
    Q = lambda n, k=ONE: A_("Q" + n, c(k) if not isinstance(k, Cx) else k)
    tt = R("2/3")
    # e^2/8m r^2 n_i n_j = Q_ij; the stored operators are 2/3 Q C_kq with C the spherical harmonics of Racah
    dia = {"0,0": mat_scale(c(tt), plus(Q("xx"), Q("yy"), Q("zz"))), "2,0": mat_scale(c(tt), plus(Q("zz"), Q("xx", R("-1/2")), Q("yy", R("-1/2")))),
           "2,1": mat_scale(c(-tt * (r3 / r2)), plus(Q("xz"), Q("yz", i_))), "2,-1": mat_scale(c(tt * (r3 / r2)), plus(Q("xz"), Q("yz", c(ZERO, -ONE)))),
           "2,2": mat_scale(c(tt * (r3 / r2) / 2), plus(Q("xx"), Q("yy", -ONE), Q("xy", c(ZERO, R("2"))))),
           "2,-2": mat_scale(c(tt * (r3 / r2) / 2), plus(Q("xx"), Q("yy", -ONE), Q("xy", c(ZERO, R("-2")))))}
    k0 = z3.Int("k0")  # one order of the multipole expansion, arbitrary

    def order(k):
        e = ite(k == k0, ONE, ZERO)
        return mat_add(mat_atom("V", c(e)), mat_atom("other", c(1 - e)))
    r.f["interaction_efield"] = Rec("map", dip("d"))
    r.f["interaction_bfield"] = Rec("map", dip("mu"))
    r.f["interaction_diamagnetism"] = Rec("map", dia)
    r.f["interaction_multipole"] = Rec("map", {})
    r.f["hamiltonian"] = mat_atom("H0")
    e, b = vec3(E, "e"), vec3(E, "b")
    for n, f in (("efield", e), ("bfield", b)):
        w = sph(cl, f, r2)
        m = r.f[n + "_spherical"]
        for q in w:
            E.assume(And(z3.Select(m.dom, q), teq(at(m, q), w[q])))
        if not cplx:
            E.assume(f[1] == 0)
    w = {k: cx(x) for k, x in sph(cl, b, r2).items()}
    m = r.f["diamagnetism_terms"]
    defs = {(0, 0): cadd(cmul(w[0], w[0]), cmul(c(R("-2")), cmul(w[1], w[-1]))), (2, 0): cadd(cmul(w[0], w[0]), cmul(w[1], w[-1])),
            (2, 1): cmul(w[0], w[-1]), (2, -1): cmul(w[0], w[1]), (2, 2): cmul(w[-1], w[-1]), (2, -2): cmul(w[1], w[1])}
    t = {}
    for k in defs:
        kk = E.key(m.kt, Arr([z3.IntVal(k[0]), z3.IntVal(k[1])]))
        E.assume(z3.Select(m.dom, kk))
        t[k] = cx(at(m, kk))
    this = E.alloc(st, r, "s")
    maps(E, st, this, {"interaction_efield": {}, "interaction_bfield": {}, "interaction_diamagnetism": {}, "interaction_multipole": {"*": order}})
    # a term is left out only if its coefficient is at most the tolerance: taken to be zero here
    E.assume(r.f["ordermax"] < 2 ** 32 - 1)

    def absolute(E, st, a):
        v = cx(E.read(st, a.val(0)) if isinstance(a.val(0), LV) else a.val(0))
        x = z3.Real(fresh_name("abs"))
        E.facts += [x >= 0, (x <= R(Fraction(1e-24))) == And(v.re == 0, v.im == 0)]
        return x
    E.contracts["std::abs"] = absolute
    p = z3.Function("power", z3.RealSort(), z3.IntSort(), z3.RealSort())
    E.contracts["std::pow"] = lambda E, st, a: p(a.val(0), a.val(1))
    x, q = z3.Real("x"), z3.Int("q")
    E.facts.append(z3.ForAll([x, q], Implies(x > 0, p(x, q) > 0), patterns=[p(x, q)]))
    E.assume(r.f["distance"] > 0)
    dist, om, ch = r.f["distance"], r.f["ordermax"], r.f["charge"]
    ion = And(ch != 0, dist != z3.Real("realmax_double"))
    qn = cl + "::addInteraction"

    def coeff(h, n):
        return h.t.get(((n, False),), c(ZERO))
    before = []

    E.mat_span = [(("V", False),), (("other", False),)]

    def inv(cc):
        h = E.read(cc.st, this).f["hamiltonian"]
        if not before:
            before.append(h)
        o = before[0]
        free = ((("V", False),), (("other", False),))
        return [cc["order"] >= 1, cc["order"] <= ite(om >= 1, om + 1, z3.IntVal(1)), teq(coeff(h, "V").im, ZERO),
                coeff(h, "V").re == ite(And(ion, k0 >= 1, k0 < cc["order"]), toreal(ch) / p(dist, k0 + 1), ZERO),
                And(*[teq(h.t.get(m, c(ZERO)), o.t.get(m, c(ZERO))) for m in set(h.t) | set(o.t) if m not in free])]
    E.loops["*"] = {"inv": inv}
    E.run(st, qn, this, [])
    h = E.read(st, this).f["hamiltonian"]
    E.prove("it does not fail", Not(st.mem["$exc"]))
    E.prove("order k of the ion's expansion: charge / distance^(k+1), for every k", teq(coeff(h, "V"), c(ite(And(ion, k0 >= 1, k0 <= om), toreal(ch) / p(dist, k0 + 1), ZERO))))
    E.prove("H0", teq(coeff(h, "H0"), c(ONE)))
    for o, f in (("d", e), ("mu", b)):
        for x, v in zip("xyz", f):
            E.prove("- %s%s %s%s" % (o, x, "E" if o == "d" else "B", x), teq(coeff(h, o + x), c(-v)))
    b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]
    dm = r.f["diamagnetism"]
    sign = {(0, 0): ONE, (2, 0): -ONE, (2, 1): r3, (2, -1): r3, (2, 2): -r3 / r2, (2, -2): -r3 / r2}

    def total(terms):
        h = Mat({})
        for k, x in terms.items():
            h = mat_add(h, mat_scale(cmul(c(sign[k]), x), dia["%d,%d" % k]))
        return h
    lin, pol = total(t), total(defs)
    for i in range(3):
        for j in range(i, 3):
            n = "Q" + "xyz"[i] + "xyz"[j]
            v = (b2 if i == j else ZERO) - b[i] * b[j] * (1 if i == j else 2)
            E.prove("diamagnetic operator %s: the stored coefficients, each with its operator" % n[1:], teq(coeff(h, n), ite(dm, coeff(lin, n), c(ZERO))))
            E.prove("diamagnetic operator %s: with the stored coefficients it is (r x B)^2" % n[1:], coeff(pol, n).re == v)
            E.prove("diamagnetic operator %s: with the stored coefficients it is (r x B)^2" % n[1:], coeff(pol, n).im == 0)
    known = {"H0", "V", "other"} | {o + x for o in ("d", "mu") for x in "xyz"} | {"Q" + x + y for x in "xyz" for y in "xyz"}
    E.prove("nothing else is added", And(*[teq(x, c(ZERO)) for m, x in h.t.items() if not (len(m) == 1 and m[0][0] in known)]))


@each("incorporate", ["SystemOne::incorporate"])
def incorporate(E, cl):
    st = E.new_state()
    r, o = E.fresh(cl, "s"), E.fresh(cl, "o")
    this, other = E.alloc(st, r, "s"), E.alloc(st, o, "o")
    r.f["$deleted"] = F
    E.dynamic_ok = True

    def any_set(E, st, a):
        E.write(st, a.this(), E.fresh_like(E.read(st, a.this())))
    E.contracts["std::set::insert"] = E.contracts["std::set::operator="] = any_set  # which momenta the combined system has is not claimed
    E.contracts["std::equal"] = lambda E, st, a: z3.Bool("same_momenta")
    E.contracts[cl + "::deleteInteraction"] = lambda E, st, a: E.write(st, this.sub(("f", "$deleted")), T)
    E.run(st, cl + "::incorporate", this, [other])
    x = st.mem["$exc"]
    same = And(*[teq(r.f[k], o.f[k]) for k in ("species", "efield", "bfield", "diamagnetism", "charge", "ordermax", "distance")])
    E.prove("systems are combined exactly if species, fields, diamagnetism and ion are the same", x == Not(same))
    E.prove("interactions of the smaller basis are dropped", Implies(Not(x), E.read(st, this.sub(("f", "$deleted")))))
    s = E.read(st, this)
    E.prove("the fields and the ion are kept", And(*[teq(s.f[k], r.f[k]) for k in ("species", "efield", "bfield", "efield_spherical", "bfield_spherical", "diamagnetism_terms", "diamagnetism", "charge", "ordermax", "distance")]))


# ---------------------------------------------------------------- the matrices of the interaction

def transform(E, cl, members):
    """every matrix of every map becomes T+ . T, T being the matrix passed; nothing else changes"""
    import matsort as ms
    st = E.new_state()
    ms.install(E)
    r = E.fresh(cl, "s")
    old = {n: ms.maps(E, r, n) for n in members}
    key = {n: z3.Const("any_key_" + n, m.dom.sort().domain()) for n, m in old.items()}
    this = E.alloc(st, r, "s")
    before = E.read(st, this)
    t = z3.Const("transformator", ms.M)

    def now(n, v, done):
        k, x = key[n], z3.Select(old[n].val, key[n])
        return And(v.dom == old[n].dom, z3.Select(v.val, k) == z3.If(done, ms.mul(ms.mul(ms.adj(t), x), t), x))

    def inv(c):
        s = E.read(c.st, this)
        out = []
        for n in members:
            if c.rng == this.sub(("f", n)):
                out.append(now(n, s.f[n], And(z3.Select(c.idx.dom, key[n]), z3.Select(old[n].dom, key[n]))))
            else:
                p = E.read(c.pre, this).f[n]
                out.append(teq(s.f[n], p))
        return out
    E.loops["*"] = {"inv": inv}
    E.run(st, cl + "::transformInteraction", this, [E.alloc(st, t, "transformator")])
    s = E.read(st, this)
    E.prove("nothing fails", Not(st.mem["$exc"]))
    for n in members:
        E.prove("%s: every matrix is transformed once, no key comes or goes" % n, now(n, s.f[n], z3.Select(old[n].dom, key[n])))
    E.prove("nothing else changes", And(*[teq(s.f[n], before.f[n]) for n in s.f if n not in members and not isinstance(s.f[n], Opaque)]))


ONE_MAPS = ("interaction_efield", "interaction_bfield", "interaction_diamagnetism", "interaction_multipole")


@each("transformInteraction", ["SystemOne::transformInteraction"])
def transform_interaction(E, cl):
    transform(E, cl, ONE_MAPS)


AU = {"au2GHz": 6579683.920757349, "au2Vcm": 5142206707.0, "au2G": 2350517550.0, "au2um": 5.2917721067e-05}


def consts(n):
    """as the compiler evaluates them"""
    G, V, B, u = [AU[x] for x in ("au2GHz", "au2Vcm", "au2G", "au2um")]
    return R(Fraction({"coulombs_constant": V * V * u * u * u / G, "electron_rest_mass": B * B * G / V / V, "elementary_charge": G / u / V}[n]))


def leaves(v):
    return [v.f[k] for k in ("species", "n", "l", "j", "m")]


def one_of(v, n, k, upto=None):
    """k is one of the elements of a list of at most n"""
    el = (lambda p: And(*[x[p] == y for x, y in zip(v.d.e, k)])) if isinstance(v.d, Arr) else (lambda p: v.d[p] == k)
    return Or(*[And(p < v.n, el(p), *([p < upto] if upto is not None else [])) for p in range(n)])


@each("initializeInteraction", ["SystemOne::initializeInteraction"], tus=(TU, "State.cpp"))
def init_interaction(E, cl):
    """one arbitrary entry (row, column) of one arbitrary operator of each kind: the triplets made for it add up to the matrix element
    the operator has there, and the operator stored is made of these triplets and brought into the basis"""
    import matsort as ms
    cplx = "complex" in cl
    st = E.new_state()
    ms.install(E)
    con = E.contracts
    E.multi_index = True
    r = E.fresh(cl, "s")
    install_states(E)
    S = states_vec(E, st, "StateOne")
    i = z3.Int("i")
    S.d.f["idx"] = z3.Lambda([i], i)
    S.d.f["state"] = named(E, Vec("x", S.n, S.d.f["state"])).d
    r.f["states"] = S
    B = r.f["basisvectors"] = z3.Const("B", ms.M)
    KN = ("efield", "bfield", "diamagnetism", "multipole")
    old = {k: ms.maps(E, r, "interaction_" + k) for k in KN}
    r.f["m_cache"] = E.alloc(st, Opaque("MatrixElementCache"), "cache")
    r.f["cache"] = r.f["m_cache"] if "cache" in r.f else None
    if r.f["cache"] is None:
        del r.f["cache"]
    # the members of the classes: fields have their three components, the diamagnetic terms theirs (proved for the setters)
    for f in ("efield_spherical", "bfield_spherical"):
        m = r.f[f]
        E.assume(m.dom == z3.Store(z3.Store(z3.Store(z3.K(z3.IntSort(), F), -1, T), 0, T), 1, T))
    dt = r.f["diamagnetism_terms"]
    dkey = lambda a, b: E.key(dt.kt, Arr([z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b]))
    DK = [(0, 0), (2, 0), (2, 1), (2, 2)]
    dom = z3.K(dt.dom.sort().domain(), F)
    for a, b in DK + [(2, -1), (2, -2)]:
        dom = z3.Store(dom, dkey(a, b), T)
    E.assume(dt.dom == dom)
    for k in ("efield", "bfield"):  # both signs come together
        E.assume(z3.Select(old[k].dom, 1) == z3.Select(old[k].dom, -1))
    E.assume(And(r.f["ordermax"] >= 0, r.f["ordermax"] < 2 ** 31 - 1))
    this = E.alloc(st, r, "s")
    n = S.n
    E.assume(n < 2 ** 31 - 1)

    # the arbitrary operators, row and column
    ke, kb, kq = z3.Ints("any_e any_b any_order")
    kd = (z3.Int("any_d0"), z3.Int("any_d1"))
    E.assume(And(ke >= 0, ke <= 1, kb >= 0, kb <= 1, kq >= 1, Or(*[And(kd[0] == a, kd[1] == b) for a, b in DK])))
    K = {"efield": ke, "bfield": kb, "multipole": kq}
    r0, c0 = z3.Ints("any_row any_column")
    E.assume(And(r0 >= 0, r0 < n, c0 >= 0, c0 < n))
    at_ = lambda p: tmap(lambda x: z3.Select(x, p), S.d.f["state"])
    sr, sc = at_(r0), at_(c0)
    sl = [x.sort() for x in leaves(sr)]
    R_, I_, B_ = z3.RealSort(), z3.IntSort(), z3.BoolSort()
    fn = lambda nm, *more: z3.Function(nm, *(sl + sl + list(more)))
    De, Db, Dd, Dm = fn("electric_dipole", R_), fn("magnetic_dipole", R_), fn("diamagnetism", I_, R_), fn("multipole", I_, R_)
    rule, mrule, prule = fn("multipole_rule", I_, I_, B_), fn("momentum_rule", I_, B_), fn("potential_rule", I_, B_)
    val = lambda st, v: E.read(st, v) if isinstance(v, LV) else v
    two = lambda st, a: leaves(val(st, a.val(0))) + leaves(val(st, a.val(1)))

    # S03: a rule with q holds only if the momenta differ by q
    differ = lambda a, b, q: a.f["m"] == b.f["m"] + z3.ToReal(q)

    def r_multi(E, st, a):
        x, y = val(st, a.val(0)), val(st, a.val(1))
        if a.n == 4:
            return And(rule(*two(st, a), a.val(2), a.val(3)), differ(x, y, a.val(3)))
        return prule(*two(st, a), a.val(2))

    def r_mom(E, st, a):
        x, y = val(st, a.val(0)), val(st, a.val(1))
        if a.n != 3:
            raise Unsupported("selectionRulesMomentumNew")
        return And(mrule(*two(st, a), a.val(2)), differ(x, y, a.val(2)))
    con["selectionRulesMultipoleNew"], con["selectionRulesMomentumNew"] = r_multi, r_mom
    C = "MatrixElementCache::"
    con[C + "getElectricDipole"] = lambda E, st, a: De(*two(st, a))
    con[C + "getMagneticDipole"] = lambda E, st, a: Db(*two(st, a))
    con[C + "getDiamagnetism"] = lambda E, st, a: Dd(*two(st, a), a.val(2))
    con[C + "getElectricMultipole"] = lambda E, st, a: Dm(*two(st, a), a.val(2))
    for x in ("ElectricMomentum", "MagneticMomentum", "Diamagnetism", "Multipole"):
        con[C + "precalculate" + x] = lambda E, st, a: None  # S05: changes no value
    con[base(cl) + "::getStates"] = lambda E, st, a: Opaque("states")
    mag = z3.Function("modulus", R_, R_, R_)

    def absolute(E, st, a):
        v = cx(val(st, a.val(0)))
        return mag(v.re, v.im)
    con["std::abs"] = absolute
    con["std::pow"] = lambda E, st, a: (z3.If(a.val(1) % 2 == 0, ONE, -ONE) if z3.is_true(z3.simplify(toreal(a.val(0)) == -1)) else (_ for _ in ()).throw(Unsupported("power")))
    tol = R(Fraction(1e-24))
    big = lambda x: mag(cx(x).re, cx(x).im) > tol

    # maps of lists of triplets: the list of a key is known by the sum of its entries at (r0, c0)
    GH = {k: "ghost " + k for k in KN}
    for k in KN:
        st.mem[GH[k]] = Cx(ZERO, ZERO)
    made = {k: z3.Function("matrix_of_" + k, *([I_, I_] if k == "diamagnetism" else [I_]), ms.M) for k in KN}
    sized = z3.Function("empty_matrix", I_, I_, ms.M)
    oldsub = stdmodel.HANDLERS["std::unordered_map::operator[]"]

    def sub(E, st, a):
        lv = a.this()
        nm = lv.root if not lv.path else ""
        for k in KN:
            if ("interaction_%s_triplets" % k) in nm:
                x = val(st, a.val(0))
                return E.alloc(st, Rec("list:" + k, {"key": x}), "list")
        if lv.path and lv.path[-1][0] == "f" and str(lv.path[-1][1]).startswith("interaction_"):
            m = E.read(st, lv)
            k = E.key(m.kt, val(st, a.val(0)))
            E.write(st, lv, Map(m.kt, m.vt, z3.Store(m.dom, k, T), m.val))
            return lv.sub(("k", k))
        return oldsub(E, st, a)
    con["std::unordered_map::operator[]"] = sub

    def is_list(v):
        return isinstance(v, Rec) and v.type.startswith("list:")

    def key_of(v):
        k = v.f["key"]
        return tuple(k.e) if isinstance(k, Arr) else (k,)

    def eqkey(kind, k):
        w = kd if kind == "diamagnetism" else (K[kind],)
        return And(*[x == y for x, y in zip(k, w)])

    def add(E, st, a):
        v = val(st, a.val(0))
        if not is_list(v):
            raise Unsupported("addTriplet")
        kind = v.type[5:]
        hit = And(eqkey(kind, key_of(v)), a.val(1) == r0, a.val(2) == c0)
        x = cx(val(st, a.val(3)))
        E.prove("an entry of the matrix", And(a.val(1) >= 0, a.val(1) < n, a.val(2) >= 0, a.val(2) < n), st)
        g = st.mem[GH[kind]]
        st.mem[GH[kind]] = Cx(g.re + z3.If(hit, x.re, ZERO), g.im + z3.If(hit, x.im, ZERO))
    con[cl + "::addTriplet"] = con["SystemOne::addTriplet"] = add
    for nm in ("begin", "end", "cbegin", "cend"):
        h = stdmodel.HANDLERS["std::vector::" + nm]
        con["std::vector::" + nm] = lambda E, st, a, h=h: E.read(st, a.this()) if is_list(E.read(st, a.this())) else h(E, st, a)
    for nm in ("clear", "reserve", "shrink_to_fit"):
        h = stdmodel.HANDLERS["std::vector::" + nm]
        con["std::vector::" + nm] = lambda E, st, a, h=h: None if is_list(E.read(st, a.this())) else h(E, st, a)

    def sft(E, st, a):
        x, y = val(st, a.val(0)), val(st, a.val(1))
        if not (is_list(x) and is_list(y) and x.type == y.type):
            raise Unsupported("setFromTriplets")
        E.prove("the list of one key, as a whole", And(*[p == q for p, q in zip(key_of(x), key_of(y))]), st)
        E.prove("the matrix has the size of the list of states", E.read(st, a.this()) == sized(n, n), st)
        E.write(st, a.this(), made[x.type[5:]](*key_of(x)))
    con["Eigen::SparseMatrix::setFromTriplets"] = sft
    con["Eigen::SparseMatrix::resize"] = lambda E, st, a: E.write(st, a.this(), sized(a.val(0), a.val(1)))

    # what is needed
    ef, bf = r.f["efield_spherical"], r.f["bfield_spherical"]
    need = {"efield": lambda k: And(k >= 0, k <= 1, big(at(ef, k)), Not(z3.Select(old["efield"].dom, -k))),
            "bfield": lambda k: And(k >= 0, k <= 1, big(at(bf, k)), Not(z3.Select(old["bfield"].dom, -k))),
            "diamagnetism": lambda k: And(r.f["diamagnetism"], big(at(dt, dkey(*k))), Not(z3.Select(old["diamagnetism"].dom, dkey(*k)))),
            "multipole": lambda k: And(r.f["charge"] != 0, k >= 1, k <= r.f["ordermax"], Not(z3.Select(old["multipole"].dom, k)))}
    cnt = z3.Function("orders_before", I_, I_)
    E.facts.append(cnt(1) == 0)
    miss = lambda k: Not(z3.Select(old["multipole"].dom, k))

    def collect(var, keys, needed, enc):
        def inv(c):
            v, vis = c[var], c.idx.dom
            el = (lambda p: tuple(x[p] for x in v.d.e)) if isinstance(v.d, Arr) else (lambda p: (v.d[p],))
            out = [v.n >= 0, v.n <= len(keys)]
            for p in range(len(keys)):
                out.append(Implies(p < v.n, Or(*[And(*[x == y for x, y in zip(el(p), k)], z3.Select(vis, enc(k)), needed(k)) for k in keys])))
                for q in range(p):
                    out.append(Implies(p < v.n, Or(*[x != y for x, y in zip(el(p), el(q))])))
            for k in keys:
                out.append(Implies(And(z3.Select(vis, enc(k)), needed(k)), Or(*[And(p < v.n, *[x == y for x, y in zip(el(p), k)]) for p in range(len(keys))])))
            return out
        return {"inv": inv}
    num = lambda k: z3.IntVal(k[0])
    L = cl + "::initializeInteraction"
    lp = E.loops
    sm = [(0,), (1,)]
    lp[(L, 0)] = collect("erange", sm, lambda k: need["efield"](num(k)), num)
    lp[(L, 1)] = collect("brange", sm, lambda k: need["bfield"](num(k)), num)
    lp[(L, 2)] = collect("drange", DK, need["diamagnetism"], lambda k: dkey(*k))

    def orders(v, upto):
        q = z3.Int("q")
        return [v.n == cnt(upto), v.n >= 0, Implies(And(kq < upto, miss(kq)), And(cnt(kq) >= 0, cnt(kq) < v.n, v.d[cnt(kq)] == kq)),
                forall([q], Implies(And(q >= 0, q < v.n), And(v.d[q] >= 1, v.d[q] < upto, Implies(v.d[q] == kq, And(q == cnt(kq), miss(kq))))), patterns=[v.d[q]])]

    def l3(c):
        o = c["order"]
        E.facts.append(cnt(o + 1) == cnt(o) + z3.If(miss(o), 1, 0))
        return [o >= 1, o <= z3.If(r.f["ordermax"] >= 1, r.f["ordermax"] + 1, 1)] + orders(c["orange"], o)
    lp[(L, 3)] = {"inv": l3}
    for k in (4, 5, 6):
        lp[(L, k)] = {"inv": lambda c: [c.idx >= 0]}
    lp[(L, 7)] = {"inv": lambda c: [c["order"] >= 1]}

    # what the entry has to be
    art = Or(sr.f["n"] == 0, sc.f["n"] == 0)
    ll = leaves(sr) + leaves(sc)
    lower = lambda k: Not(And(k == 0, r0 < c0))
    me = consts("electron_rest_mass")
    want = {"efield": z3.If(And(need["efield"](ke), lower(ke), rule(*ll, z3.IntVal(1), ke), differ(sr, sc, ke)), De(*ll), ZERO),
            "bfield": z3.If(And(need["bfield"](kb), lower(kb), mrule(*ll, kb), differ(sr, sc, kb)), Db(*ll), ZERO),
            "diamagnetism": z3.If(And(need["diamagnetism"](kd), lower(kd[1]), rule(*ll, *kd), differ(sr, sc, kd[1])), Dd(*ll, kd[0]) / (8 * me), ZERO),
            "multipole": z3.If(And(need["multipole"](kq), sr.f["m"] - sc.f["m"] < 1, sc.f["m"] - sr.f["m"] < 1, prule(*ll, kq)),
                               -consts("coulombs_constant") * consts("elementary_charge") * Dm(*ll, kq), ZERO)}
    full = {k: z3.If(art, ZERO, w) for k, w in want.items()}

    def sums(c, done, kinds=KN):
        out = []
        for k in kinds:
            g = c.st.mem[GH[k]]
            out += [g.re == z3.If(done, full[k], ZERO), g.im == 0]
        return out
    lp[(L, 8)] = {"inv": lambda c: [c.idx >= 0, c.idx <= n] + sums(c, c0 < c.idx)}

    def l9(c):
        ci = c["c"].f["idx"]
        return [c.idx >= 0, c.idx <= n] + sums(c, Or(c0 < ci, And(c0 == ci, r0 < c.idx)))
    lp[(L, 9)] = {"inv": l9}

    def inner(kind, var, maxn, k, w):
        def inv(c):
            here = And(c["c"].f["idx"] == c0, c["r"].f["idx"] == r0)
            v = c[var]
            seen = one_of(v, maxn, k, c.idx) if maxn else And(cnt(k) >= 0, cnt(k) < c.idx, cnt(k) < v.n, v.d[cnt(k)] == k)
            g, p = c.st.mem[GH[kind]], c.pre.mem[GH[kind]]
            return [c.idx >= 0, c.idx <= v.n, g.re == p.re + z3.If(And(here, seen), w, ZERO), g.im == p.im]
        return {"inv": inv}
    lp[(L, 10)] = inner("efield", "erange", 2, ke, want["efield"])
    lp[(L, 11)] = inner("bfield", "brange", 2, kb, want["bfield"])
    lp[(L, 12)] = inner("diamagnetism", "drange", 4, kd, want["diamagnetism"])
    lp[(L, 13)] = inner("multipole", "orange", 0, kq, want["multipole"])

    # the matrices
    def built(kind, k, zero):
        a = made[kind](*k)
        f = lambda x: ms.mul(ms.mul(ms.adj(B), x), B)
        return z3.If(zero, f(ms.mirror(a)), f(a))

    def stored(kind, m, done, k, pos, neg, q):
        o = old[kind]
        b = built(kind, k, q == 0)
        sign = z3.If(q % 2 == 0, ONE, -ONE)
        a = made[kind](*k)
        f = ms.mul(ms.mul(ms.adj(B), a), B)
        sel = z3.Select
        return [sel(m.dom, pos) == Or(sel(o.dom, pos), done), sel(m.dom, neg) == Or(sel(o.dom, neg), done),
                sel(m.val, pos) == z3.If(done, b, sel(o.val, pos)),
                Implies(q != 0, sel(m.val, neg) == z3.If(done, ms.times(sign, ms.adj(f)), sel(o.val, neg)))]

    def at_key(kind, m, done):
        if kind == "diamagnetism":
            return stored(kind, m, done, kd, dkey(*kd), dkey(kd[0], -kd[1]), kd[1])
        return stored(kind, m, done, (K[kind],), K[kind], -K[kind], K[kind])

    def build(kind, var, maxn):
        def inv(c):
            v = c[var]
            k = kd if kind == "diamagnetism" else K[kind]
            seen = one_of(v, maxn, k, c.idx) if maxn else And(cnt(k) >= 0, cnt(k) < c.idx, cnt(k) < v.n, v.d[cnt(k)] == k)
            return [c.idx >= 0, c.idx <= v.n] + at_key(kind, E.read(c.st, this).f["interaction_" + kind], seen)
        return {"inv": inv}
    for j, (kind, var, mx) in enumerate((("efield", "erange", 2), ("bfield", "brange", 2), ("diamagnetism", "drange", 4), ("multipole", "orange", 0))):
        lp[(L, 14 + j)] = build(kind, var, mx)
    E.run(st, L, this, [])
    s = E.read(st, this)
    E.prove("nothing fails", Not(st.mem["$exc"]))
    for kind in KN:
        k = kd if kind == "diamagnetism" else K[kind]
        E.prove(kind + ": an operator is made if its coefficient counts and it is missing, and brought into the basis; the others are kept",
                And(*at_key(kind, s.f["interaction_" + kind], need[kind](k))))
        g = st.mem[GH[kind]]
        E.prove(kind + ": the entry is the matrix element if the selection rule holds (lower half if the operator is Hermitian)",
                Implies(need[kind](k), And(g.re == full[kind], g.im == 0)))
    E.prove("nothing else changes", And(*[teq(s.f[x], r.f[x]) for x in s.f if not x.startswith("interaction_") and not isinstance(r.f[x], (Opaque, LV)) and x not in ("states",)]))


@each("addTriplet", ["SystemOne::addTriplet"])
def add_triplet(E, cl):
    add_triplet_of(E, cl)


def add_triplet_of(E, cl, of=None):
    """what initializeInteraction relies on: one entry is appended, with this row, column and value"""
    of = of or cl[10:-1]
    cplx = "complex" in of
    st = E.new_state()
    this = E.alloc(st, E.fresh(cl, "s"), "s")
    t = "Eigen::Triplet<%s, int>" % of
    v = E.fresh("std::vector<%s, std::allocator<%s>>" % (t, t), "entries")
    row, col = z3.Ints("row column")
    x = Cx(z3.Real("re"), z3.Real("im")) if cplx else z3.Real("value")
    E.assume(And(row >= 0, row < 2 ** 31, col >= 0, col < 2 ** 31, v.n < 2 ** 62))
    w = E.alloc(st, v, "entries")
    E.run(st, cl + "::addTriplet", this, [w, row, col, x], ptypes=["Triplet<" + of])
    z = E.read(st, w)
    f, o = z.d.f, v.d.f
    p = z3.Int("p")
    E.prove("one entry is appended", And(z.n == v.n + 1, f["m_row"][v.n] == row, f["m_col"][v.n] == col, teq(tmap(lambda a: z3.Select(a, v.n), f["m_value"]), x)))
    E.prove("the others stay", Implies(And(p >= 0, p < v.n), And(f["m_row"][p] == o["m_row"][p], f["m_col"][p] == o["m_col"][p], teq(tmap(lambda a: z3.Select(a, p), f["m_value"]), tmap(lambda a: z3.Select(a, p), o["m_value"])))))
    E.prove("nothing fails", Not(st.mem["$exc"]))


def keeps_only(E, o, z, but):
    """every member except these is what it was"""
    return And(*[T if o.f[f] is z.f[f] else teq(o.f[f], z.f[f]) for f in o.f if f not in but])


def delete(E, cl, maps):
    """the matrices made for a basis are forgotten, and nothing else"""
    st = E.new_state()
    r = E.fresh(cl, "s")
    this = E.alloc(st, r, "s")
    E.run(st, cl + "::deleteInteraction", this, [])
    z = E.read(st, this)
    for f in maps:
        k = z3.Const("k", z.f[f].dom.sort().domain())
        E.prove("nothing is left in " + f, Not(z3.Select(z.f[f].dom, k)))
    E.prove("the rest stays", keeps_only(E, r, z, maps))
    E.prove("nothing fails", Not(st.mem["$exc"]))


@each("deleteInteraction", ["SystemOne::deleteInteraction"])
def delete_interaction(E, cl):
    delete(E, cl, ["interaction_" + k for k in ("efield", "bfield", "diamagnetism", "multipole")])
