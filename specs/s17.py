"""The basis contains the states asked for."""
from driver import task
from values import *  # noqa: F401,F403
from sparse import *  # noqa: F401,F403
import stdmodel
import z3

LEVEL = "proof"
HARNESS = {"main": "s17.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (150, 4000), "flags": ["-D_GLIBCXX_ASSERTIONS"]}
RULE = "random ranges, energies, added states and symmetries of one and two atoms, compared with an enumeration of the states and with the symmetries as signed permutations"
ASSUME = [
    "std::set::insert, find, count, clear, iteration, std::set_intersection and boost::multi_index find/push_back do what they document; no two states of the list of states are equal (hashed_unique)",
    "StateOne::getReflected turns the sign of the projection and keeps all else: proved in S02; the effect of applyLeftsideTransformator and applyRightsideTransformator on the matrices: proved in S14",
    "numbers are real numbers: ranges of j and m are the exact sums min, min + 1, ... (they are exact in the code, too: half-integers)",
    "fewer than 2^31 - 1 states and vectors; one row of the matrix of basis vectors for each state (constructed so: tasks 'basis' and 'removal')",
    "getEnergy of a state is a function of n, l, j (of the database): its value is the subject of S10",
    "the basis of two atoms (SystemTwo::initializeBasis: products, symmetries, normalization) is bounded: it is compared with the enumeration of pairs and the symmetries as signed permutations",
]
TU = "SystemBase.cpp"
INST = ["SystemBase<%s, %s>" % (t, s) for t in ("std::complex<double>", "double") for s in ("StateOne", "StateTwo")]
ONES = ["SystemOne<%s>" % t for t in ("std::complex<double>", "double")]
TWOS = ["SystemTwo<%s>" % t for t in ("std::complex<double>", "double")]
R0, R1 = z3.RealVal(0), z3.RealVal(1)


def each(name, fns, insts=INST, tus=(TU,)):
    def deco(f):
        for cl in insts:
            def g(E, cl=cl):
                f(E, cl)
            task("%s of %s" % (name, cl), list(tus), functions=fns)(g)
        return f
    return deco


# ---------------------------------------------------------------- what the user asks for

FIELDS = ("range_n", "range_l", "range_j", "range_m", "energy_min", "energy_max")


@each("restrictions", ["SystemBase::restrictN", "SystemBase::restrictL", "SystemBase::restrictJ", "SystemBase::restrictM", "SystemBase::restrictEnergy", "SystemBase::range",
                       "SystemBase::forgetRestrictions"])
def restrictions(E, cl):
    for f, integer in (("N", True), ("L", True), ("J", False), ("M", False)):
        fld = "range_" + f.lower()
        st = E.new_state()
        r = E.fresh(cl, "s")
        this = E.alloc(st, r, "s")
        lo, hi = (z3.Int("lo" + f), z3.Int("hi" + f)) if integer else (z3.Real("lo" + f), z3.Real("hi" + f))
        if integer:
            x, onstep, whole = z3.Int("x" + f), T, lambda v, n: T
        else:  # any number: a whole number of steps from the minimum and a remainder
            k, rest = z3.Int("steps" + f), z3.Real("rest" + f)
            E.assume(And(rest >= 0, rest < 1))
            x = lo + z3.ToReal(k) + rest
            onstep, whole = rest == 0, lambda v, n: v == lo + z3.ToReal(n)
        count = E.alloc(st, z3.IntVal(0), "inserted")  # ghost: how many numbers were inserted

        def insert(E, st, a):
            E.write(st, count, E.read(st, count) + 1)
            return stdmodel.HANDLERS["std::set::insert"](E, st, a)
        E.contracts["std::set::insert"] = insert
        if integer:
            E.assume(And(lo > -2 ** 31, lo < 2 ** 30, hi > -2 ** 31, hi < 2 ** 30))

        def inv(c):
            s = E.read(c.st, this).f[fld]
            return [c["r"] >= c["rmin"], Or(c["r"] <= c["rmax"] + 1, c["r"] == c["rmin"]), whole(c["r"], E.read(c.st, count)), z3.Select(s.dom, x) == And(x >= c["rmin"], x < c["r"], onstep)]
        E.loops["*"] = {"inv": inv}
        E.run(st, cl + "::restrict" + f, this, [lo, hi])
        s = E.read(st, this)
        E.prove("restrict%s(min, max) allows exactly min, min + 1, ... up to max" % f, z3.Select(s.f[fld].dom, x) == And(x >= lo, x <= hi, onstep))
        E.prove("restrict%s keeps the other restrictions" % f, And(*[teq(s.f[k], r.f[k]) for k in FIELDS if k != fld]))
        E.prove("restrict%s does not fail" % f, Not(st.mem["$exc"]))
        st = E.new_state()
        r = E.fresh(cl, "s")
        this = E.alloc(st, r, "s")
        v = E.fresh("std::set<%s>" % ("int" if integer else "float"), "asked")
        E.run(st, cl + "::restrict" + f, this, [v], nargs=1)
        s = E.read(st, this)
        E.prove("restrict%s(set) allows exactly the set" % f, teq(s.f[fld], v))
        E.prove("restrict%s(set) keeps the other restrictions" % f, And(*[teq(s.f[k], r.f[k]) for k in FIELDS if k != fld]))
    st = E.new_state()
    r = E.fresh(cl, "s")
    this = E.alloc(st, r, "s")
    lo, hi = z3.Reals("e_lo e_hi")
    E.run(st, cl + "::restrictEnergy", this, [lo, hi])
    s = E.read(st, this)
    E.prove("restrictEnergy stores the limits", And(s.f["energy_min"] == lo, s.f["energy_max"] == hi, *[teq(s.f[k], r.f[k]) for k in FIELDS[:4]]))
    E.run(st, cl + "::forgetRestrictions", this, [])
    s = E.read(st, this)
    empty = lambda v: v.dom == z3.K(v.dom.sort().domain(), F)
    E.prove("forgotten: every number and every energy is allowed, no state is to be added", And(
        *[empty(s.f[k]) for k in FIELDS[:4]], s.f["energy_max"] == z3.Real("realmax_double"), s.f["energy_min"] == -z3.Real("realmax_double"), empty(s.f["states_to_add"])))


def allowed(r, n, l, j, m):
    def ok(s, v):
        return Or(s.dom == z3.K(s.dom.sort().domain(), F), z3.Select(s.dom, v))
    return And(ok(r.f["range_n"], n), ok(r.f["range_l"], l), ok(r.f["range_j"], j), ok(r.f["range_m"], m))


def energy_ok(r, e):
    M = z3.Real("realmax_double")
    return And(Or(e > r.f["energy_min"], r.f["energy_min"] == -M), Or(e < r.f["energy_max"], r.f["energy_max"] == M))


@each("validity", ["SystemBase::checkIsQuantumstateValid", "SystemBase::checkIsQuantumnumberValid", "SystemBase::checkIsEnergyValid"], tus=(TU, "State.cpp"))
def validity(E, cl):
    state = cl.split(", ")[1][:-1]
    st = E.new_state()
    r = E.fresh(cl, "s")
    this = E.alloc(st, r, "s")
    s = E.alloc(st, E.fresh(state, "state"), "state")
    v = E.run(st, cl + "::checkIsQuantumstateValid", this, [s], nargs=1)
    q = E.read(st, s)
    if state == "StateOne":
        want = Or(q.f["n"] == 0, allowed(r, *[q.f[k] for k in "nljm"]))
    else:
        s = q.f["state_array"].e
        want = And(*[Or(s[i].f["n"] == 0, allowed(r, *[s[i].f[k] for k in "nljm"])) for i in (0, 1)])
    E.prove("a state is allowed exactly if all its numbers are, or it is artificial", v == want)
    e = z3.Real("e")
    v = E.run(st, cl + "::checkIsEnergyValid", this, [e])
    E.prove("an energy is allowed exactly between the limits", v == energy_ok(r, e))
    E.prove("nothing fails", Not(st.mem["$exc"]))


# ---------------------------------------------------------------- entries of basis vectors

def is_state(v, i, s):
    leaf = []
    tmap(lambda x, y: leaf.append(z3.Select(x, i) == y) or x, v.d.f["state"], s)
    return And(*leaf)


def list_inv(v):
    """the numbers of the states are their positions"""
    i = z3.Int("i")
    return forall([i], Implies(And(i >= 0, i < v.n), v.d.f["idx"][i] == i))


def kept(a, b):
    """the list b continues the list a"""
    i = z3.Int(fresh_name("i"))
    leaf = []
    tmap(lambda x, y: leaf.append(z3.Select(x, i) == z3.Select(y, i)) or x, a.d, b.d)
    return And(b.n >= a.n, forall([i], Implies(And(i >= 0, i < a.n), And(*leaf))))


def triplet(v, k, row, col, w, cplx):
    t = v.d.f
    val = t["m_value"]
    same = And(val.re[k] == w.re, val.im[k] == w.im) if cplx else val[k] == w
    return And(t["m_row"][k] == row, t["m_col"][k] == col, same)


def scalar(name, cplx):
    return Cx(z3.Real(name + "_re"), z3.Real(name + "_im")) if cplx else z3.Real(name)


def triplets(E, cplx, name):
    t = "Eigen::Triplet<%s, int>" % ("std::complex<double>" if cplx else "double")
    v = E.fresh("std::vector<%s, std::allocator<%s>>" % (t, t), name)
    E.facts.append(v.n < 2 ** 62)
    return v


@each("entries", ["SystemOne::addBasisvectors", "SystemTwo::addBasisvectors"], insts=ONES + TWOS, tus=("SystemOne.cpp", "SystemTwo.cpp", "State.cpp"))
def entry(E, cl):
    two, cplx = cl.startswith("SystemTwo"), "complex" in cl
    state = "StateTwo" if two else "StateOne"
    install_states(E)
    st = E.new_state()
    r = E.fresh(cl, "s")
    old = named(E, states_vec(E, st, state))
    r.f["states"] = old
    this = E.alloc(st, r, "s")
    s = E.fresh(state, "state")
    col, w = z3.Int("col"), scalar("value", cplx)
    E.assume(And(col >= 0, col < 2 ** 31, old.n < 2 ** 31 - 1))
    tr = triplets(E, cplx, "entries")
    a = [E.alloc(st, s, "state"), E.alloc(st, col, "col"), E.alloc(st, w, "w"), E.alloc(st, tr, "entries")]
    if two:
        sq = E.fresh("std::vector<double, std::allocator<double>>", "sqnorms")
        E.assume(sq.n > old.n)
        a.append(E.alloc(st, sq, "sqnorms"))
    E.run(st, cl + "::addBasisvectors", this, a)
    v, t = E.read(st, this).f["states"], E.read(st, a[3])
    row = t.d.f["m_row"][tr.n]
    E.prove("one entry is appended: the column and the value asked for", And(t.n == tr.n + 1, triplet(t, tr.n, row, col, w, cplx)))
    E.prove("its row is the number of the state", And(row >= 0, row < v.n, is_state(v, row, s)))
    E.prove("the states known before keep their numbers", kept(old, v))
    E.prove("only this state is appended, and only if it was not known", Or(v.n == old.n, And(v.n == old.n + 1, row == old.n, *[Not(is_state(old, i, s)) for i in [z3.Int("any")]
                                                                                                                                 if not E.facts.append(And(i >= 0, i < old.n))])))
    E.prove("the numbers are the positions", list_inv(v))
    if two:
        E.prove("the weight of the state grows by |value|^2", E.read(st, a[4]).d[row] == sq.d[row] + (w.re * w.re + w.im * w.im if cplx else w * w))


def spins(E, half):
    """total momentum and its projection: both half-integer or both integer"""
    jj, mm = z3.Ints("jj mm")
    h = z3.RealVal("1/2") if half else R0
    return z3.ToReal(jj) + h, z3.ToReal(mm) + h


def symmetrized(E, cl, half):
    cplx = "complex" in cl
    st = E.new_state()
    r = E.fresh(cl, "s")
    this = E.alloc(st, r, "s")
    s = E.fresh("StateOne", "state")
    j, m = spins(E, half)
    s.f["j"], s.f["m"] = j, m
    l = s.f["l"]
    E.assume(And(s.f["n"] != 0, j >= 0, m <= j, m >= -j))
    col, en = z3.Int("col"), z3.Real("energy")
    E.assume(And(col >= 0, col < 2 ** 31 - 1))
    sym = E.alloc(st, z3.Int("sym"), "sym")
    par = E.read(st, sym)
    NA, EVEN, ODD = 2 ** 31 - 1, 1, -1
    E.assume(Or(par == NA, par == EVEN, par == ODD))
    g = z3.Function("weight", *([x.sort() for x in leaves(s)] + [z3.RealSort()]))
    G = [E.alloc(st, R0, "sum%d" % i) for i in (0, 1)]
    norm = E.alloc(st, R0, "norm")
    pure = E.alloc(st, T, "pure")

    def addc(E, st, a):
        x, c, w = [E.read(st, v) if isinstance(v, LV) else v for v in (a.val(0), a.val(1), a.val(2))]
        w = w if isinstance(w, Cx) else Cx(w, R0)
        f = g(*leaves(x))
        for k, p in zip(G, (w.re, w.im)):
            E.write(st, k, E.read(st, k) + p * f)
        E.write(st, norm, E.read(st, norm) + w.re * w.re + w.im * w.im)
        E.prove("the entry belongs to the vector", c == col, st)
    E.contracts["StateOne::getReflected"] = lambda E, st, a: mirror(E, a.thisv_or_val())  # S02
    E.contracts["SystemOne::addBasisvectors"] = E.contracts[cl + "::addBasisvectors"] = addc
    tr = triplets(E, cplx, "energies")
    bt = triplets(E, cplx, "entries")
    ci = E.alloc(st, col, "idx")
    la = E.alloc(st, tr, "energies")
    E.run(st, cl + "::addSymmetrizedBasisvectors", this, [E.alloc(st, s, "state"), ci, E.alloc(st, en, "energy"), E.alloc(st, bt, "entries"), la, sym])
    new = E.read(st, ci)
    t = E.read(st, la)
    ok = Not(st.mem["$exc"])
    sign = lambda x: z3.If(z3.ToInt(x) % 2 == 0, R1, -R1)
    k = z3.Int("k")
    E.facts.append(z3.ToReal(k) == l + m - j)
    taken = Or(par == NA, m > 0, And(m == 0, (k % 2 == 0) == (par == EVEN)))
    E.prove("with reflection symmetry one vector for each pair m, -m and for each m = 0 of the parity", Implies(ok, new == z3.If(taken, col + 1, col)))
    E.prove("its energy is put on the diagonal", Implies(ok, And(t.n == tr.n + (new - col), Implies(new == col + 1, triplet(t, tr.n, col, col, Cx(en, R0) if cplx else en, cplx)))))
    f1, f2 = g(*leaves(s)), g(*leaves(mirror(E, s)))
    re, im = E.read(st, G[0]), E.read(st, G[1])
    root = E.read(st, norm)
    p = z3.If(k % 2 == 0, R1, -R1) * z3.If(par == EVEN, R1, -R1)
    w = z3.Real("w")
    E.facts.append(And(w > 0, 2 * w * w == 1))
    E.prove("without symmetry, and for m = 0, the vector is the state", Implies(And(ok, taken, Or(par == NA, m == 0)), And(re == f1, im == 0)))
    two = Implies(And(ok, par != NA, m > 0), And(re == w * f1 + (R0 if half else w * p * f2), im == (w * p * f2 if half else R0)))
    E.prove("otherwise it is (|m> + parity (-1)^(l+m-j) i^(2j) |-m>) / sqrt 2", two)
    E.prove("the vector is normalized", Implies(And(ok, taken), root == 1))
    E.prove("nothing is added otherwise", Implies(And(ok, Not(taken)), And(re == 0, im == 0)))
    E.prove("fails only if the vector needs complex numbers", ok if cplx or not half else Implies(Not(ok), And(par != NA, m > 0)))


def leaves(s):
    return [s.f[k] for k in ("species", "n", "l", "j", "m")]


def mirror(E, s):
    r = E.fresh("StateOne", "reflected")
    for k in ("species", "n", "l", "j", "s", "element"):
        r.f[k] = s.f[k]
    r.f["m"] = -s.f["m"]
    return r


for _cl in ONES:
    for _h in (True, False):
        task("symmetrized vectors of %s, %s spin" % (_cl, "half-integer" if _h else "integer"), ["SystemOne.cpp", "State.cpp"],
             functions=["SystemOne::addSymmetrizedBasisvectors"])(lambda E, cl=_cl, h=_h: symmetrized(E, cl, h))


# ---------------------------------------------------------------- the basis of one atom

ARB = 32767
PARITY = {"NA": 2 ** 31 - 1, "EVEN": 1, "ODD": -1}


def whole(x):
    return x == z3.ToReal(z3.ToInt(x))


def physical(n, l, j, m, s):
    """numbers of a state of an atom with spin s"""
    d = j - z3.ToReal(l)
    return And(l >= 0, l <= n - 1, d <= s, -d <= s, j >= s - z3.ToReal(l), whole(d - s), m <= j, -m <= j, whole(m - j))


def rotation(sym, m):
    return Or(z3.Select(sym.dom, z3.RealVal(ARB)), z3.Select(sym.dom, m))


def one_basis(E, cl):
    cplx = "complex" in cl
    con = E.contracts
    install_states(E)
    st = E.new_state()
    r = E.fresh(cl, "s")
    r.f["states"] = states_vec(E, st, "StateOne")
    E.assume(r.f["states"].n == 0)
    this = E.alloc(st, r, "s")
    rot, par = r.f["sym_rotation"], r.f["sym_reflection"]
    E.assume(Or(*[par == v for v in PARITY.values()]))
    r.f["m_cache"] = E.alloc(st, Opaque("MatrixElementCache"), "cache")
    # an arbitrary state of the atom: numbers n, l, spin s2 / 2, j = l + s - steps, m = j - turns
    N, L, s2, ks, kt = z3.Ints("n l twice_s steps turns")
    s, J, M = z3.Reals("s j m")
    E.assume(And(2 * s == z3.ToReal(s2), J == z3.ToReal(L) + s - z3.ToReal(ks), M == J - z3.ToReal(kt)))
    E.assume(And(L >= 0, L <= N - 1, s2 >= 0, J >= s - z3.ToReal(L), J - z3.ToReal(L) <= s, z3.ToReal(L) - J <= s, M <= J, -M <= J, N < 2 ** 15, s2 < 64))
    energy = z3.Function("energy", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())
    asked = And(allowed(r, N, L, J, M), energy_ok(r, energy(N, L, J)), rotation(rot, M))
    # the spin follows from the name of the species
    digit = z3.Bool("digit")
    last = z3.Int("last_letter")
    E.assume(s2 == z3.If(And(last >= 48, last <= 57), last - 49, 1))
    con["std::string::back"] = con["std::basic_string::back"] = lambda E, st, a: last

    # lemma, used for the remainders below
    d_, x_ = z3.Int("lemma_difference"), z3.Real("lemma_remainder")
    E.prove("a whole number leaves no remainder", Implies(And(x_ == z3.ToReal(d_), x_ > -1, x_ < 1), x_ == 0))

    def fmod(E, st, a):
        v = stdmodel.HANDLERS["std::fmod"](E, st, a)
        x = a.val(0)
        E.facts.append(Implies(Or(x == -z3.ToReal(kt), x == -z3.ToReal(ks)), v == 0))
        return v
    con["std::fmod"] = con["fmod"] = fmod

    def rng(E, st, a):
        x = L if "int" in str(E.read(st, a.lv(0)).kt) else None
        o = E.fresh("std::set<%s>" % ("int" if x is not None else "float"), "range")
        lo, hi = a.val(1), a.val(2)
        if x is not None:
            E.facts.append(z3.Select(o.dom, L) == And(L >= lo, L <= hi))
        else:
            for x in (J, M):
                if str(a.lv(0)).find("_j") >= 0 and x is M or str(a.lv(0)).find("_m") >= 0 and x is J:
                    continue
                q, rest = z3.Int(fresh_name("q")), z3.Real(fresh_name("rest"))
                E.facts.append(And(rest >= 0, rest < 1, x - lo == z3.ToReal(q) + rest))
                E.facts.append(z3.Select(o.dom, x) == And(x >= lo, x <= hi, rest == 0))
                E.facts.append(Implies(Or(*[x - lo == z3.ToReal(w) for w in (s2 - ks, 2 * L - ks, 2 * L + s2 - 2 * ks - kt)]), rest == 0))
        E.write(st, a.lv(0), o)
    con["SystemBase::range"] = con[INST[0 if cplx else 2] + "::range"] = rng
    con["StateOne::getEnergy"] = lambda E, st, a: (lambda v: energy(v.f["n"], v.f["l"], v.f["j"]))(a.thisv_or_val())
    seen = E.alloc(st, z3.IntVal(0), "seen")
    user = E.alloc(st, z3.IntVal(0), "added")
    wanted = E.fresh("StateOne", "user_state")

    def vec_add(E, st, a):
        v, c, e = a.val(0), a.val(1), a.val(2)
        v = E.read(st, v) if isinstance(v, LV) else v
        e = E.read(st, e) if isinstance(e, LV) else e
        p = E.read(st, a.lv(5))
        n, l, j, m = [v.f[k] for k in "nljm"]
        if not loops_done(st):
            E.prove("only physical states", physical(n, l, j, m, s), st)
            E.prove("only states in the range", allowed(r, n, l, j, m), st)
            E.prove("only states in the range of energies, with their energy", And(e == energy(n, l, j), energy_ok(r, e)), st)
            E.prove("only momenta of the rotation symmetry", rotation(rot, m), st)
            E.prove("the reflection symmetry asked for", p == par, st)
            E.prove("of the species of the system", v.f["species"] == r.f["species"], st)
            hit = And(n == N, l == L, j == J, m == M)
            E.write(st, seen, E.read(st, seen) + z3.If(hit, 1, 0))
        else:
            art = n == 0
            E.prove("a state added by the user", z3.Select(r.f["states_to_add"].dom, E.key("StateOne", v)), st)
            E.prove("its energy, none for artificial states", e == z3.If(art, R0, energy(n, l, j)), st)
            E.prove("symmetries are not applied to artificial states", p == z3.If(art, z3.IntVal(PARITY["NA"]), par), st)
            E.prove("only momenta of the rotation symmetry", Or(art, rotation(rot, m)), st)
            mk = E.key("StateOne", v)
            E.prove("its mirror image is added, too, if symmetry asks for it", Or(art, p == PARITY["NA"], m == 0, z3.Select(r.f["states_to_add"].dom, E.key("StateOne", image[0]))) if image else F, st)
            E.write(st, user, E.read(st, user) + z3.If(mk == E.key("StateOne", wanted), 1, 0))
        lists["basisvectors"], lists["hamiltonian"], counter[0] = a.lv(3), a.lv(4), a.lv(1)
        lv = LV(this.root, this.path + (("f", "states"),))
        E.write(st, lv, E.fresh("std::vector<enumerated_state<StateOne>, std::allocator<enumerated_state<StateOne>>>", "grown"))
        old = E.read(st, a.lv(1))
        new = E.fresh("unsigned long", "idx")
        E.facts.append(And(new >= old, new <= old + 1))
        E.write(st, a.lv(1), new)
    image, counter = [], [None]

    def reflected(E, st, a):
        image[:] = [mirror(E, a.thisv_or_val())]
        return image[0]
    con["StateOne::getReflected"] = reflected
    con["SystemOne::addSymmetrizedBasisvectors"] = con[cl + "::addSymmetrizedBasisvectors"] = vec_add

    def loops_done(st):
        return seen_user[0]
    seen_user = [False]
    E.contracts["std::vector::clear"] = lambda E, st, a: None
    lists, built, size = {}, [], {}

    def resize(E, st, a):
        size[a.this().path[-1][1]] = (a.val(0), a.val(1), E.read(st, this).f["states"].n)

    def from_list(E, st, a):
        f, it = a.this().path[-1][1], a.val(0)
        E.prove("%s is made of its entries" % f, z3.BoolVal(f in lists and isinstance(it, LV) and it.root == lists[f].root and it.path[:-1] == lists[f].path), st)
        built.append((f, lists[f]))
    con["Eigen::SparseMatrix::resize"] = resize
    con["Eigen::SparseMatrix::setFromTriplets"] = from_list
    fits = Or(wanted.f["n"] == 0, wanted.f["species"] == r.f["species"])
    kept_ = Or(wanted.f["n"] == 0, rotation(rot, wanted.f["m"]))

    def inv(k):
        def f(c):
            seen_user[0] = k >= 4
            if k >= 4:
                known = z3.Select(c.idx.dom, E.key("StateOne", wanted))
                if k == 4:
                    return [Implies(known, fits)]
                return [E.read(c.st, user) == E.read(c.pre, user) + z3.If(And(known, kept_), 1, 0)]
            x = (N, L, J, M)[k]
            return [E.read(c.st, seen) == E.read(c.pre, seen) + z3.If(And(asked, z3.Select(c.idx.dom, x), *[c[nm] == v for nm, v in zip("nlj"[:k], (N, L, J))]), 1, 0)]
        return f
    for k in range(6):
        E.loops[("SystemOne::initializeBasis", k)] = {"inv": inv(k)}
        E.loops[(cl + "::initializeBasis", k)] = {"inv": inv(k)}
    E.run(st, cl + "::initializeBasis", this, [])
    ok = Not(st.mem["$exc"])
    mine = z3.Select(r.f["states_to_add"].dom, E.key("StateOne", wanted))
    E.prove("basis and Hamiltonian are built", z3.BoolVal(sorted(x for x, _ in built) == ["basisvectors", "hamiltonian"] and set(size) == {"basisvectors", "hamiltonian"}))
    col = st.mem[counter[0].root]
    E.prove("one column for each vector, one row for each state", Implies(ok, And(size["basisvectors"][0] == size["basisvectors"][2], size["basisvectors"][1] == col, size["hamiltonian"][0] == col, size["hamiltonian"][1] == col)))
    E.prove("every state added by the user is of the species", Implies(And(ok, mine), fits))
    E.prove("every state added by the user is put in, once", Implies(And(ok, mine, kept_), E.read(st, user) == 1))
    E.prove("every state asked for is added, once", Implies(And(ok, asked), E.read(st, seen) == 1))


for _cl in ONES:
    task("basis of %s" % _cl, ["SystemOne.cpp", "State.cpp", TU], functions=["SystemOne::initializeBasis"])(lambda E, cl=_cl: one_basis(E, cl))


# ---------------------------------------------------------------- restricting a basis that exists

@each("removal of states", ["SystemBase::removeRestrictedStates"], tus=(TU, "State.cpp"))
def removal(E, cl):
    state, cplx = cl.split(", ")[1][:-1], "complex" in cl
    con = E.contracts
    install_states(E)
    st = E.new_state()
    r = E.fresh(cl, "s")
    S0 = named(E, states_vec(E, st, state))
    r.f["states"] = S0
    this = E.alloc(st, r, "s")
    valid = z3.Function("asked", z3.IntSort(), z3.BoolSort())
    cnt = z3.Function("kept_before", z3.IntSort(), z3.IntSort())
    E.facts.append(cnt(0) == 0)

    def call(E, st, a):
        e = a.val(0)
        e = E.read(st, e) if isinstance(e, LV) else e
        i = e.f["idx"]
        E.prove("the check is asked about the states of the list", And(i >= 0, i < S0.n, is_state(S0, i, e.f["state"])), st)
        return valid(i)
    con["std::function::operator()"] = call
    E.multi_index = True
    i0, k0 = z3.Ints("any_state any_row")
    E.assume(And(i0 >= 0, i0 < S0.n, k0 >= 0))
    one = Cx(R1, R0) if cplx else R1

    def at(v, i):
        return tmap(lambda x: z3.Select(x, i), v.d.f["state"])

    def facts(S, t, upto):
        p = cnt(i0)
        src = t.d.f["m_col"][k0]
        return [S.n == cnt(upto), t.n == cnt(upto), cnt(upto) >= 0, cnt(upto) <= upto,
                Implies(And(i0 < upto, valid(i0)), And(p >= 0, p < cnt(upto), triplet(t, p, p, i0, one, cplx), is_state(S, p, at(S0, i0)), S.d.f["idx"][p] == p)),
                Implies(k0 < cnt(upto), And(src >= 0, src < upto, valid(src), triplet(t, k0, k0, src, one, cplx), is_state(S, k0, at(S0, src)), S.d.f["idx"][k0] == k0))]

    def inv(c):
        E.facts.append(cnt(c.idx + 1) == cnt(c.idx) + z3.If(valid(c.idx), 1, 0))
        return [c.idx >= 0, c.idx <= S0.n, c["idx_new"] == cnt(c.idx)] + facts(c["states_new"], c["triplets_transformator"], c.idx)
    E.loops["*"] = {"inv": inv}
    got = []

    def left(E, st, a):
        got.append(E.read(st, a.lv(0)))
    con["SystemBase::applyLeftsideTransformator"] = con[cl + "::applyLeftsideTransformator"] = left  # S14
    f = E.alloc(st, Opaque("std::function"), "check")
    E.run(st, cl + "::removeRestrictedStates", this, [f])
    S, t = E.read(st, this).f["states"], got[0]
    E.prove("applied once", z3.BoolVal(len(got) == 1))
    E.prove("exactly the states the check approves of stay, in order, with their rows", And(*facts(S, t, S0.n)))
    E.prove("nothing fails", Not(st.mem["$exc"]))


@each("restriction", ["SystemBase::updateEverything"], tus=(TU, "State.cpp"))
def restriction(E, cl):
    state, cplx = cl.split(", ")[1][:-1], "complex" in cl
    con = E.contracts
    install(E, cplx)
    st = E.new_state()
    r = E.fresh(cl, "s")
    r.f["basisvectors"], r.f["hamiltonian"] = mat_atom("B"), mat_atom("H")
    this = E.alloc(st, r, "s")
    H = entries(E, r.f["hamiltonian"], cplx)
    ent = E.fresh("enumerated_state<%s>" % state, "entry")
    i0 = ent.f["idx"]
    entry = E.alloc(st, ent, "entry")
    sets = [r.f[k].dom == z3.K(r.f[k].dom.sort().domain(), F) for k in ("range_n", "range_l", "range_j", "range_m")]
    ranged = Or(*[Not(x) for x in sets])
    M = z3.Real("realmax_double")
    limited = Or(ranged, r.f["energy_min"] != -M, r.f["energy_max"] != M)
    ok_state = z3.Bool("allowed")
    limit = r.f["threshold_for_sqnorm"]
    con["SystemBase::checkIsQuantumstateValid"] = con[cl + "::checkIsQuantumstateValid"] = lambda E, st, a: (
        E.prove("the state of the entry is checked", teq(a.val(0) if not isinstance(a.val(0), LV) else E.read(st, a.val(0)), ent.f["state"]), st), ok_state)[1]
    log = E.alloc(st, z3.IntVal(0), "steps")
    cur = {}
    calls = []

    def step(st, k, what):
        E.prove("order of the steps: " + what, E.read(st, log) == k if k else E.read(st, log) == 0, st)
        E.write(st, log, z3.IntVal(k + 1))

    def remove(E, st, a):
        f = a.val(0)
        f = E.read(st, f) if isinstance(f, LV) else f
        v = E.call_closure_vals(st, f, [entry])
        calls.append(("states", v, And(*st.pc, st.live())))
        n = len([c for c in calls if c[0] == "states"])
        if n == 1:
            E.prove("first the states that are not asked for are removed", v == ok_state, st)
            step(st, 0, "removal of states")
        else:
            E.prove("last the states that barely occur are removed", v == (cur["RN"](cur["B2"].cols) > limit), st)
            E.prove("order of the steps", E.read(st, log) == 3, st)
            E.write(st, log, z3.IntVal(4))
        E.write(st, this.sub(("f", "basisvectors")), mat_atom("B_%d" % n))
    con["SystemBase::removeRestrictedStates"] = con[cl + "::removeRestrictedStates"] = remove

    def changed(E, st, a):
        k = E.read(st, log)
        E.write(st, log, z3.If(k == 1, 2, z3.If(k == 4, z3.IntVal(5), z3.IntVal(99))))
    con["SystemBase::onStatesChange"] = con[cl + "::onStatesChange"] = con["SystemOne::onStatesChange"] = changed

    def coeff(E, st, a):
        m = a.thisv_or_val()
        return entries(E, m, cplx).val(a.val(0), a.val(1))
    con["Eigen::SparseMatrix::coeff"] = con["Eigen::SparseMatrixBase::coeff"] = con["Eigen::SparseCompressedBase::coeff"] = coeff
    I, R_ = z3.IntSort(), z3.RealSort()
    cnt, P = z3.Function("kept_before", I, I), z3.Function("part_of_norm", I, I, R_)
    E.facts.append(cnt(0) == 0)
    x0, k0 = z3.Ints("any_vector any_column")
    E.assume(And(x0 >= 0, k0 >= 0))
    one = Cx(R1, R0) if cplx else R1

    def mat(c):
        return entries(E, E.read(c.st, this).f["basisvectors"], cplx)

    def keep(B, i):
        return And(energy_ok(r, H.re(i, i)), P(i, B.nz(i)) > limit)

    def facts(B, t, upto):
        p = cnt(x0)
        src = t.d.f["m_row"][k0]
        return [t.n == cnt(upto), cnt(upto) >= 0, cnt(upto) <= upto,
                Implies(And(x0 < upto, keep(B, x0)), And(p >= 0, p < cnt(upto), triplet(t, p, x0, p, one, cplx))),
                Implies(k0 < cnt(upto), And(src >= 0, src < upto, keep(B, src), triplet(t, k0, src, k0, one, cplx)))]

    def columns(c):
        B = mat(c)
        cur["B1"] = B
        E.assume(B.cols < 2 ** 31 - 1)
        E.facts.append(cnt(c["idx"] + 1) == cnt(c["idx"]) + z3.If(keep(B, c["idx"]), 1, 0))
        return [c["idx"] >= 0, c["idx"] <= B.cols, c["idx_new"] == cnt(c["idx"])] + facts(B, c["triplets_transformator"], c["idx"])

    def norm(c):
        B, it = mat(c), c["triple"]
        E.facts += [P(it.col, 0) == 0, P(it.col, it.pos + 1) == P(it.col, it.pos) + abs2(B.at(B.row(it.col, it.pos), it.col))]
        return [it.pos >= 0, it.pos <= B.nz(it.col), c["sqnorm"] == P(it.col, it.pos)]

    def right(E, st, a):
        E.prove("exactly the vectors in the range of energies that still have a norm stay", And(*facts(cur["B1"], E.read(st, a.lv(0)), cur["B1"].cols)), st)
        k = E.read(st, log)
        E.prove("order of the steps", z3.If(ranged, k == 2, k == 0), st)
        E.write(st, log, z3.IntVal(3))
        E.write(st, this.sub(("f", "basisvectors")), mat_atom("B_selected"))
    con["SystemBase::applyRightsideTransformator"] = con[cl + "::applyRightsideTransformator"] = right  # S14
    RN = cur["RN"] = z3.Function("weight_in_vectors_before", I, R_)
    E.facts.append(RN(0) == 0)

    def rows(c):
        B = cur["B2"] = mat(c)
        v = c["sqnorm_list"]
        E.facts.append(RN(c["k"] + 1) == RN(c["k"]) + abs2(B.at(i0, c["k"])))
        E.assume(And(i0 >= 0, i0 < B.rows))
        return [c["k"] >= 0, c["k"] <= B.cols, v.n == B.rows, v.d[i0] == RN(c["k"])]

    def inner(c):
        B, it = mat(c), c["triple"]
        v = c["sqnorm_list"]
        return [it.pos >= 0, it.pos <= B.nz(it.col), v.n == B.rows,
                v.d[i0] == RN(it.col) + z3.If(And(B.stored(i0, it.col), B.slot(it.col, i0) < it.pos), abs2(B.at(i0, it.col)), R0)]
    for k, f in enumerate((columns, norm, rows, inner)):
        E.loops[("SystemBase::updateEverything", k)] = E.loops[(cl + "::updateEverything", k)] = {"inv": f}
    E.run(st, cl + "::updateEverything", this, [])
    f = E.read(st, this).f
    x = st.mem["$exc"]
    k = E.read(st, log)
    E.prove("what is asked for is done, and nothing else", k == z3.If(limited, z3.IntVal(5), z3.IntVal(0)))
    none = r.f["states_to_add"].dom == z3.K(r.f["states_to_add"].dom.sort().domain(), F)
    E.prove("states cannot be added to a basis that exists", x == Not(none))
    E.prove("the restrictions are forgotten", Implies(Not(x), And(*[f[n].dom == z3.K(f[n].dom.sort().domain(), F) for n in ("range_n", "range_l", "range_j", "range_m", "states_to_add")], f["energy_min"] == -M, f["energy_max"] == M)))
