"""Entries, overlaps and choices of basis vectors."""
from driver import task
from values import *  # noqa: F401,F403
from sparse import *  # noqa: F401,F403
import z3

LEVEL = "proof"
HARNESS = {"main": "s14.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (120, 3000), "flags": []}
RULE = "random systems (real and complex, one and two atoms), states, entries, choices and rotations, compared with dense matrices"
ASSUME = ["Eigen's products, row(), dot(), setFromTriplets(), prune(), nonZeros(), coeffRef()/insert() and inner iterators do what they document; MatrixBase::sqrt() is the principal square root",
          "boost::multi_index finds a state by its value (State comparison: S01) and keeps positions; std::nth_element permutes",
          "entries are real numbers, not doubles; the threshold of forgetStatemixing is the member's value",
          "getBasisvectorIndex of a list, getConnections, unitarize and add are exercised by the bounded search only"]
TU = "SystemBase.cpp"
INST = ["SystemBase<%s, %s>" % (t, s) for t in ("std::complex<double>", "double") for s in ("StateOne", "StateTwo")]


def each(name, fns):
    def deco(f):
        for cl in INST:
            def g(E, cl=cl):
                f(E, cl)
            task("%s of %s" % (name, cl), [TU], functions=fns)(g)
        return f
    return deco


# ---------------------------------------------------------------- entries of the Hamiltonian


class Ent:
    """a system with basis vectors B (unitary: the states span the space) and Hamiltonian H (Hermitian)"""

    def __init__(self, E, cl):
        self.E, self.cl, self.cplx = E, cl, "complex" in cl
        self.st = st = E.new_state()
        self.u = Units(unitary=("B",))
        r = E.fresh(cl, "s")
        self.B, self.H = mat_atom("B"), mat_atom("H")
        r.f["basisvectors"], r.f["hamiltonian"] = self.B, self.H
        r.f["$cells"] = Arr([Cx(ZERO, ZERO) if self.cplx else ZERO for _ in range(4)])
        self.this = E.alloc(st, r, "s")
        self.r, self.c = z3.Int("index_of_row"), z3.Int("index_of_col")
        self.bad = z3.Bool("a_state_is_unknown")
        self.calls, self.at = [], []
        con = E.contracts
        con[cl + "::buildHamiltonian"] = con[cl + "::buildBasis"] = lambda E, st, a: None
        con[cl + "::getStateIndex"] = self.index
        con["Eigen::SparseMatrixBase::row"] = lambda E, st, a: mat_mul(mat_adj(self.u.e(a.val(0))), a.thisv_or_val())
        con["Eigen::SparseMatrixBase::dot"] = self.dot
        con["Eigen::SparseMatrix::insert"] = con["Eigen::SparseMatrix::coeffRef"] = self.insert
        con["Eigen::SparseMatrix::reserve"] = lambda E, st, a: None
        con["Eigen::SparseMatrix::makeCompressed"] = self.compress
        self.rows = {}
        for n, x in (("row", self.r), ("col", self.c)):
            lv = E.alloc(st, E.fresh(cl.split(", ")[1][:-1], n), n)
            self.rows[lv.root] = x
            setattr(self, "s" + n, lv)

    def index(self, E, st, a):
        return self.rows[a.lv(0).root]

    def dot(self, E, st, a):
        """the first factor is conjugated"""
        x, y = a.thisv_or_val(), a.val(0)
        y = E.read(st, y) if isinstance(y, LV) else y
        v = self.u.scalar(mat_adj(mat_mul(x, mat_adj(y))))
        return v if self.cplx else v.re

    def insert(self, E, st, a):
        self.at.append((a.val(0), a.val(1)))
        return self.this.sub(("f", "$cells"), ("i", len(self.at) - 1))

    def compress(self, E, st, a):
        m = Mat({})
        for k, (i, j) in enumerate(self.at):
            v = cx(E.read(st, self.this.sub(("f", "$cells"), ("i", k))))
            m = mat_add(m, mat_scale(v, mat_mul(self.u.e(i), mat_adj(self.u.e(j)))))
        E.write(st, a.this(), m)

    def entry(self, i, j, unit=True):
        f = self.E.read(self.st, self.this).f
        b = f["basisvectors"]
        u = self.u if unit else Units()
        if not unit:
            u.idx = self.u.idx
        return u.scalar(mat_mul(mat_mul(mat_mul(mat_mul(mat_adj(self.u.e(i)), b), f["hamiltonian"]), mat_adj(b)), self.u.e(j)))


def herm(f):
    def g(E, cl):
        HERM_ATOMS.add("H")
        if "complex" not in cl:
            pass
        try:
            f(E, cl)
        finally:
            HERM_ATOMS.discard("H")
    return g


def ceq(a, b):
    a, b = cx(a), cx(b)
    return And(a.re == b.re, a.im == b.im)


@each("getHamiltonianEntry", ["SystemBase::getHamiltonianEntry"])
@herm
def get_entry(E, cl):
    s = Ent(E, cl)
    s.u.unitary = set()
    want = s.entry(s.r, s.c)
    v = E.run(s.st, cl + "::getHamiltonianEntry", s.this, [s.srow, s.scol])
    E.prove("no exception", Not(s.st.mem["$exc"]))
    E.prove("the entry is <row|H|col>", ceq(v, want if s.cplx else Cx(want.re, ZERO)))
    E.prove("nothing is changed", ceq(s.entry(s.r, s.c), want))


def changing(name):
    @each(name, ["SystemBase::" + name])
    @herm
    def f(E, cl):
        s = Ent(E, cl)
        x, y = z3.Ints("x y")
        v = E.fresh("std::complex<double>" if s.cplx else "double", "value")
        cv = cx(v)
        before = s.entry(x, y)
        rc = s.entry(s.r, s.c)
        if not s.cplx:      # real matrices: the numbers are real
            E.assume(And(*[cx(w).im == 0 for w in (before, rc, s.entry(s.c, s.r))]))
            E.assume(And(Implies(And(x == s.r, y == s.c), ceq(before, rc)), Implies(And(x == s.c, y == s.r), ceq(before, rc))))
        E.assume(Implies(And(x == s.r, y == s.c), ceq(before, rc)))
        E.assume(Implies(And(x == s.c, y == s.r), ceq(before, conj(rc))))
        E.assume(Implies(s.r == s.c, rc.im == 0))
        E.run(s.st, cl + "::" + name, s.this, [s.srow, s.scol, v])
        E.prove("no exception", Not(s.st.mem["$exc"]))
        after = s.entry(x, y)
        new = cv if name.startswith("set") else cadd(rc, cv)
        E.prove("the entry", Implies(And(x == s.r, y == s.c), ceq(after, new)))
        E.prove("the entry across the diagonal", Implies(And(x == s.c, y == s.r, s.r != s.c), ceq(after, conj(new))))
        E.prove("other entries are left alone", Implies(And(Not(And(x == s.r, y == s.c)), Not(And(x == s.c, y == s.r))), ceq(after, before)))
        f_ = E.read(s.st, s.this).f
        E.prove("basis vectors are left alone", mat_eq(f_["basisvectors"], s.B))
        E.cover("off the diagonal", s.r != s.c)
        E.cover("on the diagonal", s.r == s.c)


changing("setHamiltonianEntry")
changing("addHamiltonianEntry")


# ---------------------------------------------------------------- properties of matrices


def by_entries(E, cl):
    """a system with basis vectors, whose entries are arbitrary, and a list of states"""
    E.split_inv = True
    cplx = "complex" in cl
    st = E.new_state()
    r = E.fresh(cl, "s")
    r.f["basisvectors"], r.f["hamiltonian"] = mat_atom("B"), mat_atom("H")
    r.f["states"] = states_vec(E, st, cl.split(", ")[1][:-1])
    install(E, cplx)
    install_states(E)
    B = entries(E, r.f["basisvectors"], cplx)
    E.assume(B.rows == r.f["states"].n)
    E.assume(B.cols < 2 ** 31)
    for n in ("buildHamiltonian", "buildBasis"):
        E.contracts[cl + "::" + n] = lambda E, st, a: None
    return st, E.alloc(st, r, "s"), r, B, cplx


def modulus(E):
    """|z| by its square"""
    t = {}

    def f(E, st, a):
        v = a.val(0)
        v = E.read(st, v) if isinstance(v, LV) else v
        if not isinstance(v, Cx):
            return ite(v >= 0, v, -v)
        x = z3.Real(fresh_name("abs"))
        E.facts += [x >= 0, x * x == abs2(v), Implies(And(v.re == 0, v.im == 0), x == 0)]
        return x
    E.contracts["std::abs"] = f


def mod(e, r, c):
    """the modulus of an entry, as a function: |re| or sqrt(re^2 + im^2)"""
    return z3.Function("mod" + e.key, z3.IntSort(), z3.IntSort(), z3.RealSort())(r, c)


def mods(E, e, contract=True):
    r, c = z3.Ints("r c")
    m = mod(e, r, c)
    E.facts.append(forall([r, c], And(m >= 0, Implies(And(e.re(r, c) == 0, e.im(r, c) == 0), m == 0)), patterns=[m]))

    def f(E, st, a):
        v = a.val(0)
        v = E.read(st, v) if isinstance(v, LV) else v
        re = v.re if isinstance(v, Cx) else v
        if z3.is_app(re) and re.decl().name() == e.re.name():
            return mod(e, re.arg(0), re.arg(1))
        raise Unsupported("modulus of something else")
    if contract:
        E.contracts["std::abs"] = f


def is_at(v, i, w, j):
    """the i-th element of a list of states is the j-th state of the system"""
    c = []
    tmap(lambda x, y: c.append(z3.Select(x, i) == z3.Select(y, j)) or x, v.d, w.d.f["state"])
    return And(*c)


def up_to(B, k, pos, f):
    """f(row) for the entries of column k stored before pos"""
    i = z3.Int("i")
    return forall([i], Implies(And(i >= 0, i < pos), f(B.row(k, i))), patterns=[B.row(k, i)])


@each("getMainStates", ["SystemBase::getMainStates"])
def main_states(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    mods(E, B)
    # every basis vector has an entry
    c_ = z3.Int("c")
    E.assume(forall([c_], Implies(And(c_ >= 0, c_ < B.cols), B.nz(c_) > 0), patterns=[B.nz(c_)]))
    S = r.f["states"]

    def main(v, upto):
        """the q-th element is the state with the entry of largest modulus of column q"""
        q, x, y = z3.Ints("q x y")
        return forall([q], Implies(And(q >= 0, q < upto), z3.Exists([x], And(
            x >= 0, x < S.n, is_at(v, q, S, x),
            forall([y], mod(B, y, q) <= mod(B, x, q), patterns=[mod(B, y, q)])))))
    E.loops[(cl + "::getMainStates", 0)] = {"inv": lambda c: [
        c["k"] >= 0, c["k"] <= B.cols, c["states_with_maxval"].n == c["k"], main(c["states_with_maxval"], c["k"])]}
    E.loops[(cl + "::getMainStates", 1)] = {"inv": lambda c: [
        c["triple"].pos >= 0, c["triple"].pos <= B.nz(c["k"]), c["triple"].col == c["k"],
        ite(c["triple"].pos == 0, c["maxval"] == -1, And(
            c["row_with_maxval"] >= 0, c["row_with_maxval"] < S.n, c["maxval"] == mod(B, c["row_with_maxval"], c["k"]), c["maxval"] >= 0)),
        up_to(B, c["k"], c["triple"].pos, lambda r: mod(B, r, c["k"]) <= c["maxval"])]}
    v = E.run(st, cl + "::getMainStates", this, [])
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("one state per vector", v.n == B.cols)
    E.prove("it has the largest part in the vector", main(v, v.n))


@each("getStateIndex", ["SystemBase::getStateIndex"])
def state_index(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    state = cl.split(", ")[1][:-1]
    gen = generalized(E, state)
    k = E.alloc(st, E.fresh(state, "searched"), "searched")
    v = E.run(st, cl + "::getStateIndex", this, [k], ptypes=["const %s &" % state])
    x = st.mem["$exc"]
    S = r.f["states"]
    i = z3.Int("i")
    has = lambda i: is_state(E.read(st, k), S, i)
    E.prove("the index of the state", Implies(Not(x), And(v >= 0, v < S.n, has(v))))
    E.prove("refused exactly if generalized or unknown", Implies(x, Or(gen, forall([i], Implies(And(i >= 0, i < S.n), Not(has(i)))))))
    E.prove("a generalized state is refused", Implies(gen, x))
    E.cover("found", Not(x))


def generalized(E, state):
    g = z3.Bool("generalized")
    E.contracts[state + "::isGeneralized"] = lambda E, st, a: g
    E.contracts["utils::is_true"] = lambda E, st, a: a.val(0)
    return g


def is_state(v, w, j):
    """the state v is the j-th one of the system"""
    c = []
    tmap(lambda x, y: c.append(x == z3.Select(y, j)) or x, v, w.d.f["state"])
    return And(*c)


@each("checkIsDiagonal", ["SystemBase::checkIsDiagonal"])
def check_diagonal(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    m = mat_atom("M")
    M = entries(E, m, cplx)
    E.assume(M.cols < 2 ** 31)
    mods(E, M)
    pruning(E, cplx)
    v = E.run(st, cl + "::checkIsDiagonal", this, [E.alloc(st, m, "mat")])
    a, b = z3.Ints("a b")
    small = forall([a, b], Implies(And(a >= 0, a < M.rows, b >= 0, b < M.cols, a != b), mod(M, a, b) <= TINY), patterns=[mod(M, a, b)])
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("diagonal means: no entry off the diagonal", v == small)


TINY = R(Fraction(1e-12))


def pruning(E, cplx):
    """assumed of Eigen: prune(x, eps) drops the stored entries of modulus at most x eps and keeps the others"""
    def pruned(E, m, eps):
        e = entries(E, m, cplx)
        q = mat_atom("pruned" + key(m))
        p = entries(E, q, cplx)
        E.facts += [p.rows == e.rows, p.cols == e.cols]
        r, c = z3.Ints("r c")
        keep = mod(e, r, c) > eps
        E.facts.append(forall([r, c], And(p.stored(r, c) == And(e.stored(r, c), keep),
                                             Implies(keep, And(p.re(r, c) == e.re(r, c), p.im(r, c) == e.im(r, c))),
                                             Implies(Not(e.stored(r, c)), mod(e, r, c) == 0)),
                                 patterns=[p.slot(c, r), mod(e, r, c)]))
        return q

    def prune(E, st, a):
        E.write(st, a.this(), pruned(E, a.thisv(), rmul(cx(a.val(0)).re, cx(a.val(1)).re)))

    def prune2(E, st, a):
        m = a.thisv_or_val()
        mods(E, entries(E, m, cplx), False)
        return pruned(E, m, rmul(cx(a.val(0)).re, cx(a.val(1)).re))
    E.contracts["Eigen::SparseMatrix::prune"] = prune
    E.contracts["Eigen::SparseMatrixBase::pruned"] = prune2
    P = {}

    def nonzeros(E, st, a):
        """assumed: the number of stored entries; if no column holds more than one entry it is the number of columns exactly
        if every column holds one"""
        e = entries(E, a.thisv_or_val(), cplx)
        n = z3.Int(fresh_name("nonzeros"))
        c = z3.Int("c")
        inside = lambda f: forall([c], Implies(And(c >= 0, c < e.cols), f), patterns=[e.nz(c)])
        E.facts += [n >= 0, Implies(inside(e.nz(c) <= 1), (n == e.cols) == inside(e.nz(c) == 1))]
        return n
    E.contracts["Eigen::SparseMatrix::nonZeros"] = E.contracts["Eigen::SparseCompressedBase::nonZeros"] = nonzeros

    def outer(c):
        a, i = z3.Ints("a i")
        return [c["k"] >= 0, c["k"] <= ent(c, "tmp").cols,
                forall([a, i], Implies(And(a >= 0, a < c["k"], i >= 0, i < ent(c, "tmp").nz(a)), ent(c, "tmp").row(a, i) == a), patterns=[ent(c, "tmp").row(a, i)])]

    def ent(c, n):
        return entries(E, c[n], cplx)

    def inner(c):
        t, k = c["triple"], c["k"]
        return [t.pos >= 0, t.pos <= ent(c, "tmp").nz(k), t.col == k, up_to(ent(c, "tmp"), k, t.pos, lambda r: r == k)]
    for n in range(2):
        for cl in INST:
            E.loops[(cl + "::checkIsDiagonal", n)] = {"inv": (outer, inner)[n]}
    return ent


@each("getBasisvectorIndex", ["SystemBase::getBasisvectorIndex"])
def basisvector_index(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    mods(E, B)
    state = cl.split(", ")[1][:-1]
    q = z3.Int("index_of_state")
    bad = z3.Bool("state_is_unknown")
    E.assume(And(q >= 0, q < B.rows))
    k = E.alloc(st, E.fresh(state, "searched"), "searched")
    E.contracts[cl + "::getStateIndex"] = lambda E, st, a: (E.prove("the state that is asked for", z3.BoolVal(a.lv(0) == k), st), q)[1]

    def outer(c):
        a = z3.Int("a")
        w = c["col_with_maxval"]
        return [c["k"] >= 0, c["k"] <= B.cols, c["maxval"] >= -1,
                Or(c["maxval"] == -1, And(w >= 0, w < c["k"], c["maxval"] == mod(B, q, w))),
                forall([a], Implies(And(a >= 0, a < c["k"], B.stored(q, a)), mod(B, q, a) <= c["maxval"]), patterns=[mod(B, q, a), B.slot(a, q)])]

    def inner(c):
        t = c["triple"]
        return [t.pos >= 0, t.pos <= B.nz(c["k"]), t.col == c["k"], up_to(B, c["k"], t.pos, lambda r: r != q)] + outer(c)
    E.loops[(cl + "::getBasisvectorIndex", 0)] = {"inv": outer}
    E.loops[(cl + "::getBasisvectorIndex", 1)] = {"inv": inner}
    v = E.run(st, cl + "::getBasisvectorIndex", this, [k], ptypes=["const %s &" % state])
    a = z3.Int("a")
    some = And(a >= 0, a < B.cols, mod(B, q, a) > 0)
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("a vector with the largest part of the state", Implies(some, And(v >= 0, v < B.cols, mod(B, q, a) <= mod(B, q, v))))


# ---------------------------------------------------------------- choices of basis vectors


def triplets(E, cplx):
    """assumed of Eigen: setFromTriplets(first, last) of a list of triplets; the matrix is known by the list"""
    tab = {}

    def sft(E, st, a):
        lv = a.val(0)
        while not isinstance(lv, LV):
            raise Unsupported("setFromTriplets")
        v = E.read(st, LV(lv.root, lv.path[:-1]))
        n = mat_atom("T%d" % len(tab))
        tab[key(n)] = (E.read(st, a.this()), v)
        E.write(st, a.this(), n)
    E.contracts["Eigen::SparseMatrix::setFromTriplets"] = sft
    for c in ("ctor:Eigen::Triplet", "Eigen::Triplet::Triplet"):
        pass
    return tab


def tri(v, q):
    """row, column and value of the q-th triplet"""
    f = v.d.f
    val = f["m_value"]
    return f["m_row"][q], f["m_col"][q], (Cx(val.re[q], val.im[q]) if isinstance(val, Cx) else Cx(val[q], ZERO))


def unit(c):
    return And(c.re == 1, c.im == 0)


@each("forgetStatemixing", ["SystemBase::forgetStatemixing"])
def forget(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    mods(E, B)
    tab = triplets(E, cplx)
    E.contracts[cl + "::diagonalize"] = lambda E, st, a: None
    h = z3.Real("sqrt_half")
    E.assume(h > 0)
    E.contracts["std::sqrt"] = E.contracts["sqrt"] = lambda E, st, a: (E.prove("threshold is the root of one half", a.val(0) == R("1/2"), st), h)[1]
    tr = "basisvectors_triplets"

    def strong(v, upto):
        q = z3.Int("q")
        a, b, x = tri(v, q)
        return forall([q], Implies(And(q >= 0, q < upto), And(mod(B, a, b) > h, unit(x))), patterns=[b])

    def weak(c):
        y = z3.Int("y")
        return forall([y], mod(B, y, c) <= h, patterns=[mod(B, y, c)])

    def outer(c):
        q, w = z3.Ints("q w")
        v = named(E, c[tr])
        _, b, _ = tri(v, q)
        return [c["k"] >= 0, c["k"] <= B.cols, v.n >= 0, v.n <= c["k"], strong(v, v.n), c["threshold"] == h,
                forall([q], Implies(And(q >= 0, q < v.n), And(b >= q, b <= c["k"] - v.n + q)), patterns=[b]),
                Implies(v.n < c["k"], z3.Exists([w], And(w >= 0, w < c["k"], weak(w)), patterns=[B.nz(w)]))]

    def inner(c):
        t = c["triple"]
        return [t.pos >= 0, t.pos <= B.nz(c["k"]), t.col == c["k"], up_to(B, c["k"], t.pos, lambda r: mod(B, r, c["k"]) <= h)] + outer(c)
    E.loops[(cl + "::forgetStatemixing", 0)] = {"inv": outer}
    E.loops[(cl + "::forgetStatemixing", 1)] = {"inv": inner}
    E.run(st, cl + "::forgetStatemixing", this, [])
    x = st.mem["$exc"]
    w, q = z3.Ints("w q")
    E.prove("refused only if a vector is mixed strongly", Implies(x, z3.Exists([w], And(w >= 0, w < B.cols, weak(w)))))
    E.prove("one list of triplets", z3.BoolVal(len(tab) == 1))
    (old, v), = tab.values()
    a, b, val = tri(v, q)
    E.prove("every vector becomes its main state", Implies(And(Not(x), q >= 0, q < B.cols), And(v.n == B.cols, b == q, mod(B, a, q) > h, unit(val))))
    f = E.read(st, this).f
    E.prove("the Hamiltonian is left alone", mat_eq(f["hamiltonian"], mat_atom("H")))
    E.prove("a refused call changes nothing", Implies(x, mat_eq(f["basisvectors"], mat_atom("B"))))


@each("constrainBasisvectors", ["SystemBase::constrainBasisvectors"])
def constrain(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    w = E.alloc(st, E.fresh("std::vector<unsigned long, std::allocator<unsigned long>>", "wanted"), "wanted")
    wv = named(E, E.read(st, w))
    i, j = z3.Ints("i j")
    E.facts.append(forall([i], Implies(And(i >= 0, i < wv.n), And(wv.d[i] >= 0, wv.d[i] < 2 ** 64)), patterns=[wv.d[i]]))
    E.assume(wv.n < 2 ** 31)
    unique = forall([i, j], Implies(And(i >= 0, i < j, j < wv.n), wv.d[i] != wv.d[j]))
    card = z3.Int("number_of_different_indices")
    E.assume(And(card >= 0, card <= wv.n, (card == wv.n) == unique))

    def mkset(E, st, a):
        x, y = a.val(0), a.val(1)
        E.prove("all indices are compared", And(z3.BoolVal(x.root == y.root), x.path[-1][1] == 0, y.path[-1][1] == wv.n), st)
        return Set("unsigned long", z3.K(z3.IntSort(), F))
    E.contracts["std::set::set"] = mkset
    E.contracts["std::set::size"] = lambda E, st, a: card
    calls = []
    E.write(st, this.sub(("f", "$applied")), F)

    def apply(E, st, a):
        v = named(E, a.val(0) if not isinstance(a.val(0), LV) else E.read(st, a.val(0)))
        q = z3.Int("q")
        x, y, val = tri(v, q)
        E.prove("exactly the wanted vectors are kept, in the wanted order",
                And(v.n == wv.n, forall([q], Implies(And(q >= 0, q < wv.n), And(x == wv.d[q], y == q, unit(val))), patterns=[x])), st)
        E.prove("once", Not(E.read(st, this).f["$applied"]), st)
        E.write(st, this.sub(("f", "$applied")), T)
    E.contracts[cl + "::applyRightsideTransformator"] = apply

    def inv(c):
        v = named(E, c["triplets_transformator"])
        q = z3.Int("q")
        x, y, val = tri(v, q)
        return [c.idx >= 0, c.idx <= wv.n, v.n == c.idx, c["idx_new"] == c.idx,
                forall([q], Implies(And(q >= 0, q < c.idx), And(wv.d[q] < B.cols, x == wv.d[q], y == q, unit(val))), patterns=[x])]
    E.loops["*"] = {"inv": inv}
    E.run(st, cl + "::constrainBasisvectors", this, [w])
    x = st.mem["$exc"]
    known = forall([i], Implies(And(i >= 0, i < wv.n), wv.d[i] < B.cols), patterns=[wv.d[i]])
    E.prove("refused only if an index occurs twice or is unknown", Implies(x, Not(And(unique, known))))
    E.prove("an index that occurs twice or is unknown is refused", Implies(Not(x), And(unique, known)))
    E.prove("applied unless refused", E.read(st, this).f["$applied"] == Not(x))


def transformator(side):
    name = "apply%ssideTransformator" % side

    @each(name + " of triplets", ["SystemBase::" + name])
    def f(E, cl):
        st, this, r, B, cplx = by_entries(E, cl)
        sc = "std::complex<double>" if cplx else "double"
        w = E.alloc(st, E.fresh("std::vector<Eigen::Triplet<%s, int>, std::allocator<Eigen::Triplet<%s, int>>>" % (sc, sc), "triplets"), "triplets")
        tab = triplets(E, cplx)
        E.write(st, this.sub(("f", "$T")), Mat({}))
        E.write(st, this.sub(("f", "$rows")), z3.IntVal(-1))
        E.write(st, this.sub(("f", "$cols")), z3.IntVal(-1))
        v = E.read(st, w)
        E.assume(v.n < 2 ** 31)

        def ctor(E, st, a):
            if a.n == 2:
                E.write(st, this.sub(("f", "$rows")), a.val(0))
                E.write(st, this.sub(("f", "$cols")), a.val(1))
            return Mat({})
        E.contracts["Eigen::SparseMatrix::SparseMatrix"] = ctor

        def apply(E, st, a):
            E.write(st, this.sub(("f", "$T")), E.read(st, a.lv(0)))
        E.contracts["%s::%s" % (cl, name)] = apply
        E.run(st, "%s::%s" % (cl, name), this, [w], ptypes=["std::vector"])
        f = E.read(st, this).f
        want = {"Right": (B.cols, v.n), "Left": (v.n, B.rows)}[side]
        E.prove("no exception", Not(st.mem["$exc"]))
        E.prove("the matrix is made of the triplets", z3.BoolVal(list(tab) == [key(f["$T"])] and tab[key(f["$T"])][1] is v))
        E.prove("it has the right dimensions", And(f["$rows"] == want[0], f["$cols"] == want[1]))


transformator("Right")
transformator("Left")


@each("checkIsUnitary", ["SystemBase::checkIsUnitary"])
def check_unitary(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    m = mat_atom("M")
    G = entries(E, mat_mul(mat_adj(m), m), cplx)
    mods(E, G)
    E.assume(And(G.rows == G.cols, G.cols < 2 ** 31))
    ent = pruning(E, cplx)
    absG = E.contracts["std::abs"]

    def ab(E, st, a):
        v = a.val(0)
        v = E.read(st, v) if isinstance(v, LV) else v
        return ite(v >= 0, v, -v)
    E.contracts["std::abs"] = ab
    one = lambda re, im: And(re - 1 <= TINY, re - 1 >= -TINY, im <= TINY, im >= -TINY)

    def tmp(c):
        return ent(c, "tmp")

    def outer(c):
        a, i = z3.Ints("a i")
        t = tmp(c)
        return [c["k"] >= 0, c["k"] <= t.cols,
                forall([a, i], Implies(And(a >= 0, a < c["k"], i >= 0, i < t.nz(a)), And(t.row(a, i) == a, one(t.re(a, a), t.im(a, a)))), patterns=[t.row(a, i)])]

    def inner(c):
        t, k = c["triple"], c["k"]
        return [t.pos >= 0, t.pos <= tmp(c).nz(k), t.col == k, up_to(tmp(c), k, t.pos, lambda r: And(r == k, one(tmp(c).re(k, k), tmp(c).im(k, k))))]
    E.loops[(cl + "::checkIsUnitary", 0)] = {"inv": outer}
    E.loops[(cl + "::checkIsUnitary", 1)] = {"inv": inner}
    v = E.run(st, cl + "::checkIsUnitary", this, [E.alloc(st, m, "mat")])
    a, b = z3.Ints("a b")
    P = entries(E, mat_atom("pruned" + G.key), cplx)
    ok = And(forall([a, b], Implies(And(a >= 0, a < G.rows, b >= 0, b < G.cols, a != b), mod(G, a, b) <= TINY), patterns=[mod(G, a, b)]),
             forall([a], Implies(And(a >= 0, a < G.cols), And(one(G.re(a, a), G.im(a, a)), mod(G, a, a) > TINY)), patterns=[mod(G, a, a), P.nz(a)]))
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("accepted matrices have orthonormal columns", Implies(v, ok))
    E.prove("matrices with orthonormal columns are accepted", Implies(ok, v))


# ---------------------------------------------------------------- overlaps


@each("getOverlap of indices", ["SystemBase::getOverlap"])
def overlap_indices(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    sc = "std::complex<double>" if cplx else "double"
    w = E.alloc(st, E.fresh("std::vector<unsigned long, std::allocator<unsigned long>>", "indices"), "indices")
    wv = named(E, E.read(st, w))
    i, k, q = z3.Ints("i k q")
    # the indices of states
    E.assume(forall([i], Implies(And(i >= 0, i < wv.n), And(wv.d[i] >= 0, wv.d[i] < B.rows)), patterns=[wv.d[i]]))
    E.assume(wv.n < 2 ** 31)
    tab = triplets(E, cplx)
    ang = [z3.Real(x) for x in ("alpha", "beta", "gamma")]
    W = mat_atom("W")
    still = And(*[x == 0 for x in ang])

    def rotated(E, st, a):
        lv = a.lv(0)
        E.prove("the states asked for are rotated, by the angles asked for", And(z3.BoolVal(lv == w), *[x == a.val(i + 1) for i, x in enumerate(ang)]), st)
        return W
    E.contracts[cl + "::rotateStates"] = rotated
    # the sum over the states of the squared modulus of the part of vector c in them: psum(c, k) is the sum of the first k
    psum = z3.Function("psum", z3.IntSort(), z3.IntSort(), z3.RealSort())
    X = Entries(E, "[B'X]", cplx, rows=B.cols, cols=wv.n)       # the parts in the (rotated) states
    x2 = z3.Function("x2", z3.IntSort(), z3.IntSort(), z3.RealSort())
    c_ = z3.Int("c")
    E.facts += [forall([c_], psum(c_, 0) == 0, patterns=[psum(c_, 0)]),
                forall([c_, k], And(Implies(k >= 0, psum(c_, k + 1) == psum(c_, k) + x2(c_, k)), Implies(Not(X.stored(c_, k)), x2(c_, k) == 0)), patterns=[X.slot(k, c_)])]
    # B' times the chosen columns of the identity: the parts in the states themselves
    E.facts.append(forall([c_, k], Implies(And(still, k >= 0, k < wv.n), x2(c_, k) == abs2fn(B)(wv.d[k], c_)), patterns=[x2(c_, k)]))
    con = E.contracts
    E.write(st, this.sub(("f", "$dim")), z3.BoolVal(True))

    def resize(E, st, a):
        E.write(st, this.sub(("f", "$dim")), And(a.val(0) == r.f["states"].n, a.val(1) == wv.n))
        E.write(st, a.this(), Mat({}))
    con["Eigen::SparseMatrix::resize"] = resize
    sft = con["Eigen::SparseMatrix::setFromTriplets"]

    def from_triplets(E, st, a):
        sft(E, st, a)
        (old, v), = tab.values()
        v = named(E, v)
        x, y, val = tri(v, q)
        E.prove("one column for every state", And(E.read(st, this).f["$dim"], v.n == wv.n), st)
        E.prove("the columns are the states", forall([q], Implies(And(q >= 0, q < wv.n), And(x == wv.d[q], y == q, unit(val))), patterns=[x]), st)
    con["Eigen::SparseMatrix::setFromTriplets"] = from_triplets
    tag = {"ok": None}

    def copy(E, st, a):
        """the product of the adjoint basis vectors and the states, whichever they are"""
        if a.n != 1:
            return Mat({})
        m = a.val(0)
        m = E.read(st, m) if isinstance(m, LV) else m
        good = [mat_eq(m, mat_mul(mat_adj(mat_atom("B")), gated(W, still)))]
        E.prove("overlaps with the adjoint basis vectors", good[0], st)
        return mat_atom("B'X")

    def gated(W, still):
        """the selected columns if nothing is rotated, W otherwise"""
        s = mat_atom("T0")
        t = {}
        for c, m in ((still, s), (Not(still), W)):
            for u, v in m.t.items():
                t[u] = Cx(ite(c, v.re, ZERO), ite(c, v.im, ZERO))
        return Mat(t)
    con["Eigen::SparseMatrix::SparseMatrix"] = copy
    E.__dict__.setdefault("$entries", {})["[*B'X]"] = X
    con["Eigen::DenseBase::Zero"] = lambda E, st, a: Vec("double", a.val(0), z3.K(z3.IntSort(), ZERO))
    con["Eigen::Matrix::Matrix"] = lambda E, st, a: E.read(st, a.val(0)) if isinstance(a.val(0), LV) else a.val(0)

    def power(E, st, a):
        E.prove("squares are added", a.val(1) == 2, st)
        v = a.val(0)
        if z3.is_app(v) and v.decl().name() == "mod" + X.key:
            return x2(v.arg(0), v.arg(1))
        raise Unsupported("power of something else")
    con["std::pow"] = con["pow"] = power

    def modsq(E, st, a, f):
        v = a.val(0)
        v = E.read(st, v) if isinstance(v, LV) else v
        re = v.re if isinstance(v, Cx) else v
        if z3.is_app(re) and re.decl().name() == X.re.name():
            return f(re.arg(0), re.arg(1))
        raise Unsupported("modulus of something else")
    con["std::abs"] = lambda E, st, a: modsq(E, st, a, lambda x, y: mod(X, x, y))
    con["std::norm"] = lambda E, st, a: modsq(E, st, a, x2)

    def trip(c):
        v = named(E, c["overlap_states_triplets"])
        x, y, val = tri(v, q)
        return [c.idx >= 0, c.idx <= wv.n, v.n == c.idx, c["current"] == c.idx,
                forall([q], Implies(And(q >= 0, q < c.idx), And(x == wv.d[q], y == q, unit(val))), patterns=[x])]

    def outer(c):
        v = named(E, c["overlap"])
        return [c["k"] >= 0, c["k"] <= X.cols, v.n == X.rows,
                forall([i], Implies(And(i >= 0, i < X.rows), v.d[i] == psum(i, c["k"])), patterns=[v.d[i], psum(i, c["k"])])]

    def inner(c):
        v, t, k = named(E, c["overlap"]), c["triple"], c["k"]
        return [t.pos >= 0, t.pos <= X.nz(k), t.col == k, v.n == X.rows,
                forall([i], Implies(And(i >= 0, i < X.rows), v.d[i] == psum(i, k) + ite(And(X.slot(k, i) >= 0, X.slot(k, i) < t.pos), x2(i, k), ZERO)),
                       patterns=[v.d[i], X.slot(k, i)])]
    q_ = cl + "::getOverlap"
    E.loops[(q_, 0)], E.loops[(q_, 1)], E.loops[(q_, 2)] = {"inv": trip}, {"inv": outer}, {"inv": inner}
    v = E.run(st, q_, this, [w] + ang, ptypes=["const std::vector<unsigned long", "double", "double", "double"])
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("one number per vector", v.n == B.cols)
    E.prove("the sum over the states of the squared moduli", Implies(And(i >= 0, i < B.cols), v.d[i] == psum(i, wv.n)))


def abs2fn(B):
    return z3.Function("x2" + B.key, z3.IntSort(), z3.IntSort(), z3.RealSort())


def searched(E, cl, st, this, r):
    """a list of states to look for. matches(s, p): the s-th of them is (or contains) the p-th state of the system"""
    state = cl.split(", ")[1][:-1]
    w = E.alloc(st, E.fresh("std::vector<%s, std::allocator<%s>>" % (state, state), "searched"), "searched")
    I = z3.IntSort()
    wv, S = E.read(st, w), r.f["states"]
    gen, known, pos = (z3.Function(n, I, x) for n, x in (("generalized", z3.BoolSort()), ("known", z3.BoolSort()), ("position", I)))
    inside = z3.Function("inside", I, I, z3.BoolSort())
    s_ = z3.Int("s")
    E.facts.append(forall([s_], Implies(known(s_), And(pos(s_) >= 0, pos(s_) < S.n)), patterns=[pos(s_), known(s_)]))
    E.assume(wv.n < 2 ** 31)

    def match(s, p):
        return ite(gen(s), inside(s, p), And(known(s), pos(s) == p))

    def which(lv, root):
        while isinstance(lv, LV) and lv.root not in (root.root,) and not lv.path:
            lv = E.read(st, lv)
        if not isinstance(lv, LV) or lv.root != root.root:
            raise Unsupported("which state")
        return [p[1] for p in lv.path if p[0] == "i"][-1]
    con = E.contracts
    cur = {}

    def isgen(E, st, a):
        cur["s"] = which(a.this(), w)
        return gen(cur["s"])
    con[state + "::isGeneralized"] = isgen
    con["utils::is_true"] = lambda E, st, a: a.val(0)
    con[state + "::operator^"] = lambda E, st, a: inside(which(a.lv(0), w), which(a.this(), this))

    def find(E, st, a):
        s = which(a.lv(0), w)
        return Where(a.this(), pos(s), Not(known(s)))
    for c in ("multi_index_container", "detail::random_access_index", "detail::hashed_index"):
        con[MI + c + "::find"] = find
    return w, wv, match, gen, known, pos, cur


@each("getOverlap of states", ["SystemBase::getOverlap"])
def overlap_states(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    w, wv, match, gen, known, pos, cur = searched(E, cl, st, this, r)
    S, I = r.f["states"], z3.IntSort()
    ang = [z3.Real(x) for x in ("alpha", "beta", "gamma")]
    # ghost: the state searched for that an index was found for; the position of the index found for a pair
    src, at = this.sub(("f", "$src")), this.sub(("f", "$at"))
    E.write(st, src, z3.K(I, z3.IntVal(0)))
    E.write(st, at, z3.K(I, z3.K(I, z3.IntVal(0))))
    E.write(st, this.sub(("f", "$done")), F)
    push = HANDLERS["std::vector::push_back"]

    def pushed(E, st, a):
        v = E.read(st, a.this())
        E.write(st, src, z3.Store(E.read(st, src), v.n, cur["s"]))
        t = E.read(st, at)
        E.write(st, at, z3.Store(t, cur["s"], z3.Store(t[cur["s"]], a.val(0), v.n)))
        return push(E, st, a)
    E.contracts["std::vector::push_back"] = E.contracts["std::vector::emplace_back"] = pushed
    q, s, p = z3.Ints("q s p")

    def found(st, v, upto, cur=None, p_upto=None):
        f, g = E.read(st, src), E.read(st, at)
        a, b = (z3.Const(fresh_name("ghost"), x.sort()) for x in (f, g))
        E.facts += [a == f, b == g]
        last = upto if cur is None else upto + 1
        return [v.n >= 0,
                forall([q], Implies(And(q >= 0, q < v.n), And(a[q] >= 0, a[q] < last, v.d[q] >= 0, v.d[q] < S.n, match(a[q], v.d[q]), b[a[q]][v.d[q]] == q,
                                                              T if cur is None else Or(a[q] < upto, v.d[q] < p_upto))), patterns=[v.d[q]]),
                forall([s, p], Implies(And(s >= 0, p >= 0, p < S.n, match(s, p), s < upto if cur is None else Or(s < upto, And(s == upto, p < p_upto))),
                                       And(b[s][p] >= 0, b[s][p] < v.n, a[b[s][p]] == s, v.d[b[s][p]] == p)), patterns=[b[s][p]])]

    def outer(c):
        return [c.idx >= 0, c.idx <= wv.n] + found(c.st, named(E, c["states_indices"]), c.idx)

    def inner(c):
        o = cur["s"]
        return [c.idx >= 0, c.idx <= S.n, gen(o)] + found(c.st, named(E, c["states_indices"]), o, True, c.idx)
    qn = cl + "::getOverlap"
    E.loops[(qn, 0)], E.loops[(qn, 1)] = {"inv": outer}, {"inv": inner}

    def over(E, st, a):
        v = named(E, E.read(st, a.lv(0)))
        for n, g in enumerate(found(st, v, wv.n)):
            E.prove("the indices are those of the states that match, once for every match, part %d" % (n + 1), g, st)
        E.prove("the angles are passed on", And(*[x == a.val(i + 1) for i, x in enumerate(ang)]), st)
        E.write(st, this.sub(("f", "$done")), T)
        return Vec("double", z3.IntVal(0), z3.K(I, ZERO))
    E.contracts[qn] = over
    E.run(st, qn, this, [w] + ang, ptypes=["const std::vector<State", "double", "double", "double"])
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("the overlap is calculated", E.read(st, this).f["$done"])


@each("getStateIndex of a list", ["SystemBase::getStateIndex"])
def state_indices(E, cl):
    st, this, r, B, cplx = by_entries(E, cl)
    w, wv, match, gen, known, pos, cur = searched(E, cl, st, this, r)
    q = z3.Int("q")

    def inv(c):
        v = named(E, c["indices"])
        return [c.idx >= 0, c.idx <= wv.n, v.n == c.idx,
                forall([q], Implies(And(q >= 0, q < c.idx), And(Not(gen(q)), known(q), v.d[q] == pos(q))), patterns=[v.d[q], known(q)])]
    E.loops["*"] = {"inv": inv}
    v = E.run(st, cl + "::getStateIndex", this, [w], ptypes=["const std::vector<"])
    x = st.mem["$exc"]
    E.prove("the index of every state, in order", Implies(And(Not(x), q >= 0, q < wv.n), And(v.n == wv.n, Not(gen(q)), known(q), v.d[q] == pos(q))))
    E.prove("refused only if a state is generalized or unknown", Implies(x, Not(forall([q], Implies(And(q >= 0, q < wv.n), And(Not(gen(q)), known(q)))))))


# ---------------------------------------------------------------- effective Hamiltonians


@each("applySchriefferWolffTransformation", ["SystemBase::applySchriefferWolffTransformation"])
def schrieffer_wolff(E, cl):
    """assumed of Eigen: sqrt() is the principal square root of a matrix, here the direct rotation R of the wanted space onto
    the unperturbed one: unitary, and R P = P0 R"""
    st, this, r, B, cplx = by_entries(E, cl)
    con = E.contracts
    o = E.fresh(cl, "system0")
    o.f["basisvectors"], o.f["hamiltonian"] = mat_atom("B0"), mat_atom("H0")
    o.f["states"] = states_vec(E, st, cl.split(", ")[1][:-1], "states0")
    other = E.alloc(st, o, "system0")
    un, un0, dia = z3.Bools("unitary unitary0 diagonal0")
    con[cl + "::diagonalize"] = lambda E, st, a: None

    def unitary(E, st, a):
        m = E.read(st, a.lv(0))
        return un if list(m.t) == [(("B", False),)] else un0
    con[cl + "::checkIsUnitary"] = unitary
    con[cl + "::checkIsDiagonal"] = lambda E, st, a: (E.prove("the unperturbed Hamiltonian is checked", mat_eq(E.read(st, a.lv(0)), mat_atom("H0")), st), dia)[1]
    tab = triplets(E, cplx)
    con["Eigen::SparseMatrix::resize"] = lambda E, st, a: E.write(st, a.this(), Mat({}))
    con["Eigen::SparseMatrixBase::cwiseAbs2"] = con["Eigen::SparseMatrixBase::cwiseAbs"] = lambda E, st, a: mat_atom("moduli")
    con["Eigen::DenseBase::Ones"] = lambda E, st, a: mat_atom("ones")
    con["Eigen::MatrixBase::Identity"] = lambda E, st, a: Mat({(): Cx(ONE, ZERO)})

    # assumed of the standard library: a permutation of the columns, the wanted ones (largest overlap) first
    def order(E, st, a):
        lv = a.val(0)
        lv = LV(lv.root, lv.path[:-1])
        v = E.fresh_like(E.read(st, lv))
        i, j = z3.Ints("i j")
        E.facts += [v.n == B.cols, forall([i], Implies(And(i >= 0, i < v.n), And(v.d[i] >= 0, v.d[i] < B.cols)), patterns=[v.d[i]])]
        E.write(st, lv, v)
    con["std::iota"] = con["std::nth_element"] = order
    con["Eigen::Matrix::Matrix"] = lambda E, st, a: E.read(st, a.val(0)) if isinstance(a.val(0), LV) else a.val(0)
    for c in ("Eigen::SparseMatrix", "Eigen::SparseCompressedBase", "Eigen::EigenBase", "Eigen::SparseMatrixBase"):
        def cols(E, st, a, other=con.get(c + "::cols")):
            m = a.thisv_or_val()
            return c0 if isinstance(m, Mat) and list(m.t) == [(("T0", False), ("B0", False))] else other(E, st, a)
        con[c + "::cols"] = cols
    roots = []

    def root(E, st, a):
        roots.append(a.thisv_or_val())
        return mat_atom("R")
    con["Eigen::MatrixBase::sqrt"] = root
    con["Eigen::MatrixBase::sparseView"] = con["Eigen::DenseBase::sparseView"] = lambda E, st, a: a.thisv_or_val()
    con["Eigen::SparseMatrix::coeffRef"] = lambda E, st, a: E.alloc(st, Cx(ZERO, ZERO) if cplx else ZERO)
    con["std::isnan"] = con["isnan"] = lambda E, st, a: F
    con["std::abs"] = lambda E, st, a: ZERO
    con["Eigen::SparseMatrix::SparseMatrix"] = lambda E, st, a: (E.read(st, a.val(0)) if isinstance(a.val(0), LV) else a.val(0)) if a.n == 1 else Mat({})
    S, S0 = r.f["states"], o.f["states"]
    q, i = z3.Ints("q i")
    b0 = mat_mul(mat_atom("T0"), mat_atom("B0"))
    c0 = entries(E, b0, cplx).cols
    E.assume(And(c0 <= B.cols, c0 >= 1, S.n >= 1))

    def same_state(x, y):
        """the x-th state of the system is the y-th one of the unperturbed system"""
        c = []
        tmap(lambda u, v: c.append(z3.Select(u, x) == z3.Select(v, y)) or u, S.d.f["state"], S0.d.f["state"])
        return And(x >= 0, x < S.n, *c)

    def sel(v, upto):
        x, y, val = tri(v, q)
        return forall([q], Implies(And(q >= 0, q < upto), And(same_state(x, q), y == q, unit(val))), patterns=[x])

    def inv0(c):
        v = named(E, c["transformator_triplets"])
        return [c.idx >= 0, c.idx <= S0.n, v.n == c.idx, sel(v, c.idx)]

    def inv1(c):
        v, w = named(E, c["transformator_triplets"]), named(E, c["indices"])
        x, y, val = tri(v, q)
        return [c["i"] >= 0, c["i"] <= c0, v.n == c["i"], w.n == B.cols,
                forall([q], Implies(And(q >= 0, q < w.n), And(w.d[q] >= 0, w.d[q] < B.cols)), patterns=[w.d[q]]), forall([q], Implies(And(q >= 0, q < c["i"]), And(x == w.d[q], y == q, unit(val))), patterns=[x])]
    qn = cl + "::applySchriefferWolffTransformation"
    E.loops[(qn, 0)], E.loops[(qn, 1)] = {"inv": inv0}, {"inv": inv1}
    done = this.sub(("f", "$done"))
    E.write(st, done, F)
    sft = con["Eigen::SparseMatrix::setFromTriplets"]

    def from_triplets(E, st, a):
        sft(E, st, a)
        v = named(E, tab["[*T%d]" % (len(tab) - 1)][1])
        if len(tab) == 1:
            E.prove("states of the unperturbed system are found in the system", And(v.n == S0.n, sel(v, S0.n)), st)
    con["Eigen::SparseMatrix::setFromTriplets"] = from_triplets
    A_ = lambda n, adj=False: ((n, adj),)
    # B is unitary; the columns of b0 = T0 B0 are orthonormal; R is unitary and takes the wanted space to the unperturbed one
    rules = [(A_("B") + A_("B", True), ()), (A_("B", True) + A_("B"), ()), (A_("R") + A_("R", True), ()),
             (A_("B0", True) + A_("T0", True) + A_("T0") + A_("B0"), ())]
    one = Mat({(): Cx(ONE, ZERO)})
    eq = lambda x, y: mat_eq(rewrite(x, rules), rewrite(y, rules))

    def apply(E, st, a):
        t = E.read(st, a.lv(0))
        b = mat_mul(mat_atom("B"), t)
        E.prove("the new basis vectors are the unperturbed ones, rotated into the wanted space", eq(b, mat_mul(mat_adj(mat_atom("R")), b0)), st)
        E.prove("they are orthonormal", eq(mat_mul(mat_adj(b), b), one), st)
        p0 = mat_mul(b0, mat_adj(b0))
        bl = mat_mul(mat_atom("B"), mat_atom("T1"))
        p = mat_mul(bl, mat_adj(bl))
        two = Cx(R("2"), ZERO)
        E.prove("R is the root of the product of both reflections", z3.BoolVal(len(roots) == 1), st)
        E.prove("R is the root of the product of both reflections",
                mat_eq(roots[-1], mat_mul(mat_add(one, mat_neg(mat_scale(two, p0))), mat_add(one, mat_neg(mat_scale(two, p))))), st)
        E.write(st, done, T)
    con[cl + "::applyRightsideTransformator"] = apply
    E.run(st, qn, this, [other])
    x = st.mem["$exc"]
    E.prove("applied unless refused", E.read(st, done) == Not(x))
    E.prove("refused if a basis is not unitary or the unperturbed Hamiltonian is not diagonal", Implies(Not(And(un, un0, dia)), x))
    E.prove("a refused call changes nothing", And(mat_eq(E.read(st, this).f["basisvectors"], mat_atom("B")), mat_eq(E.read(st, this).f["hamiltonian"], mat_atom("H"))))
