"""Hamiltonians do not depend on the history of the system."""
from driver import task
from values import *  # noqa: F401,F403
import z3

LEVEL = "proof"
HARNESS = {"main": "s13.cpp", "srcs": ["State.cpp", "StateOld.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp", "Wavefunction.cpp", "WignerD.cpp", "GreenTensor.cpp", "SystemBase.cpp", "SystemOne.cpp", "SystemTwo.cpp"], "n": (120, 3000), "flags": []}
RULE = "random sequences of parameter changes and of building, diagonalizing and canonicalizing, compared with a fresh system"
ASSUME = ["the eigenvectors of LAPACK's eigen-decomposition are unitary and diagonalize the matrix they are asked for; eigenvectors below the threshold set to zero",
          "the virtual methods initializeBasis, initializeInteraction, addInteraction, transformInteraction, rotateStates are used through their contracts (what they compute is decided by S15 and S16)",
          "the interaction is rotated in the unperturbed basis, whose span is taken to be invariant under rotations (rotate)",
          "entries are real numbers, not doubles; sparse matrix products, sums and adjoints are Eigen's; onlyzeros tests a matrix for its zero value",
          "the bodies of sparse loops (triplets to matrices) of updateEverything are outside the reach of the verifier: exercised by the bounded search"]

TU = "SystemBase.cpp"
INST = ["SystemBase<%s, %s>" % (t, s) for t in ("std::complex<double>", "double") for s in ("StateOne", "StateTwo")]
EMPTY = (("#empty", False),)
SZ = "Eigen::SparseMatrixBase::size"
ID = Mat({(): Cx(ONE, ZERO)})


def rewrite(m, rules):
    """replace the first occurrence of the left side of a rule (a word of atoms) by the right side, until none is left"""
    t = {}
    for w, c in m.t.items():
        again = True
        while again:
            again = False
            for lhs, rhs in rules:
                for i in range(len(w) - len(lhs) + 1):
                    if w[i:i + len(lhs)] == lhs:
                        w, again = w[:i] + rhs + w[i + len(lhs):], True
                        break
        t[w] = cadd(t[w], c) if w in t else c
    return Mat(t)


def A(n, adj=False):
    return ((n, adj),)


def gate(h, m):
    """m if h, else the empty matrix"""
    f = {w: Cx(ite(h, c.re, ZERO), ite(h, c.im, ZERO)) for w, c in m.t.items()}
    f[EMPTY] = Cx(ite(h, ZERO, ONE), ZERO)
    return Mat(f)


class Sys:
    """a system whose basis has been built. B0, H0: basis vectors and Hamiltonian without interaction; V: the interaction
    at the current parameters, in the basis B0; Q: what was done to the basis since (unitary); X: the interaction at the
    parameters the Hamiltonian was last built for"""

    def __init__(self, E, cl, con):
        self.E, self.cl, self.is_con = E, cl, con
        self.st = st = E.new_state()
        self.B0, self.H0, self.V, self.X, self.Q = (mat_atom(n) for n in ("B0", "H0", "V", "X", "Q"))
        # Q is unitary, the columns of B0 are orthonormal
        self.rules = [(A("Q") + A("Q", True), ()), (A("Q", True) + A("Q"), ()), (A("B0", True) + A("B0"), ())]
        r = E.fresh(cl, "s")
        self.ms, self.con, self.req = (z3.Bool(n) for n in ("memory_saving", "contained", "required"))
        r.f["memory_saving"], r.f["is_interaction_already_contained"], r.f["is_new_hamiltonian_required"] = self.ms, self.con, self.req
        # cached: the unperturbed matrices are stored
        self.cached = z3.Bool("cached")
        E.assume(self.invariant())
        E.assume(self.con == z3.BoolVal(con))
        if not con:
            self.Q = ID     # then the unperturbed basis is the current one
        h = mat_add(self.H0, self.X) if con else self.H0
        h = mat_mul(mat_mul(mat_adj(self.Q), h), self.Q)
        r.f["basisvectors"], r.f["hamiltonian"] = mat_mul(self.B0, self.Q), h
        r.f["basisvectors_unperturbed_cache"] = gate(self.cached, self.B0)
        r.f["hamiltonian_unperturbed_cache"] = gate(self.cached, self.H0)
        self.this = E.alloc(st, r, "s")
        self.log = []
        E.contracts[SZ] = self.size
        for n, f in (("buildBasis", self.noop), ("initializeInteraction", self.init), ("addInteraction", self.addi),
                     ("deleteInteraction", self.noop)):
            E.contracts[cl + "::" + n] = f

    def invariant(self):
        """the interaction is contained and can be taken out again exactly if the unperturbed matrices are stored; a new
        Hamiltonian is required after the interaction was added only if it can be taken out"""
        return And(Implies(self.cached, And(self.con, Not(self.ms))), Implies(And(self.con, self.req), self.cached))

    def size(self, E, st, a):
        v = a.thisv_or_val()
        c = v.t.get(EMPTY)
        n = z3.Int(fresh_name("size"))
        E.facts.append(n >= 0)
        E.facts.append((n == 0) == (c.re != 0 if c is not None else z3.BoolVal(False)))
        return n

    def noop(self, E, st, a):
        return None

    def f(self, n, st=None):
        return self.E.read(st or self.st, self.this).f[n]

    def eq(self, a, b):
        return mat_eq(rewrite(a, self.rules), rewrite(b, self.rules))

    def init(self, E, st, a):
        E.prove("the interaction is initialized in the unperturbed basis", self.eq(self.f("basisvectors", st), self.B0), st)

    def addi(self, E, st, a):
        E.prove("the interaction is added in the unperturbed basis", self.eq(self.f("basisvectors", st), self.B0), st)
        E.prove("the interaction is added to the unperturbed Hamiltonian", self.eq(self.f("hamiltonian", st), self.H0), st)
        E.write(st, self.this.sub(("f", "hamiltonian")), mat_add(self.f("hamiltonian", st), self.V))

    def op(self):
        """the Hamiltonian as an operator"""
        b = self.f("basisvectors")
        return mat_mul(mat_mul(b, self.f("hamiltonian")), mat_adj(b))

    def wanted(self):
        """at the current parameters"""
        E, z = self.E, ZERO
        x = mat_add(self.H0, self.V)
        o = mat_add(self.H0, self.X) if self.is_con else self.H0
        t = {}
        for m, c in ((x, self.req), (o, Not(self.req))):
            for w, k in m.t.items():
                k = Cx(ite(c, k.re, z), ite(c, k.im, z))
                t[w] = cadd(t[w], k) if w in t else k
        return mat_mul(mat_mul(self.B0, Mat(t)), mat_adj(self.B0))


# ---------------------------------------------------------------- buildHamiltonian, buildInteraction, onParameterChange


def each(name, fns):
    def deco(f):
        for cl in INST:
            for con in (False, True):
                def g(E, cl=cl, con=con):
                    f(E, cl, con)
                task("%s of %s%s" % (name, cl, " with interaction" if con else ""), [TU], functions=fns)(g)
        return f
    return deco


@each("buildHamiltonian", ["SystemBase::buildHamiltonian"])
def build_hamiltonian(E, cl, con):
    s = Sys(E, cl, con)
    E.run(s.st, cl + "::buildHamiltonian", s.this, [])
    ok = Not(s.st.mem["$exc"])
    E.prove("no exception", ok)
    E.prove("the Hamiltonian is the one of the current parameters", Implies(ok, s.eq(s.op(), s.wanted())))
    E.prove("no new Hamiltonian is required", Implies(ok, Not(s.f("is_new_hamiltonian_required"))))
    E.prove("the interaction is contained if it was or was added", s.f("is_interaction_already_contained") == Or(s.con, s.req))
    # the interaction can be taken out again exactly if the unperturbed matrices are stored
    now = And(s.f("is_interaction_already_contained"), Not(s.ms))
    if con:
        now = s.cached
    for n, m in (("basisvectors", s.B0), ("hamiltonian", s.H0)):
        E.prove("unperturbed " + n, Implies(now, s.eq(s.f(n + "_unperturbed_cache"), m)))
    E.cover("a new Hamiltonian", And(s.req, ok))
    E.cover("nothing to do", And(Not(s.req), ok))


@each("buildInteraction", ["SystemBase::buildInteraction"])
def build_interaction(E, cl, con):
    s = Sys(E, cl, con)
    called = []
    init = E.contracts[cl + "::initializeInteraction"]
    E.contracts[cl + "::initializeInteraction"] = lambda E, st, a: (
        called.append(1),
        E.prove("the interaction is initialized in the unperturbed basis", Implies(Or(s.req, Not(s.con)), s.eq(s.f("basisvectors", st), s.B0)), st))[2:]
    E.run(s.st, cl + "::buildInteraction", s.this, [])
    E.prove("no exception", Not(s.st.mem["$exc"]))
    E.prove("flags", And(s.f("is_new_hamiltonian_required") == s.req, s.f("is_interaction_already_contained") == s.con))
    E.prove("an up-to-date Hamiltonian is not changed", Implies(Not(s.req), s.eq(s.op(), s.wanted())))
    for n, m in (("basisvectors", s.B0), ("hamiltonian", s.H0)):
        E.prove("unperturbed " + n, s.eq(s.f(n + "_unperturbed_cache"), gate(s.cached, m)))


@each("onParameterChange", ["SystemBase::onParameterChange"])
def on_parameter_change(E, cl, con):
    s = Sys(E, cl, con)
    E.run(s.st, cl + "::onParameterChange", s.this, [])
    x = s.st.mem["$exc"]
    E.prove("refused exactly if the interaction cannot be taken out", x == And(s.con, Not(s.cached)))
    E.prove("a new Hamiltonian is required", Implies(Not(x), s.f("is_new_hamiltonian_required")))
    E.prove("a refused change leaves the flag", Implies(x, s.f("is_new_hamiltonian_required") == s.req))
    E.prove("nothing else is changed", And(s.eq(s.f("basisvectors"), mat_mul(s.B0, s.Q)), s.f("is_interaction_already_contained") == s.con,
                                           s.eq(s.f("basisvectors_unperturbed_cache"), gate(s.cached, s.B0)),
                                           s.eq(s.f("hamiltonian_unperturbed_cache"), gate(s.cached, s.H0))))
    if con:
        E.cover("refused", x)
    E.cover("accepted", Not(x))


# ---------------------------------------------------------------- changes of the basis


def built(E, cl, con):
    """a system whose Hamiltonian is up to date"""
    s = Sys(E, cl, con)
    E.assume(Not(s.req))
    E.contracts[cl + "::buildHamiltonian"] = s.noop
    s.v = mat_atom("VU")        # the interaction matrices kept by the derived class, in the unperturbed basis
    E.write(s.st, s.this.sub(("f", "$V")), s.v)

    def transform(E, st, a):
        t = a.val(0)
        v = s.f("$V", st)
        E.write(st, s.this.sub(("f", "$V")), mat_mul(mat_mul(mat_adj(t), v), t))
    E.contracts[cl + "::transformInteraction"] = transform
    return s


@each("canonicalize", ["SystemBase::canonicalize"])
def canonicalize(E, cl, con):
    s = built(E, cl, con)
    E.run(s.st, cl + "::canonicalize", s.this, [])
    E.prove("no exception", Not(s.st.mem["$exc"]))
    E.prove("the Hamiltonian is the same operator", s.eq(s.op(), s.wanted()))
    b = s.f("basisvectors")
    E.prove("the space spanned is the same", s.eq(mat_mul(b, mat_adj(b)), mat_mul(s.B0, mat_adj(s.B0))))
    E.prove("the Hamiltonian is given in the basis of states", s.eq(s.f("hamiltonian"), s.wanted()))
    kept(E, s)


def kept(E, s):
    for n, m in (("basisvectors", s.B0), ("hamiltonian", s.H0)):
        E.prove("unperturbed %s kept" % n, s.eq(s.f(n + "_unperturbed_cache"), gate(s.cached, m)))
    E.prove("flags kept", And(s.f("is_new_hamiltonian_required") == s.req, s.f("is_interaction_already_contained") == s.con))
    E.prove("interaction matrices kept in the unperturbed basis", s.eq(s.f("$V"), s.v))


@each("rotate", ["SystemBase::rotate"])
def rotate(E, cl, con):
    s = built(E, cl, con)
    R_ = mat_atom("R")
    E.contracts[cl + "::buildStaterotator"] = lambda E, st, a: R_
    h = s.f("hamiltonian")
    E.run(s.st, cl + "::rotate", s.this, [z3.Real(x) for x in ("alpha", "beta", "gamma")], ptypes=["double"] * 3)
    E.prove("no exception", Not(s.st.mem["$exc"]))
    b0 = mat_mul(R_, s.B0)
    E.prove("basis vectors rotated", s.eq(s.f("basisvectors"), mat_mul(b0, s.Q)))
    E.prove("unperturbed basis vectors rotated", s.eq(s.f("basisvectors_unperturbed_cache"), gate(s.cached, b0)))
    E.prove("Hamiltonian rotates along", s.eq(s.f("hamiltonian"), h))
    E.prove("unperturbed Hamiltonian rotates along", s.eq(s.f("hamiltonian_unperturbed_cache"), gate(s.cached, s.H0)))
    v = mat_mul(mat_mul(mat_mul(s.B0, s.v), mat_adj(s.B0)), b0)
    E.prove("the interaction stays, expressed in the rotated basis", Implies(Or(Not(s.con), s.cached), s.eq(s.f("$V"), mat_mul(mat_adj(b0), v))))


@each("applyRightsideTransformator", ["SystemBase::applyRightsideTransformator"])
def right(E, cl, con):
    s = built(E, cl, con)
    t = mat_atom("T")
    lv = E.alloc(s.st, t, "t")
    b, h = s.f("basisvectors"), s.f("hamiltonian")
    E.run(s.st, cl + "::applyRightsideTransformator", s.this, [lv], ptypes=["Eigen::SparseMatrix"])
    sand = lambda m: mat_mul(mat_mul(mat_adj(t), m), t)
    E.prove("no exception", Not(s.st.mem["$exc"]))
    E.prove("basis vectors", s.eq(s.f("basisvectors"), mat_mul(b, t)))
    E.prove("Hamiltonian", s.eq(s.f("hamiltonian"), sand(h)))
    E.prove("unperturbed basis vectors", s.eq(s.f("basisvectors_unperturbed_cache"), gate(s.cached, mat_mul(s.B0, t))))
    E.prove("unperturbed Hamiltonian", s.eq(s.f("hamiltonian_unperturbed_cache"), gate(s.cached, sand(s.H0))))
    E.prove("interaction", s.eq(s.f("$V"), sand(s.v)))


@each("applyLeftsideTransformator", ["SystemBase::applyLeftsideTransformator"])
def left(E, cl, con):
    s = built(E, cl, con)
    t = mat_atom("T")
    lv = E.alloc(s.st, t, "t")
    b, h = s.f("basisvectors"), s.f("hamiltonian")
    E.run(s.st, cl + "::applyLeftsideTransformator", s.this, [lv], ptypes=["Eigen::SparseMatrix"])
    E.prove("no exception", Not(s.st.mem["$exc"]))
    E.prove("basis vectors", s.eq(s.f("basisvectors"), mat_mul(t, b)))
    E.prove("Hamiltonian", s.eq(s.f("hamiltonian"), h))
    E.prove("unperturbed basis vectors", s.eq(s.f("basisvectors_unperturbed_cache"), gate(s.cached, mat_mul(t, s.B0))))
    E.prove("unperturbed Hamiltonian", s.eq(s.f("hamiltonian_unperturbed_cache"), gate(s.cached, s.H0)))
    E.prove("interaction", s.eq(s.f("$V"), s.v))


@each("diagonalize", ["SystemBase::diagonalize"])
def diagonalize(E, cl, con):
    """assumed of LAPACK: for a Hermitian matrix given by its upper triangle it returns orthonormal eigenvectors as columns
    of the matrix and the eigenvalues, in the same order"""
    s = built(E, cl, con)
    HERM_ATOMS.update(("H0", "X"))
    try:
        thr = z3.Real("threshold")
        h0, b0 = s.f("hamiltonian"), s.f("basisvectors")
        n = z3.Int("n")
        E.assume(n >= 1)
        ev = z3.Function("eigenvalue", z3.IntSort(), z3.RealSort())
        diag = z3.Bool("is_diagonal")
        s.rules += [(A("E") + A("E", True), ()), (A("E", True) + A("E"), ())]
        E.contracts[cl + "::checkIsDiagonal"] = lambda E, st, a: diag
        con_ = E.contracts
        con_["Eigen::SparseMatrix::cols"] = con_["Eigen::SparseMatrix::rows"] = lambda E, st, a: n
        for c in ("Eigen::Matrix", "Eigen::PlainObjectBase", "Eigen::EigenBase", "Eigen::DenseBase", "Eigen::DenseCoeffsBase"):
            con_[c + "::outerStride"] = con_[c + "::rows"] = con_[c + "::cols"] = con_[c + "::size"] = lambda E, st, a: n
            con_[c + "::data"] = lambda E, st, a: a.this()
            con_[c + "::coeffRef"] = con_[c + "::operator()"] = con_[c + "::operator[]"] = lambda E, st, a: E.alloc(st, ev(a.val(0)))
        con_["Eigen::DenseBase::sparseView"] = con_["Eigen::MatrixBase::sparseView"] = con_["Eigen::SparseMatrixBase::sparseView"] = lambda E, st, a: a.thisv_or_val()

        def matrix(E, st, a):
            v = a.val(0)
            v = E.read(st, v) if isinstance(v, LV) else v
            return v if isinstance(v, Mat) else Opaque("values")
        con_["Eigen::Matrix::Matrix"] = matrix
        info = z3.Int("info")

        def lapack(E, st, a):
            E.prove("eigenvectors are asked for", And(a.val(1) == ord("V"), Or(a.val(2) == ord("U"), a.val(2) == ord("L"))), st)
            E.prove("the size is the one of the Hamiltonian", And(a.val(3) == n, a.val(5) == n), st)
            m = E.read(st, a.val(4))
            E.prove("the Hamiltonian is diagonalized", s.eq(m, s.f("hamiltonian", st)), st)
            E.prove("the matrix is Hermitian", mat_eq(mat_adj(m), m), st)
            E.write(st, a.val(4), mat_atom("E"))
            return info
        con_["LAPACKE_evd"] = lapack

        # the new Hamiltonian: row k of the diagonal is the k-th eigenvalue; filled counts the rows
        def set_zero(E, st, a):
            E.write(st, s.this.sub(("f", "$filled")), z3.IntVal(0))
            E.write(st, a.this(), Mat({}))

        def insert(E, st, a):
            k = s.f("$filled", st)
            E.prove("eigenvalues are put on the diagonal, each once", And(a.val(0) == k, a.val(1) == k, k < n), st)
            E.write(st, s.this.sub(("f", "$filled")), k + 1)
            return s.this.sub(("f", "$last"))

        def compress(E, st, a):
            E.prove("every eigenvalue is on the diagonal", s.f("$filled", st) == n, st)
            e = mat_atom("E")
            E.write(st, a.this(), mat_mul(mat_mul(mat_adj(e), h0), e))
        con_["Eigen::SparseMatrix::setZero"], con_["Eigen::SparseMatrix::insert"] = set_zero, insert
        con_["Eigen::SparseMatrix::makeCompressed"] = compress
        con_["Eigen::SparseMatrix::reserve"] = lambda E, st, a: None
        con_["Eigen::SparseMatrixBase::pruned"] = lambda E, st, a: mat_atom("pruned")
        E.write(s.st, s.this.sub(("f", "$filled")), z3.IntVal(0))
        E.write(s.st, s.this.sub(("f", "$last")), E.fresh("std::complex<double>" if "complex" in cl else "double", "last"))

        def inv(c):
            l = cx(s.f("$last", c.st))
            i = c["idx"]
            return And(i >= 0, i <= n, s.f("$filled", c.st) == i, Implies(i > 0, And(l.re == ev(i - 1), l.im == 0)),
                       mat_eq(s.f("hamiltonian", c.st), Mat({})))
        E.loops["*"] = {"inv": inv}
        E.run(s.st, cl + "::diagonalize", s.this, [thr], ptypes=["double"])
        ok = Not(s.st.mem["$exc"])
        E.prove("fails only if LAPACK does", Implies(s.st.mem["$exc"], And(info != 0, Not(diag))))
        E.prove("a failure changes nothing", Implies(s.st.mem["$exc"], And(s.eq(s.f("hamiltonian"), h0), s.eq(s.f("basisvectors"), b0))))
        E.prove("the Hamiltonian is the same operator", Implies(And(ok, thr == 0), s.eq(s.op(), s.wanted())))
        b = s.f("basisvectors")
        E.prove("basis vectors stay orthonormal", Implies(And(ok, thr == 0), s.eq(mat_mul(mat_adj(b), b), ID)))
        E.prove("the space spanned is the same", Implies(And(ok, thr == 0), s.eq(mat_mul(b, mat_adj(b)), mat_mul(s.B0, mat_adj(s.B0)))))
        kept(E, s)
        E.cover("diagonalized", And(ok, Not(diag), thr == 0))
    finally:
        HERM_ATOMS.difference_update(("H0", "X"))


@each("buildBasis", ["SystemBase::buildBasis", "SystemBase::forgetRestrictions"])
def build_basis(E, cl, con):
    if con:
        return
    st = E.new_state()
    r = E.fresh(cl, "s")
    this = E.alloc(st, r, "s")
    empty = z3.Bool("no_states")
    sizes = {"basisvectors": z3.Int("vectors_size"), "hamiltonian": z3.Int("hamiltonian_size")}
    log = {n: z3.BoolVal(False) for n in ("initializeBasis", "updateEverything")}
    for n in log:
        E.write(st, this.sub(("f", "$" + n)), z3.BoolVal(False))
    rows, cols = z3.Int("rows"), z3.Int("cols")
    E.contracts[SZ] = lambda E, st, a: sizes["hamiltonian" if "hamiltonian" in str(a.this()) else "basisvectors"]
    E.contracts["Eigen::SparseMatrix::rows"] = lambda E, st, a: rows
    E.contracts["Eigen::SparseMatrix::cols"] = lambda E, st, a: cols
    E.contracts["boost::multi_index::multi_index_container::empty"] = E.contracts["boost::multi_index::detail::random_access_index::empty"] = lambda E, st, a: empty
    for n in log:
        def f(E, st, a, n=n):
            E.write(st, this.sub(("f", "$" + n)), z3.BoolVal(True))
        E.contracts[cl + "::" + n] = f
    lo, hi = -z3.Real("realmax_double"), z3.Real("realmax_double")
    sets = ("range_n", "range_l", "range_j", "range_m", "states_to_add")

    def none(f):
        """nothing restricted, nothing to add"""
        return And(*[f[n].dom == z3.K(f[n].dom.sort().domain(), z3.BoolVal(False)) for n in sets], f["energy_min"] == lo, f["energy_max"] == hi)

    def update(E, st, a):
        # assumed (proved for updateEverything in S17): it ends by forgetting the restrictions
        E.write(st, this.sub(("f", "$updateEverything")), z3.BoolVal(True))
        E.run(st, cl + "::forgetRestrictions", this, [])
    E.contracts[cl + "::updateEverything"] = update
    E.run(st, cl + "::buildBasis", this, [])
    f = E.read(st, this).f
    x = st.mem["$exc"]
    bad = Or((sizes["hamiltonian"] == 0) != empty, (sizes["hamiltonian"] == 0) != (sizes["basisvectors"] == 0))
    n0 = none(r.f)
    ini, upd = f["$initializeBasis"], f["$updateEverything"]
    E.prove("an inconsistent system is refused before anything is done", Implies(bad, And(x, Not(ini), Not(upd))))
    E.prove("a basis is built from scratch exactly if there is none", Implies(Not(bad), ini == empty))
    E.prove("a basis is updated exactly if it exists and is restricted", Implies(Not(bad), upd == And(Not(empty), Not(n0))))
    E.prove("without new restrictions nothing is refused", Implies(And(Not(bad), Not(empty), n0), Not(x)))
    E.prove("an empty basis is refused", Implies(And(Not(bad), Or(ini, upd)), x == Or(rows == 0, cols == 0)))
    E.prove("afterwards nothing is restricted any more", Implies(Not(x), none(f)))
    same = And(*[f[n].dom == r.f[n].dom for n in sets], f["energy_min"] == r.f["energy_min"], f["energy_max"] == r.f["energy_max"])
    E.prove("restrictions that were refused are kept", Implies(And(x, Not(upd)), same))
    E.cover("built", And(ini, Not(x)))
    E.cover("updated", And(upd, Not(x)))
    E.cover("nothing to do", And(Not(ini), Not(upd), Not(x)))
