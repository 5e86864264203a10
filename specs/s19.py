"""Hamiltonian matrices with their basis: arithmetic acts on the entries and keeps the basis, a change of basis is the
product of matrices, selections keep exactly the wanted vectors and states with their entries, and what is serialized is
the matrix as it is now and is read back unchanged."""
from fractions import Fraction

import z3

from driver import task
from s14 import ceq, mod, mods, tri, triplets, unit
from sparse import abs2, entries, forall, install, key, named
from vc import VOID
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s19.cpp", "srcs": ["Hamiltonianmatrix.cpp", "Basisnames.cpp", "StateOld.cpp", "QuantumDefect.cpp"], "n": (200, 6000), "flags": []}
RULE = "random matrices and random operations against dense matrices, bytes and files read back; distinct by content"
ASSUME = ["Eigen: sums, products, adjoints and scalings do what they document; setFromTriplets makes the matrix of the triplets; makeCompressed keeps the matrix; a compressed matrix is its sizes and three arrays",
          "std::copy and the constructor of a vector from a range copy the range; the iterators of a column visit its stored entries once each",
          "entries are real numbers, not doubles",
          "Serializer (bytes), files, diagonalize, combine and energycutoff are exercised by the bounded search only (combine: not at all)"]
TU = "Hamiltonianmatrix.cpp"
S = {"double": False, "std::complex<double>": True}


def each(name, fns, n=None):
    def deco(f):
        for s, c in S.items():
            cl = "Hamiltonianmatrix<%s>" % s
            task("%s: %s" % (cl, name), [TU], functions=fns)(lambda E, cl=cl, c=c: f(E, cl, c))
        return f
    return deco


def matrix(E, st, cl, n, cplx):
    r = E.fresh(cl, n)
    r.f["entries_"], r.f["basis_"] = mat_atom("E" + n), mat_atom("B" + n)
    return E.alloc(st, r, n)


def empty(v):
    return v.n == 0


@each("arithmetic", ["operator+", "operator-", "operator*", "Hamiltonianmatrix::operator+=", "Hamiltonianmatrix::operator-="])
def arithmetic(E, cl, cplx):
    for op, sign in (("+", 1), ("-", -1)):
        st = E.new_state()
        x, y = matrix(E, st, cl, "x", cplx), matrix(E, st, cl, "y", cplx)
        want = mat_add(mat_atom("Ex"), mat_scale(Cx(R(sign), R(0)), mat_atom("Ey")))
        r = E.run(st.copy(), "operator" + op, None, [E.read(st, x), y], ptypes=[cl, cl])
        E.prove("%s: entries are combined" % op, mat_eq(r.f["entries_"], want))
        E.prove("%s: the basis stays" % op, mat_eq(r.f["basis_"], mat_atom("Bx")))
        E.prove("%s: old bytes are forgotten" % op, empty(r.f["bytes"]))
        s = st.copy()
        E.run(s, cl + "::operator%s=" % op, x, [y])
        r = E.read(s, x)
        E.prove("%s=: entries are combined" % op, mat_eq(r.f["entries_"], want))
        E.prove("%s=: the basis stays" % op, mat_eq(r.f["basis_"], mat_atom("Bx")))
        E.prove("%s=: old bytes are forgotten" % op, empty(r.f["bytes"]))
        E.prove("%s=: the right side is left alone" % op, teq(E.read(s, y), E.read(st, y)))
    for t in ["double"] + (["std::complex<double>"] if cplx else []):
        for left in (True, False):
            st = E.new_state()
            x = E.read(st, matrix(E, st, cl, "x", cplx))
            f = E.fresh(t, "factor")
            w = E.alloc(st, f, "factor")
            r = E.run(st, "operator*", None, [w, x] if left else [x, w],
                      ptypes=["const %s &" % t, cl] if left else [cl, "const %s &" % t])
            n = "%s * %s" % ((t, "matrix") if left else ("matrix", t))
            E.prove(n + ": entries are scaled", mat_eq(r.f["entries_"], mat_scale(cx(f), mat_atom("Ex"))))
            E.prove(n + ": the basis stays", mat_eq(r.f["basis_"], mat_atom("Bx")))
            E.prove(n + ": old bytes are forgotten", empty(r.f["bytes"]))


@each("change of basis", ["Hamiltonianmatrix::changeBasis"])
def change(E, cl, cplx):
    st = E.new_state()
    x = matrix(E, st, cl, "x", cplx)
    x0 = E.read(st, x)
    b = E.alloc(st, mat_atom("X"), "b")
    r = E.run(st, cl + "::changeBasis", x, [b])
    t = mat_mul(mat_adj(mat_atom("Bx")), mat_atom("X"))
    E.prove("entries are transformed", mat_eq(r.f["entries_"], mat_mul(mat_mul(mat_adj(t), mat_atom("Ex")), t)))
    E.prove("the basis is the new one", mat_eq(r.f["basis_"], mat_atom("X")))
    E.prove("the matrix is left alone", teq(E.read(st, x), x0))


@each("access", ["Hamiltonianmatrix::entries", "Hamiltonianmatrix::basis", "Hamiltonianmatrix::num_basisvectors", "Hamiltonianmatrix::num_coordinates"])
def access(E, cl, cplx):
    install(E, cplx)
    for n in ("entries", "basis"):
        for c in (True, False):
            st = E.new_state()
            x = matrix(E, st, cl, "x", cplx)
            r = E.call_fn(st, E.P.find(cl + "::" + n, 0, c), x, [])
            E.prove("%s (const=%s): refers to the matrix" % (n, c), z3.BoolVal(r == x.sub(("f", n + "_"))))
            if not c:
                E.prove(n + ": bytes are forgotten as the matrix may be changed", empty(E.read(st, x).f["bytes"]))
    st = E.new_state()
    x = matrix(E, st, cl, "x", cplx)
    B = entries(E, mat_atom("Bx"), cplx)
    E.prove("number of vectors", E.run(st, cl + "::num_basisvectors", x, []) == B.cols)
    E.prove("number of coordinates", E.run(st, cl + "::num_coordinates", x, []) == B.rows)


@each("adding", ["Hamiltonianmatrix::addBasis", "Hamiltonianmatrix::addEntries", "Hamiltonianmatrix::compress"])
def adding(E, cl, cplx):
    for n, t, m in (("addBasis", "triplets_basis", "basis_"), ("addEntries", "triplets_entries", "entries_")):
        st = E.new_state()
        x = matrix(E, st, cl, "x", cplx)
        v0 = E.read(st, x).f[t]
        other = {k: v for k, v in E.read(st, x).f.items() if k != t}
        i, j = [E.fresh("unsigned int", k) for k in "ij"]
        w = E.fresh("std::complex<double>" if cplx else "double", "w")
        E.assume(And(i < 2 ** 31, j < 2 ** 31))
        E.run(st, cl + "::" + n, x, [i, j, w])
        v = E.read(st, x).f[t]
        q = z3.Int("q")
        E.prove(n + ": one more", v.n == v0.n + 1)
        a, b, c = tri(v, v0.n)
        E.prove(n + ": at its place", And(a == i, b == j, ceq(c, w)))
        a, b, c = tri(v, q)
        a0, b0, c0 = tri(v0, q)
        E.prove(n + ": the others stay", Implies(And(q >= 0, q < v0.n), And(a == a0, b == b0, ceq(c, c0))))
        E.prove(n + ": nothing else", And(*[teq(E.read(st, x).f[k], v) for k, v in other.items()]))
    st = E.new_state()
    x = matrix(E, st, cl, "x", cplx)
    r0 = E.read(st, x)
    tab = triplets(E, cplx)
    dims = {}

    def resize(E, st, a):
        lv = a.this()
        dims[lv.path[-1][1]] = (a.val(0), a.val(1))
        E.write(st, lv, mat_atom("Z" + lv.path[-1][1]))
        return VOID
    E.contracts["Eigen::SparseMatrix::resize"] = resize
    nb, nc = E.fresh("unsigned long", "nBasis"), E.fresh("unsigned long", "nCoordinates")
    E.run(st, cl + "::compress", x, [nb, nc])
    r = E.read(st, x)
    for m, t, d in (("basis_", "triplets_basis", (nc, nb)), ("entries_", "triplets_entries", (nb, nb))):
        k = tab.get(key(r.f[m]))
        ok = k is not None and m in dims
        E.prove(m + ": made of its triplets", And(z3.BoolVal(ok), teq(k[1], r0.f[t]) if ok else F))
        E.prove(m + ": dimensions", And(dims[m][0] == d[0], dims[m][1] == d[1], mat_eq(k[0], mat_atom("Z" + m))) if ok else F)
        E.prove(t + ": cleared", empty(r.f[t]))


I, R_ = z3.IntSort(), z3.RealSort()


def selection(name, keep, setup, side="right", nargs=None):
    """functions that keep some of the vectors (or states), in order"""
    @each(name + keep, ["Hamiltonianmatrix::" + name])
    def f(E, cl, cplx):
        E.split_inv = True
        install(E, cplx)
        st = E.new_state()
        x = matrix(E, st, cl, "x", cplx)
        B, H = entries(E, mat_atom("Bx"), cplx), entries(E, mat_atom("Ex"), cplx)
        E.assume(And(B.cols < 2 ** 31 - 1, B.rows < 2 ** 31 - 1))
        tab = triplets(E, cplx)
        dims = []

        def ctor(E, st, a):
            if a.n == 2:
                dims.append((a.val(0), a.val(1)))
                return mat_atom("D%d" % (len(dims) - 1))
            v = a.val(0) if a.n else Mat({})
            return E.read(st, v) if isinstance(v, LV) else v
        E.contracts["Eigen::SparseMatrix::SparseMatrix"] = ctor
        args, kept, extra, total = setup(E, st, cl, B, H, cplx)
        cnt = z3.Function("kept_before", I, I)
        E.facts.append(cnt(0) == 0)
        x0, k0 = z3.Ints("any_vector any_column")
        E.assume(And(x0 >= 0, k0 >= 0))
        one = Cx(R(1), R(0))

        def facts(t, upto):
            p = cnt(x0)

            def is_(q, i, k):
                a, b, c = tri(t, q)
                if side == "left":
                    a, b = b, a
                return And(a == i, b == k, unit(c))
            src = (t.d.f["m_col" if side == "left" else "m_row"])[k0]
            return [t.n == cnt(upto), cnt(upto) >= 0, cnt(upto) <= upto,
                    Implies(And(x0 < upto, kept(x0)), And(p >= 0, p < cnt(upto), is_(p, x0, p))),
                    Implies(k0 < cnt(upto), And(src >= 0, src < upto, kept(src), is_(k0, src, k0)))]

        def inv(c):
            i = c["idx"]
            E.facts.append(cnt(i + 1) == cnt(i) + z3.If(kept(i), 1, 0))
            return [i >= 0, i <= total, c["idxCoordinate" if side == "left" else "idxBasis"] == cnt(i)] + facts(c["triplets_transformator"], i)
        fn = "%s::%s" % (cl, name)
        n = 2 if extra else 0
        E.loops[(fn, n)] = {"inv": inv}
        E.run(st, fn, x, args, nargs=len(args))
        E.prove("no exception", Not(st.mem["$exc"]))
        E.prove("one transformation", z3.BoolVal(len(tab) == 1 and len(dims) == 1))
        (old, v), = tab.values()
        d = (cnt(total), total) if side == "left" else (total, cnt(total))
        E.prove("dimensions of the transformation", And(dims[0][0] == d[0], dims[0][1] == d[1], mat_eq(old, mat_atom("D0"))))
        E.prove("exactly the wanted ones are kept, in order", And(*facts(v, total)))
        r = E.read(st, x)
        T_ = mat_atom("T0")
        if side == "left":
            E.prove("the states are selected", mat_eq(r.f["basis_"], mat_mul(T_, mat_atom("Bx"))))
            E.prove("the entries stay", mat_eq(r.f["entries_"], mat_atom("Ex")))
        else:
            E.prove("the vectors are selected", mat_eq(r.f["basis_"], mat_mul(mat_atom("Bx"), T_)))
            E.prove("with their entries", mat_eq(r.f["entries_"], mat_mul(mat_mul(mat_adj(T_), mat_atom("Ex")), T_)))
        E.prove("old bytes are forgotten", empty(r.f["bytes"]))


def cutoff(E, st, cl, B, H, cplx):
    c = E.fresh("double", "cutoff")
    mods(E, H)
    diag = []

    def diagonal(E, st, a):
        v = a.thisv_or_val()
        E.prove("the diagonal of the entries", mat_eq(v, mat_atom("Ex")), st)
        return Opaque("diagonal")
    E.contracts["Eigen::SparseMatrix::diagonal"] = E.contracts["Eigen::SparseMatrixBase::diagonal"] = diagonal
    for q in ("Eigen::Matrix::Matrix", "Eigen::PlainObjectBase::PlainObjectBase"):
        E.contracts[q] = lambda E, st, a: a.val(0)
    for q in ("Eigen::DenseCoeffsBase::operator[]", "Eigen::Matrix::operator[]", "Eigen::DenseCoeffsBase::operator()"):
        E.contracts[q] = lambda E, st, a: H.val(a.val(0), a.val(0))
    return [c], (lambda i: mod(H, i, i) < c), None, B.cols


def necessary(E, st):
    t = "std::vector<bool, std::allocator<bool>>"
    v = E.alloc(st, E.fresh(t, "necessary"), "necessary")
    return v, E.read(st, v)


def by_states(E, st, cl, B, H, cplx):
    lv, v = necessary(E, st)
    E.assume(v.n == B.rows)
    return [lv], (lambda i: v.d[i]), None, B.rows


def norms(E, cl, B, fn, use=None):
    """loops 0 and 1: the weight of every column (in the states of use, if given)"""
    W = z3.Function("weight_up_to", I, I, R_)
    mods(E, B)
    E.contracts["std::pow"] = E.contracts["pow"] = lambda E, st, a: (E.prove("a square", a.val(1) == 2, st), toreal(a.val(0)) * toreal(a.val(0)))[1]
    c0 = z3.Int("c0")
    k = "k_1"
    vec = "isNecessaryBasisvector"

    def part(c, v, extra):
        col = c[k]
        return [col >= 0, col <= B.cols, v.n == B.cols,
                forall([c0], Implies(And(c0 >= 0, c0 < B.cols), v.d[c0] == extra(c0, col)), patterns=[v.d[c0]])]

    def outer(c):
        E.facts.append(W(c[k], 0) == 0)
        return part(c, named(E, c[vec]), lambda j, col: z3.If(j < col, W(j, B.nz(j)), R(0)))

    def inner(c):
        it = c["triple"]
        row = B.row(it.col, it.pos)
        m = mod(B, row, it.col)
        E.facts.append(W(it.col, it.pos + 1) == W(it.col, it.pos) + (m * m if use is None else z3.If(use(row), m * m, R(0))))
        return [it.pos >= 0, it.pos <= B.nz(it.col), it.col == c[k]] + part(
            c, named(E, c[vec]), lambda j, col: z3.If(j < col, W(j, B.nz(j)), z3.If(j == col, W(col, it.pos), R(0))))
    E.loops[(fn, 0)] = {"inv": outer}
    E.loops[(fn, 1)] = {"inv": inner}
    return lambda i: W(i, B.nz(i))


def weighty(with_states):
    def setup(E, st, cl, B, H, cplx):
        lv, v = necessary(E, st)
        E.assume(v.n == B.rows)
        w = norms(E, cl, B, cl + "::removeUnnecessaryBasisvectors", (lambda r: v.d[r]) if with_states else None)
        return ([lv] if with_states else []), (lambda i: w(i) > R(Fraction(0.05))), w, B.cols
    return setup


selection("applyCutoff", "", cutoff)
selection("removeUnnecessaryStates", "", by_states, side="left")
selection("removeUnnecessaryBasisvectors", "", weighty(False))
selection("removeUnnecessaryBasisvectors", " in given states", weighty(True))


@each("findUnnecessaryStates", ["Hamiltonianmatrix::findUnnecessaryStates"])
def find_states(E, cl, cplx):
    E.split_inv = True
    install(E, cplx)
    st = E.new_state()
    x = matrix(E, st, cl, "x", cplx)
    B = entries(E, mat_atom("Bx"), cplx)
    E.assume(And(B.cols < 2 ** 31 - 1, B.rows < 2 ** 31 - 1))
    mods(E, B)
    E.contracts["std::pow"] = E.contracts["pow"] = lambda E, st, a: (E.prove("a square", a.val(1) == 2, st), toreal(a.val(0)) * toreal(a.val(0)))[1]
    lv, v0 = necessary(E, st)
    E.assume(v0.n == B.rows)
    r0 = z3.Int("any_state")
    E.assume(And(r0 >= 0, r0 < B.rows))
    W = z3.Function("weight_of_the_state_up_to", I, I, R_)
    E.facts.append(W(0, 0) == 0)
    fn, k, vec = cl + "::findUnnecessaryStates", "k", "isNecessaryCoordinate_real"

    def outer(c):
        E.facts.append(Implies(c[k] > 0, W(c[k], 0) == W(c[k] - 1, B.nz(c[k] - 1))))
        return [c[k] >= 0, c[k] <= B.cols, c[vec].n == B.rows, c[vec].d[r0] == W(c[k], 0)]

    def inner(c):
        it = c["triple"]
        row = B.row(it.col, it.pos)
        m = mod(B, row, it.col)
        E.facts.append(W(it.col, it.pos + 1) == W(it.col, it.pos) + z3.If(row == r0, m * m, R(0)))
        return [it.pos >= 0, it.pos <= B.nz(it.col), it.col == c[k], c[k] >= 0, c[k] < B.cols, c[vec].n == B.rows, c[vec].d[r0] == W(it.col, it.pos)]
    total = W(B.cols, 0)

    def mark(c):
        v = E.read(c.st, lv)
        return [c["idx"] >= 0, c["idx"] <= B.rows, v.n == v0.n, c[vec].n == B.rows, c[vec].d[r0] == total,
                v.d[r0] == Or(v0.d[r0], And(c["idx"] > r0, total > R(Fraction(0.05))))]
    E.loops[(fn, 0)], E.loops[(fn, 1)], E.loops[(fn, 2)] = {"inv": outer}, {"inv": inner}, {"inv": mark}
    E.run(st, fn, x, [lv])
    E.prove("no exception", Not(st.mem["$exc"]))
    v = E.read(st, lv)
    E.prove("states with weight are marked, in addition to those marked before", And(v.n == v0.n, v.d[r0] == Or(v0.d[r0], total > R(Fraction(0.05)))))


@each("getBlock", ["Hamiltonianmatrix::getBlock", "Hamiltonianmatrix::num_basisvectors"])
def block(E, cl, cplx):
    E.split_inv = True
    install(E, cplx)
    st = E.new_state()
    x = matrix(E, st, cl, "x", cplx)
    x1 = E.read(st, x)
    B = entries(E, mat_atom("Bx"), cplx)
    E.assume(And(B.cols < 2 ** 31 - 1, B.rows < 2 ** 31 - 1))
    tab = triplets(E, cplx)
    dims = []

    def ctor(E, st, a):
        if a.n == 2:
            dims.append((a.val(0), a.val(1)))
            return mat_atom("D%d" % (len(dims) - 1))
        v = a.val(0) if a.n else Mat({})
        return E.read(st, v) if isinstance(v, LV) else v
    E.contracts["Eigen::SparseMatrix::SparseMatrix"] = ctor
    t = "std::vector<long, std::allocator<long>>"
    lv = E.alloc(st, E.fresh(t, "indices"), "indices")
    v = E.read(st, lv)
    k0 = z3.Int("any_index")
    j0 = z3.Int("j0")
    E.assume(And(v.n < 2 ** 31 - 1, k0 >= 0, k0 < v.n))
    E.assume(forall([j0], Implies(And(j0 >= 0, j0 < v.n), And(v.d[j0] >= 0, v.d[j0] < B.cols)), patterns=[v.d[j0]]))

    def is_(t, k):
        a, b, c = tri(t, k)
        return And(a == v.d[k], b == k, unit(c))

    def inv(c):
        i = c["idx"]
        w = c["triplets_transformator"]
        return [i >= 0, i <= v.n, w.n == i, Implies(k0 < i, is_(w, k0))]
    fn = cl + "::getBlock"
    E.loops[(fn, 0)] = {"inv": inv}
    r = E.run(st, fn, x, [lv])
    E.prove("no exception", Not(st.mem["$exc"]))
    E.prove("one transformation", z3.BoolVal(len(tab) == 1 and len(dims) == 1))
    (old, w), = tab.values()
    E.prove("dimensions of the transformation", And(dims[0][0] == B.cols, dims[0][1] == v.n, mat_eq(old, mat_atom("D0"))))
    E.prove("the vectors asked for, in this order", And(w.n == v.n, is_(w, k0)))
    T_ = mat_atom("T0")
    E.prove("their entries", mat_eq(r.f["entries_"], mat_mul(mat_mul(mat_adj(T_), mat_atom("Ex")), T_)))
    E.prove("their coefficients", mat_eq(r.f["basis_"], mat_mul(mat_atom("Bx"), T_)))
    E.prove("the matrix is left alone", teq(E.read(st, x), x1))
