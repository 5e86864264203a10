"""Sparse matrices by entry, and vectors of the canonical basis, for the contracts of the system classes."""
import re
from values import *  # noqa: F401,F403
from stdmodel import HANDLERS
import z3

IT = "Eigen::SparseCompressedBase::InnerIterator"


# ---------------------------------------------------------------- words with unit vectors

class Units:
    """unit vectors e_i (atoms "e:<k>" standing for index expressions) and words between them"""

    def __init__(self, unitary=()):
        self.idx, self.unitary = [], set(unitary)

    def e(self, i):
        for k, x in enumerate(self.idx):
            if x.eq(i):
                break
        else:
            k = len(self.idx)
            self.idx.append(i)
        return mat_atom("e:%d" % k)

    def scalar(self, m):
        """a linear combination of words <e_i|...|e_j> as a number"""
        r = Cx(ZERO, ZERO)
        for w, c in m.t.items():
            r = cadd(r, cmul(c, self.word(w)))
        return r

    def word(self, w):
        f = Cx(ONE, ZERO)
        again = True
        while again:
            again = False
            for i in range(len(w) - 1):
                (a, s), (b, t) = w[i], w[i + 1]
                if a == b and a in self.unitary and s != t:
                    w, again = w[:i] + w[i + 2:], True
                    break
                if a[:2] == "e:" and b[:2] == "e:" and s and not t:
                    f = cmul(f, Cx(ite(self.idx[int(a[2:])] == self.idx[int(b[2:])], ONE, ZERO), ZERO))
                    w, again = w[:i] + w[i + 2:], True
                    break
        if not w:
            return f
        v = tuple((a, not s if a not in HERM_ATOMS else False) for a, s in reversed(w))
        n = lambda x: "<%s>" % " ".join(a + ("'" if s else "") for a, s in x)
        if v == w:
            return cmul(f, Cx(z3.Real(n(w)), ZERO))
        cj = n(v) < n(w)
        k = n(v) if cj else n(w)
        im = z3.Real("im" + k)
        return cmul(f, Cx(z3.Real("re" + k), -im if cj else im))


# ---------------------------------------------------------------- words

def rewrite(m, rules):
    """replace the first occurrence of the left side of a rule (a word of atoms) by the right side, until none is left"""
    t = {}
    for w, c in m.t.items():
        again = True
        while again:
            again = False
            for lhs, rhs in rules:
                for i in range(len(w) - len(lhs) + 1):
                    if w[i:i + len(lhs)] == lhs:
                        w, again = w[:i] + rhs + w[i + len(lhs):], True
                        break
        t[w] = cadd(t[w], c) if w in t else c
    return Mat(t)


# ---------------------------------------------------------------- entries

class Entries:
    """the entries of a column-major sparse matrix and the order in which they are stored: column c holds nz(c) entries,
    the i-th one in row row(c, i); slot(c, r) is the position of row r, outside of 0..nz(c)-1 if it is not stored; an entry that is not stored is zero"""

    def __init__(self, E, key, complex_, rows=None, cols=None):
        I, R_ = z3.IntSort(), z3.RealSort()
        self.key, self.cplx = key, complex_
        self.nz = z3.Function("nz" + key, I, I)
        self.row = z3.Function("row" + key, I, I, I)
        self.slot = z3.Function("slot" + key, I, I, I)
        self.re = z3.Function("re" + key, I, I, R_)
        self.im = z3.Function("im" + key, I, I, R_)
        self.rows = rows if rows is not None else z3.Int("rows" + key)
        self.cols = cols if cols is not None else z3.Int("cols" + key)
        c, i, r = z3.Ints("c i r")
        # row(c, .) and slot(c, .) are inverse to each other on all integers, so that instantiating one for the other ends
        E.facts += [self.rows >= 0, self.cols >= 0,
                    z3.ForAll([c], And(self.nz(c) >= 0, Implies(self.nz(c) >= 2, self.row(c, 0) != self.row(c, 1)), Implies(self.nz(c) >= 1, self.row(c, 0) >= 0)),
                              patterns=[self.nz(c)]),
                    z3.ForAll([c, i], And(self.slot(c, self.row(c, i)) == i,
                                          Implies(And(i >= 0, i < self.nz(c)), And(self.row(c, i) >= 0, self.row(c, i) < self.rows))),
                              patterns=[self.row(c, i)]),
                    z3.ForAll([c, r], And(self.row(c, self.slot(c, r)) == r,
                                          Implies(Not(self.stored(r, c)), And(self.re(r, c) == 0, self.im(r, c) == 0))),
                              patterns=[self.slot(c, r), self.re(r, c), self.im(r, c)])]
        if not complex_:
            E.facts.append(z3.ForAll([r, c], self.im(r, c) == 0, patterns=[self.im(r, c)]))

    def stored(self, r, c):
        return And(self.slot(c, r) >= 0, self.slot(c, r) < self.nz(c))

    def at(self, r, c):
        return Cx(self.re(r, c), self.im(r, c))

    def val(self, r, c):
        return self.at(r, c) if self.cplx else self.re(r, c)


class SpIt(V):
    """an iterator over the stored entries of one column"""

    def __init__(self, ent, col, pos):
        self.ent, self.col, self.pos = ent, col, pos

    def merge_(self, c, b):
        if not isinstance(b, SpIt) or b.ent is not self.ent:
            return Poison("merge of iterators")
        return SpIt(self.ent, ite(c, self.col, b.col), ite(c, self.pos, b.pos))

    def havoc_(self, E):
        return SpIt(self.ent, self.col, z3.Int(fresh_name("pos")))


def key(m):
    return "[%s]" % " + ".join(sorted("%s*%s" % ("" if is1(c) else c.re.sexpr() + "," + c.im.sexpr(), "".join(a + ("'" if s else "") for a, s in w)) for w, c in m.t.items()))


def is1(c):
    return z3.simplify(c.re).eq(z3.simplify(ONE)) and z3.simplify(c.im).eq(z3.simplify(ZERO))


def entries(E, m, complex_):
    t = E.__dict__.setdefault("$entries", {})
    k = key(m)
    if k not in t:
        t[k] = Entries(E, k, complex_)
    return t[k]


def install(E, complex_):
    """contracts of the iterator over a column, and of the dimensions"""
    con = E.contracts

    def ctor(E, st, a):
        m = a.val(0)
        m = E.read(st, m) if isinstance(m, LV) else m
        return SpIt(entries(E, m, complex_), a.val(1), z3.IntVal(0))

    def at(f):
        def g(E, st, a):
            it = a.thisv_or_val()
            E.prove("iterator points at an entry", And(it.pos >= 0, it.pos < it.ent.nz(it.col)), st)
            return f(it)
        return g

    def inc(E, st, a):
        it = a.thisv()
        E.prove("iterator is not moved past the end", And(it.pos >= 0, it.pos < it.ent.nz(it.col)), st)
        E.write(st, a.this(), SpIt(it.ent, it.col, it.pos + 1))
        return a.this()
    con[IT + "::InnerIterator"] = ctor
    con[IT + "::operator bool"] = lambda E, st, a: (lambda it: it.pos < it.ent.nz(it.col))(a.thisv_or_val())
    con[IT + "::operator++"] = inc
    con[IT + "::row"] = con[IT + "::index"] = at(lambda it: it.ent.row(it.col, it.pos))
    con[IT + "::col"] = con[IT + "::outer"] = at(lambda it: it.col)

    def value(E, st, a):
        it = a.thisv_or_val()
        E.prove("iterator points at an entry", And(it.pos >= 0, it.pos < it.ent.nz(it.col)), st)
        return it.ent.val(it.ent.row(it.col, it.pos), it.col)
    con[IT + "::value"] = value

    def dim(which):
        def g(E, st, a):
            v = a.thisv_or_val()
            e = entries(E, v, complex_)
            return getattr(e, which)
        return g
    for c in ("Eigen::SparseMatrix", "Eigen::SparseMatrixBase", "Eigen::SparseCompressedBase"):
        con[c + "::rows"] = con[c + "::innerSize"] = dim("rows")
        con[c + "::cols"] = con[c + "::outerSize"] = dim("cols")


def forall(vs, body, patterns=()):
    try:
        return z3.ForAll(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def named(E, v):
    """the same vector, its arrays being constants (they occur in patterns)"""
    def f(x):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return x
        y = z3.Const(fresh_name("arr"), x.sort())
        E.facts.append(y == x)
        return y
    return Vec(v.et, v.n, tmap(f, v.d))


def abs2(c):
    c = cx(c)
    return c.re * c.re + c.im * c.im


# ---------------------------------------------------------------- the list of states

MI = "boost::multi_index::"


class Where(V):
    """an iterator into the list of states: position, or the end"""

    def __init__(self, lv, pos, end):
        self.lv, self.pos, self.end = lv, pos, end

    def merge_(self, c, b):
        return Where(self.lv, ite(c, self.pos, b.pos), ite(c, self.end, b.end)) if isinstance(b, Where) else Poison("merge of iterators")


def states_vec(E, st, state, name="states"):
    """the list of states: a sequence of pairs (idx, state), idx being the position"""
    et = "enumerated_state<%s>" % state
    v = E.fresh("std::vector<%s, std::allocator<%s>>" % (et, et), name)
    i = z3.Int("i")
    E.facts.append(z3.ForAll([i], Implies(And(i >= 0, i < v.n), v.d.f["idx"][i] == i), patterns=[v.d.f["idx"][i]]))
    E.facts.append(v.n < 2 ** 31)
    return v


def install_states(E):
    """boost::multi_index: the list of states by position and by hash. Assumed: find gives the element that is equal to the
    given state, if there is one; no two states of the list are equal"""
    con = E.contracts
    where = z3.Function
    tab = {}

    def vec(a):
        return a.thisv_or_val()

    def find(E, st, a):
        lv = a.this()
        v, k = E.read(st, lv), a.val(0)
        k = E.read(st, k) if isinstance(k, LV) else k
        p, e = z3.Int(fresh_name("found")), z3.Bool(fresh_name("not_found"))
        leaf = []
        tmap(lambda x, y: leaf.append(z3.Select(x, p) == y) or x, v.d.f["state"], k)
        i = z3.Int(fresh_name("i"))
        none = []
        tmap(lambda x, y: none.append(z3.Select(x, i) == y) or x, v.d.f["state"], k)
        E.facts.append(Implies(Not(e), And(p >= 0, p < v.n, *leaf)))
        E.facts.append(z3.ForAll([i], Implies(And(i >= 0, i < v.n, *none), And(Not(e), i == p))))
        return Where(lv, p, e)

    def emplace(E, st, a):
        if a.n != 2:
            raise Unsupported("emplace_back with %d arguments" % a.n)
        lv = a.this()
        v = E.read(st, lv)
        i, s = [E.read(st, x) if isinstance(x, LV) else x for x in (a.val(0), a.val(1))]
        x = E.coerce(Rec(v.et, {"idx": i, "state": s}), v.d)
        E.write(st, lv, Vec(v.et, v.n + 1, tmap(lambda p, q: z3.Store(p, v.n, q), v.d, x)))
    for c in ("multi_index_container", "detail::random_access_index", "detail::hashed_index"):
        con[MI + c + "::size"] = lambda E, st, a: vec(a).n
        con[MI + c + "::empty"] = lambda E, st, a: vec(a).n == 0
        con[MI + c + "::operator[]"] = con[MI + c + "::at"] = lambda E, st, a: (lambda lv, i: (
            E.prove("index is in range", And(i >= 0, i < E.read(st, lv).n), st), lv.sub(("i", i)))[1])(a.this(), a.val(0))
        con[MI + c + "::get"] = lambda E, st, a: a.this()
        con[MI + c + "::find"] = find
        con[MI + c + "::end"] = con[MI + c + "::cend"] = lambda E, st, a: Where(a.this(), z3.IntVal(-1), T)
        con[MI + c + "::shrink_to_fit"] = con[MI + c + "::reserve"] = lambda E, st, a: None
        con[MI + c + "::operator="] = lambda E, st, a: E.write(st, a.this(), a.val(0) if not isinstance(a.val(0), LV) else E.read(st, a.val(0)))
        con[MI + c + "::clear"] = HANDLERS["std::vector::clear"]
        con[MI + c + "::push_back"] = HANDLERS["std::vector::push_back"]
        con[MI + c + "::emplace_back"] = emplace
    it = MI + "detail::hashed_index_iterator"

    def deref(E, st, a):
        w = a.thisv_or_val()
        E.prove("a state was found", Not(w.end), st)
        return w.lv.sub(("i", w.pos))
    con[it + "::operator->"] = con[it + "::operator*"] = con["boost::operators_impl::dereferenceable::operator->"] = deref

    def same(E, st, a):
        x, y = a.val(0), a.val(1)
        x, y = [E.read(st, z) if isinstance(z, LV) else z for z in (x, y)]
        return Or(And(x.end, y.end), And(Not(x.end), Not(y.end), x.pos == y.pos))
    for n in ("boost::operators_impl::operator", MI + "detail::operator", "operator"):
        con[n + "=="] = same
        con[n + "!="] = lambda E, st, a: Not(same(E, st, a))
