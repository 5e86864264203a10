"""Assumed contracts of the C++ standard library, libm and Eigen (trusted; listed in the evidence)."""
import math

import z3

import ctypes_ as ct
from values import *  # noqa: F401,F403
from values import _madj
from vc import HANDLERS, VOID, Engine, handles


def I(v):
    return z3.IntVal(v) if isinstance(v, int) else v


# ---------------------------------------------------------------- contiguous containers

@handles("std::array::operator[]", "std::array::at", "std::vector::operator[]", "std::vector::at",
         "std::get_idx")
def arr_idx(E, st, A):
    b = A.this()
    i = toint(A.val(0))
    i = z3.simplify(i)
    c = rc(i)
    i = int(c) if c is not None else i
    v = E.read(st, b)
    E.in_bounds(st, v, i, A)
    return b.sub(("i", i))


@handles("std::get")
def std_get(E, st, A):
    import re
    m = re.search(r"get<(\d+)", A.f["q"])
    if not m:
        raise Unsupported("std::get " + A.f["q"])
    i = int(m.group(1))
    b = A.lv(0)
    v = E.read(st, b)
    if isinstance(v, Rec):
        return b.sub(("f", list(v.f)[i]))
    return b.sub(("i", i))


@handles("std::array::begin", "std::vector::begin", "std::array::cbegin", "std::vector::cbegin",
         "std::array::data", "std::vector::data")
def seq_begin(E, st, A):
    return A.this().sub(("i", 0))


@handles("std::array::end", "std::vector::end", "std::array::cend", "std::vector::cend")
def seq_end(E, st, A):
    v = A.thisv()
    if isinstance(v, Arr):
        return A.this().sub(("i", len(v.e)))
    n = z3.simplify(v.n)
    c = rc(n)
    return A.this().sub(("i", int(c) if c is not None else n))


@handles("std::array::size", "std::vector::size")
def seq_size(E, st, A):
    v = A.thisv()
    return z3.IntVal(len(v.e)) if isinstance(v, Arr) else v.n


@handles("std::array::front", "std::vector::front")
def seq_front(E, st, A):
    return A.this().sub(("i", 0))


@handles("std::array::back", "std::vector::back")
def seq_back(E, st, A):
    v = A.thisv()
    if isinstance(v, Arr):
        return A.this().sub(("i", len(v.e) - 1))
    n = z3.simplify(v.n - 1)
    c = rc(n)
    return A.this().sub(("i", int(c) if c is not None else n))


@handles("std::array::fill")
def arr_fill(E, st, A):
    v = A.thisv()
    x = A.val(0)
    E.write(st, A.this(), Arr([E.conv2(x, y) for y in v.e]))
    return VOID


@handles("std::vector::empty")
def vec_empty(E, st, A):
    return A.thisv().n == 0


@handles("std::vector::reserve", "std::vector::shrink_to_fit", "std::unordered_map::reserve",
         "std::unordered_set::reserve")
def noop(E, st, A):
    return VOID


@handles("std::vector::clear")
def vec_clear(E, st, A):
    v = A.thisv()
    E.write(st, A.this(), Vec(v.et, z3.IntVal(0), v.d))
    return VOID


@handles("std::vector::push_back", "std::vector::emplace_back")
def vec_push(E, st, A):
    lv = A.this()
    if A.n == 1:
        x = A.val(0)
    elif A.n == 3 and ct.strip_cvref(E.read(st, lv).et).startswith("Eigen::Triplet<"):
        r, c, w = A.val(0), A.val(1), A.val(2)
        w = E.read(st, w) if isinstance(w, LV) else w
        E.prove("indices of a triplet fit into int", And(r >= 0, r < 2 ** 31, c >= 0, c < 2 ** 31), st)
        w = w if isinstance(w, Cx) else toreal(w)
        cplx = "complex" in ct.parse(ct.strip_cvref(E.read(st, lv).et))[1][0]
        if cplx and not isinstance(w, Cx):
            w = Cx(w, ZERO)
        x = Rec(ct.strip_cvref(E.read(st, lv).et), {"m_row": r, "m_col": c, "m_value": w})
    else:
        raise Unsupported("emplace_back with %d arguments" % A.n)
    v = E.read(st, lv)
    if isinstance(v.d, Opaque):
        raise Unsupported("vector of opaque values")
    x = E.coerce(x, v.d)
    E.write(st, lv, Vec(v.et, E.fold(v.n + 1), tmap(lambda a, y: z3.Store(a, v.n, y), v.d, x)))
    return VOID


@handles("std::vector::pop_back")
def vec_pop(E, st, A):
    v = A.thisv()
    E.write(st, A.this(), Vec(v.et, E.fold(v.n - 1), v.d))
    return VOID


@handles("std::vector::resize")
def vec_resize(E, st, A):
    v = A.thisv()
    n = toint(A.val(0))
    d = v.d
    if rc(v.n) == 0:
        try:
            z = E.default(st, v.et)
            d = tmap(lambda a, y: z3.K(a.sort().domain(), y), v.d, E.coerce(z, v.d))
        except Unsupported:
            pass
    else:
        raise Unsupported("resize of a nonempty vector")
    E.write(st, A.this(), Vec(v.et, n, d))
    return VOID


@handles("ctor:std::vector")
def vec_ctor(E, st, A):
    t = ct.strip_cvref(A.e["t"])
    et = ct.parse(t)[1][0]
    args = [a for a in A.args if not a["t"].replace("const ", "").startswith("std::allocator")]
    if not args:
        return E.default(st, t)
    if len(args) in (1, 2) and ct.is_int(args[0]["t"]):
        n = toint(E.ev(st, args[0]))
        d = E.fresh_arr(et, "v")
        x = E.ev(st, args[1]) if len(args) == 2 else E.default(st, et)
        if isinstance(d, Opaque):
            raise Unsupported("vector of opaque values")
        return Vec(et, n, tmap(lambda a, y: z3.K(a.sort().domain(), y), d, E.coerce(x, d)))
    if len(args) == 1 and args[0]["k"] in ("stdinit", "list"):
        a = args[0]["e"] if args[0]["k"] == "stdinit" else args[0]
        if a["k"] == "list":
            d = E.fresh_arr(et, "v")
            for i, x in enumerate(a["a"]):
                y = E.coerce(E.ev(st, x), d)
                d = tmap(lambda q, w: z3.Store(q, z3.IntVal(i), w), d, y)
            return Vec(et, z3.IntVal(len(a["a"])), d)
    if len(args) == 1:
        v = E.ev(st, args[0])
        if isinstance(v, Vec):
            return v
    raise Unsupported("vector constructor")


@handles("ctor:std::unordered_set")
def uset_ctor(E, st, A):
    args = [a for a in A.args if a["k"] != "defarg" and not a["t"].replace("const ", "").startswith("std::allocator")]
    if E.set_of_range is not None and len(args) >= 2:
        return E.set_of_range(E, st, A)
    if not args:
        return E.default(st, ct.strip_cvref(A.e["t"]))
    raise Unsupported("constructor of an unordered set")


@handles("ctor:std::function")
def function_ctor(E, st, A):
    v = E.ev(st, A.args[0])
    v = E.read(st, v) if isinstance(v, LV) else v
    if type(v).__name__ != "Closure":
        raise Unsupported("std::function of an unknown object")
    return v


@handles("ctor:std::set")
def set_ctor(E, st, A):
    t = ct.strip_cvref(A.e["t"])
    kt = ct.parse(t)[1][0]
    args = [a for a in A.args if not a["t"].replace("const ", "").startswith("std::allocator") and not ct.strip_cvref(a["t"]).startswith("std::less<")]
    v = E.default(st, t)
    if not args:
        return v
    if len(args) == 1 and args[0]["k"] in ("stdinit", "list"):
        a = args[0]["e"] if args[0]["k"] == "stdinit" else args[0]
        if a["k"] == "list":
            d = v.dom
            for x in a["a"]:
                d = z3.Store(d, E.key(kt, E.ev(st, x)), T)
            return Set(kt, d)
    if len(args) == 1:
        v = E.ev(st, args[0])
        v = E.read(st, v) if isinstance(v, LV) else v
        if isinstance(v, Set):
            return v
    raise Unsupported("set constructor")


@handles("ctor:std::array")
def arr_ctor(E, st, A):
    if A.args:
        return A.val(0)
    return E.default(st, A.e["t"], trivial=True)


@handles("std::vector::operator=", "std::array::operator=", "std::basic_string::operator=",
         "std::map::operator=", "std::unordered_map::operator=", "std::set::operator=",
         "std::complex::operator=", "std::pair::operator=", "std::shared_ptr::operator=",
         "std::unordered_set::operator=", "std::optional::operator=", "Eigen::Matrix::operator=",
         "Eigen::SparseMatrix::operator=", "std::unique_ptr::operator=")
def assign(E, st, A):
    v = A.val(0)
    old = None
    lv = A.this()
    if isinstance(v, StrLit):
        v = E.strlit(v.s)
    try:
        old = E.read(st, lv)
    except Unsupported:
        pass
    if isinstance(old, Cx) and not isinstance(v, Cx):
        v = cx(v)
    if isinstance(old, Opt) and not isinstance(v, Opt):
        v = Opt(old.vt, T, v)
    E.write(st, lv, v)
    return lv


@handles("std::_Bit_reference::operator=")
def bit_assign(E, st, A):
    lv = A.this()
    v = A.val(0)
    E.write(st, lv, v if v.sort() == z3.BoolSort() else v != 0)
    return lv


# default copy assignment of program records
@handles("*::operator=")
def rec_assign(E, st, A):
    v = A.val(0)
    lv = A.this()
    if isinstance(v, (Rec, It)):
        E.write(st, lv, v)
        return lv
    raise Unsupported("operator= of " + A.f["q"][:80])


# ---------------------------------------------------------------- strings

def sv(E, v):
    if isinstance(v, StrLit):
        return E.strlit(v.s)
    if isinstance(v, z3.ExprRef) and z3.is_real(v):
        return v
    raise Unsupported("string value")


@handles("ctor:string")
def str_ctor(E, st, A):
    args = [a for a in A.args if not a["t"].replace("const ", "").startswith("std::allocator")]
    if not args:
        return E.strlit("")
    if len(args) == 1:
        return sv(E, E.ev(st, args[0]))
    raise Unsupported("string constructor")


@handles("std::basic_string::c_str", "std::basic_string::data")
def str_cstr(E, st, A):
    return A.thisv()


@handles("std::basic_string::empty")
def str_empty(E, st, A):
    return A.thisv() == E.strlit("")


@handles("std::basic_string::length", "std::basic_string::size")
def str_len(E, st, A):
    f = E.uninterp("strlen", Str, z3.IntSort())
    v = A.thisv()
    n = f(v)
    E.facts.append(And(n >= 0, (n == 0) == (v == E.strlit(""))))
    for s, c in list(E.strlits.items()):
        E.facts.append(f(c) == len(s))
    return n


def cmp_seq(E, st, op, a, b):
    """lexicographic comparison of leaves"""
    xs, ys = [x for _, x in leaves(a)], [y for _, y in leaves(b)]
    eq = And(*[E.binop(st, "==", x, y, "bool") for x, y in zip(xs, ys)])
    if op == "==":
        return eq
    if op == "!=":
        return Not(eq)
    lt, pre = F, T
    for x, y in zip(xs, ys):
        lt = Or(lt, And(pre, E.binop(st, "<", x, y, "bool")))
        pre = And(pre, E.binop(st, "==", x, y, "bool"))
    return {"<": lambda: lt, "<=": lambda: Or(lt, eq), ">": lambda: And(Not(lt), Not(eq)),
            ">=": lambda: Not(lt)}[op]()


def std_compare(op):
    def h(E, st, A):
        if A.obj is not None:
            a, b = A.thisv_or_val(), A.val(0)
        else:
            a, b = A.val(0), A.val(1)
        if isinstance(a, StrLit):
            a = E.strlit(a.s)
        if isinstance(b, StrLit):
            b = E.strlit(b.s)
        if isinstance(a, It) or isinstance(b, It):
            r = It.same(a, b)
            return r if op == "==" else Not(r)
        if isinstance(a, (LV, Null)) and isinstance(b, (LV, Null)):
            return E.binop(st, op, a, b, "bool")
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = cx(a), cx(b)
            r = teq(a, b)
            return r if op == "==" else Not(r)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return E.binop(st, op, a, b, "bool")
        if isinstance(a, Arr) and isinstance(b, Arr):
            return arr_compare(E, st, op, a, b, A)
        if isinstance(a, Map) and isinstance(b, Map) and op in ("==", "!="):
            r = map_eq(E, st, a, b)
            return r if op == "==" else Not(r)
        if op in ("==", "!="):
            r = teq(a, b)
            return r if op == "==" else Not(r)
        raise Unsupported("comparison %s of %s" % (op, type(a).__name__))

    return h


def map_eq(E, st, a, b):
    """same keys, and for every key values that compare equal with the value type's own operator=="""
    ks = a.dom.sort().domain()

    def same(k):
        x, y = (tmap(lambda z: z3.Select(z, k), m.val) for m in (a, b))
        if isinstance(x, Rec):
            fs = E.P.by_q.get(x.type + "::operator==", [])
            if len(fs) == 1:
                s = st.copy()
                r = E.call_fn(s, fs[0], E.alloc(s, x), [E.alloc(s, y)])
                return tobool(r) if not z3.is_bool(r) else r
        return teq(x, y)
    r = z3.Bool(fresh_name("mapeq"))
    q, w = z3.Const(fresh_name("qk"), ks), z3.Const(fresh_name("wk"), ks)
    n = len(E.facts)
    inner = same(q)
    if len(E.facts) != n:
        raise Unsupported("map comparison with side facts")
    E.facts.append(Implies(r, And(a.dom == b.dom, z3.ForAll([q], Implies(z3.Select(a.dom, q), inner)))))
    E.facts.append(Implies(Not(r), Or(a.dom != b.dom, And(z3.Select(a.dom, w), Not(same(w))))))
    return r


def arr_compare(E, st, op, a, b, A):
    if all(isinstance(x, z3.ExprRef) for x in a.e + b.e):
        return cmp_seq(E, st, op, a, b)
    # arrays of records: the element's own operators
    def elem(opn, x, y):
        if isinstance(x, Rec):
            for fs in (E.P.by_q.get(x.type + "::operator" + opn, []),):
                for f in fs:
                    return E.call_fn(st, f, E.alloc(st, x), [E.alloc(st, y)])
        raise Unsupported("array comparison of " + type(x).__name__)

    if op in ("==", "!="):
        r = And(*[elem("==", x, y) for x, y in zip(a.e, b.e)])
        return r if op == "==" else Not(r)
    if op == "<":
        lt, pre = F, T
        for x, y in zip(a.e, b.e):
            l1, l2 = elem("<", x, y), elem("<", y, x)
            lt = Or(lt, And(pre, l1))
            pre = And(pre, Not(l1), Not(l2))
        return lt
    raise Unsupported("array comparison " + op)


for _op in ("==", "!=", "<", "<=", ">", ">="):
    HANDLERS["std::operator" + _op] = std_compare(_op)
    HANDLERS["operator" + _op] = std_compare(_op)
    HANDLERS["__gnu_cxx::operator" + _op] = std_compare(_op)
HANDLERS["std::__detail::operator=="] = std_compare("==")
HANDLERS["std::__detail::operator!="] = std_compare("!=")


@handles("std::basic_string::compare")
def str_compare(E, st, A):
    a, b = A.thisv(), sv(E, A.val(0))
    return z3.If(a == b, z3.IntVal(0), z3.If(a < b, z3.IntVal(-1), z3.IntVal(1)))


@handles("std::basic_string::back")
def str_back(E, st, A):
    f = E.uninterp("strback", Str, z3.IntSort())
    for s, c in list(E.strlits.items()):
        if s:
            E.facts.append(f(c) == ord(s[-1]))
    return f(A.thisv())


@handles("std::basic_string::front")
def str_front(E, st, A):
    f = E.uninterp("strfront", Str, z3.IntSort())
    return f(A.thisv())


@handles("std::basic_string::operator[]", "std::basic_string::at")
def str_at(E, st, A):
    f = E.uninterp("strat", Str, z3.IntSort(), z3.IntSort())
    return f(A.thisv(), toint(A.val(0)))


@handles("std::basic_string::substr")
def str_substr(E, st, A):
    f = E.uninterp("substr", Str, z3.IntSort(), z3.IntSort(), Str)
    n = toint(A.val(1)) if A.n > 1 else z3.IntVal(-1)
    r = f(A.thisv(), toint(A.val(0)), n)
    E.facts.append(r >= E.strlit(""))
    return r


def str_cat(E, a, b):
    f = E.uninterp("strcat", Str, Str, Str)
    e = E.strlit("")
    r = f(a, b)
    E.facts.append(And(r >= e, Implies(a == e, r == b), Implies(b == e, r == a),
                       Implies(Or(a != e, b != e), r != e)))
    return r


def str_plus(E, st, A):
    a, b = A.val(0), A.val(1)
    if isinstance(a, LV) or isinstance(b, LV) or isinstance(a, It):
        raise Unsupported("operator+")
    ta, tb = A.t(0), A.t(1)
    if isinstance(a, (Cx, Mat)) or isinstance(b, (Cx, Mat)) or not (
            "string" in ta or "char" in ta or "char" in tb):
        return num_op("+", E, st, a, b)
    return str_cat(E, tostr(E, a, ta), tostr(E, b, tb))


def tostr(E, a, t):
    if isinstance(a, z3.ExprRef) and z3.is_int(a):
        f = E.uninterp("char2str", z3.IntSort(), Str)
        r = f(a)
        E.facts.append(r > E.strlit(""))
        return r
    return sv(E, a)


HANDLERS["std::operator+"] = str_plus


@handles("std::basic_string::operator+=", "std::basic_string::append")
def str_append(E, st, A):
    r = str_cat(E, A.thisv(), tostr(E, A.val(0), A.t(0)))
    E.write(st, A.this(), r)
    return A.this()


@handles("std::to_string")
def to_string(E, st, A):
    v = A.val(0)
    f = E.uninterp("to_string_%s" % v.sort(), v.sort(), Str)
    r = f(v)
    E.facts.append(r > E.strlit(""))
    return r


for _n in ("stoi", "stoul", "stol"):
    def _h(E, st, A, n=_n):
        return E.uninterp(n, Str, z3.IntSort())(sv(E, A.val(0)))
    HANDLERS["std::" + _n] = _h
for _n in ("stod", "stof"):
    def _h2(E, st, A, n=_n):
        return E.uninterp(n, Str, z3.RealSort())(sv(E, A.val(0)))
    HANDLERS["std::" + _n] = _h2


# ---------------------------------------------------------------- maps, sets, optionals

class It(V):
    """iterator into a map or set: container, encoded key, whether it points at an element"""

    vis = None      # ghost: the encoded keys that an iteration from begin() has passed

    def __init__(self, lv, kind, key, has, keyv=None, vis=None):
        self.lv, self.kind, self.key, self.has, self.keyv, self.vis = lv, kind, key, has, keyv, vis

    def merge_(self, c, b):
        if not isinstance(b, It) or b.lv != self.lv or self.key is None or b.key is None:
            return Poison("merge of iterators")
        return It(self.lv, self.kind, z3.If(c, self.key, b.key), ite(c, self.has, b.has), None,
                  None if self.vis is None or b.vis is None else z3.If(c, self.vis, b.vis))

    def havoc_(self, E):
        if self.key is None:
            raise Unsupported("havoc of end()")
        return It(self.lv, self.kind, z3.Const(fresh_name("itk"), self.key.sort()),
                  z3.Bool(fresh_name("ithas")), None,
                  None if self.vis is None else z3.Const(fresh_name("passed"), self.vis.sort()))

    def valid(self, dom):
        """what holds of an iterator into a container with these keys"""
        v = Implies(self.has, z3.Select(dom, self.key))
        if self.vis is None:
            return v
        return And(v, Implies(self.has, Not(z3.Select(self.vis, self.key))), z3.IsSubset(self.vis, dom),
                   self.has == (self.vis != dom))

    @staticmethod
    def same(a, b):
        if not isinstance(a, It) or not isinstance(b, It) or a.lv != b.lv:
            raise Unsupported("iterator comparison")
        if a.key is None:
            return Not(b.has) if b.key is not None else T
        if b.key is None:
            return Not(a.has)
        return And(a.has == b.has, Implies(a.has, a.key == b.key))


def keyof(E, st, A, i, kt):
    return E.key(kt, A.val(i))


def cont(E, st, A):
    lv = A.this()
    v = E.read(st, lv)
    if not isinstance(v, (Map, Set)):
        raise Unsupported("container " + type(v).__name__)
    return lv, v


MAPS = ("std::map::", "std::unordered_map::", "std::set::", "std::unordered_set::")


def for_maps(*names):
    return handles(*[m + n for m in MAPS for n in names])


@for_maps("find")
def map_find(E, st, A):
    lv, v = cont(E, st, A)
    kv = A.val(0)
    k = E.key(v.kt, kv)
    return It(lv, type(v).__name__, k, z3.Select(v.dom, k), kv)


def fresh_it(E, st, lv, vis=None):
    """an iterator at some element that has not been passed yet, or at the end"""
    v = E.read(st, lv)
    k = z3.Const(fresh_name("itk"), v.dom.sort().domain())
    has = z3.Bool(fresh_name("ithas"))
    it = It(lv, type(v).__name__, k, has, None, vis)
    E.assume(it.valid(v.dom), st)
    return it


@for_maps("begin", "cbegin")
def map_begin(E, st, A):
    lv, v = cont(E, st, A)
    it = fresh_it(E, st, lv, z3.K(v.dom.sort().domain(), F))
    it.begin = True
    return it


@for_maps("end", "cend")
def map_end(E, st, A):
    lv, v = cont(E, st, A)
    return It(lv, type(v).__name__, None, F)


@handles("std::inserter")
def f_inserter(E, st, A):
    return Rec("std::insert_iterator", {"container": A.lv(0)})


@handles("std::set_intersection", "std::set_union", "std::set_difference")
def f_setop(E, st, A):
    """of two whole sets, into a set"""
    sets = []
    for b, e in ((0, 1), (2, 3)):
        b, e = [E.read(st, x) if isinstance(x, LV) else x for x in (A.val(b), A.val(e))]
        if not (isinstance(b, It) and isinstance(e, It) and b.lv == e.lv and b.kind == "Set" and getattr(b, "begin", False) and e.key is None):
            raise Unsupported("set operation on a part of a set")
        sets.append(E.read(st, b.lv).dom)
    o = A.val(4)
    lv = o.f["container"]
    v = E.read(st, lv)
    f = {"std::set_intersection": z3.SetIntersect, "std::set_union": z3.SetUnion, "std::set_difference": z3.SetDifference}[A.f["q"].split("<")[0]]
    E.write(st, lv, Set(v.kt, z3.SetUnion(v.dom, f(*sets))))
    return o


@for_maps("count", "contains")
def map_count(E, st, A):
    lv, v = cont(E, st, A)
    return toint(z3.Select(v.dom, E.key(v.kt, A.val(0))))


@for_maps("empty")
def map_empty(E, st, A):
    lv, v = cont(E, st, A)
    return v.dom == z3.K(v.dom.sort().domain(), F)


@for_maps("clear")
def map_clear(E, st, A):
    lv, v = cont(E, st, A)
    e = z3.K(v.dom.sort().domain(), F)
    E.write(st, lv, Map(v.kt, v.vt, e, v.val) if isinstance(v, Map) else Set(v.kt, e))
    return VOID


def put(E, st, lv, v, k, x):
    dom = z3.Store(v.dom, k, T)
    if isinstance(v, Set):
        E.write(st, lv, Set(v.kt, dom))
    else:
        x = E.coerce(x, v.val)
        E.write(st, lv, Map(v.kt, v.vt, dom, tmap(lambda a, y: z3.Store(a, k, y), v.val, x)))


@handles("std::map::operator[]", "std::unordered_map::operator[]")
def map_sub(E, st, A):
    lv, v = cont(E, st, A)
    k = E.key(v.kt, A.val(0))
    if isinstance(v.val, Opaque):
        raise Unsupported("map of opaque values")
    d = E.coerce(E.default(st, v.vt), v.val)
    has = z3.Select(v.dom, k)
    val = tmap(lambda a, y: z3.Store(a, k, z3.If(has, z3.Select(a, k), y)), v.val, d)
    E.write(st, lv, Map(v.kt, v.vt, z3.Store(v.dom, k, T), val))
    return lv.sub(("k", k))


@handles("std::map::at", "std::unordered_map::at")
def map_at(E, st, A):
    lv, v = cont(E, st, A)
    k = E.key(v.kt, A.val(0))
    has = z3.Select(v.dom, k)
    st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), Not(has)))
    return lv.sub(("k", k))


@for_maps("insert", "emplace")
def map_insert(E, st, A):
    lv, v = cont(E, st, A)
    if isinstance(v, Set):
        kv, x = A.val(0), None
    elif A.n == 1:
        p = A.val(0)
        if isinstance(p, LV):
            p = E.read(st, p)
        kv, x = p.f["first"], p.f["second"]
    else:
        kv, x = A.val(0), A.val(1)
    v = E.read(st, lv)
    k = E.key(v.kt, kv)
    has = z3.Select(v.dom, k)

    def yes(s):
        put(E, s, lv, E.read(s, lv), k, x)

    E.branch(st, Not(has), lambda s: yes(s), lambda s: None)
    return Rec("std::pair", {"first": It(lv, type(v).__name__, k, T, kv), "second": Not(has)})


@for_maps("erase")
def map_erase(E, st, A):
    lv, v = cont(E, st, A)
    a = A.val(0)
    k = a.key if isinstance(a, It) else E.key(v.kt, a)
    dom = z3.Store(v.dom, k, F)
    E.write(st, lv, Map(v.kt, v.vt, dom, v.val) if isinstance(v, Map) else Set(v.kt, dom))
    if isinstance(a, It):
        return fresh_it(E, st, lv, a.vis)
    return toint(z3.Select(v.dom, k))


def it_deref(E, st, A):
    it = A.this_it()
    if isinstance(it, LV):
        return it
    if it.key is None:
        raise Unsupported("dereference of end()")
    v = E.read(st, it.lv)       # (also tells an access hook)
    if it.keyv is None:
        it.keyv = E.unkey(v.kt, it.key)
    if it.kind == "Set":
        return E.alloc(st, it.keyv)
    return it.lv.sub(("kp", it.key, it.keyv))


for _n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
           "std::__detail::_Node_const_iterator", "__gnu_cxx::__normal_iterator"):
    HANDLERS[_n + "::operator->"] = it_deref
    HANDLERS[_n + "::operator*"] = it_deref


def it_step(d):
    def h(E, st, A):
        lv = A.this()
        v = E.read(st, lv)
        if isinstance(v, LV):
            E.write(st, lv, E.padd(st, v, d))
            return v if A.n == 1 else lv
        if isinstance(v, It) and d == 1:
            E.write(st, lv, fresh_it(E, st, v.lv, None if v.vis is None else z3.Store(v.vis, v.key, T)))
            return v if A.n == 1 else lv
        raise Unsupported("iteration over a map")
    return h


for _n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
           "std::__detail::_Node_const_iterator"):
    HANDLERS[_n + "::operator++"] = it_step(1)


HANDLERS["__gnu_cxx::__normal_iterator::operator++"] = it_step(1)
HANDLERS["__gnu_cxx::__normal_iterator::operator--"] = it_step(-1)


@handles("__gnu_cxx::__normal_iterator::operator+")
def it_plus(E, st, A):
    return E.padd(st, A.thisv(), E.index_of(A.val(0)))


@handles("__gnu_cxx::__normal_iterator::operator-")
def it_minus(E, st, A):
    return E.padd(st, A.thisv(), E.index_of(E.fold(-toint(A.val(0)))))


@handles("ctor:std::__detail::_Node_const_iterator", "ctor:std::_Rb_tree_const_iterator",
         "ctor:std::_Rb_tree_iterator", "ctor:__gnu_cxx::__normal_iterator",
         "ctor:std::__detail::_Node_iterator")
def it_ctor(E, st, A):
    return A.val(0)


@handles("ctor:std::pair")
def pair_ctor(E, st, A):
    if A.n == 2:
        return Rec(ct.strip_cvref(A.e["t"]), {"first": A.val(0), "second": A.val(1)})
    if A.n == 1:
        return A.val(0)
    return E.default(st, A.e["t"])


@handles("std::make_pair")
def make_pair(E, st, A):
    return Rec(ct.strip_cvref(A.e["t"]), {"first": A.val(0), "second": A.val(1)})


@handles("ctor:std::optional")
def opt_ctor(E, st, A):
    t = ct.strip_cvref(A.e["t"])
    vt = ct.parse(t)[1][0]
    if not A.args or "nullopt" in A.t(0):
        return E.default(st, t)
    v = A.val(0)
    return v if isinstance(v, Opt) else Opt(vt, T, v)


@handles("std::optional::has_value", "std::optional::operator bool")
def opt_has(E, st, A):
    return A.thisv().has


@handles("std::optional::operator*", "std::optional::operator->")
def opt_deref(E, st, A):
    return A.this().sub(("o",))


@handles("std::optional::value")
def opt_value(E, st, A):
    v = A.thisv()
    st.mem["$exc"] = Or(st.mem["$exc"], And(st.live(), Not(v.has)))
    return A.this().sub(("o",))


# ---------------------------------------------------------------- smart pointers

@handles("std::shared_ptr::operator->", "std::unique_ptr::operator->", "std::__shared_ptr_access::operator->",
         "std::shared_ptr::get", "std::unique_ptr::get", "std::__shared_ptr::get")
def sp_arrow(E, st, A):
    return A.thisv()


@handles("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*")
def sp_deref(E, st, A):
    return A.thisv()


@handles("ctor:std::shared_ptr", "ctor:std::unique_ptr")
def sp_ctor(E, st, A):
    if not A.args:
        return Null()
    return A.val(0)


# ---------------------------------------------------------------- identity-like helpers

@handles("std::move", "std::forward", "std::ref", "std::cref")
def std_move(E, st, A):
    a = A.args[0]
    if E.is_lv(a):
        return E.lv(st, a)
    return A.val(0)


@handles("std::addressof")
def std_addressof(E, st, A):
    return A.lv(0)


@handles("std::swap", "std::iter_swap")
def std_swap(E, st, A):
    a, b = A.lv(0), A.lv(1)
    x, y = E.read(st, a), E.read(st, b)
    E.write(st, a, y)
    E.write(st, b, x)
    return VOID


@handles("std::array::swap", "std::vector::swap")
def arr_swap(E, st, A):
    a, b = A.this(), A.lv(0)
    x, y = E.read(st, a), E.read(st, b)
    E.write(st, a, y)
    E.write(st, b, x)
    return VOID


@handles("std::min", "std::max", "std::fmin", "std::fmax", "fmin", "fmax")
def std_minmax(E, st, A):
    a, b = A.val(0), A.val(1)
    if A.n != 2:
        raise Unsupported("min/max")
    if z3.is_real(a) or z3.is_real(b):
        a, b = toreal(a), toreal(b)
    if "min" in A.f["name"]:
        return ite(E.binop(st, "<", b, a, "bool"), b, a)
    return ite(E.binop(st, "<", a, b, "bool"), b, a)


# ---------------------------------------------------------------- complex and libm

@handles("ctor:std::complex")
def cx_ctor(E, st, A):
    if A.n == 0:
        return Cx(ZERO, ZERO)
    a = A.val(0)
    if isinstance(a, Cx):
        return a
    return Cx(toreal(a), toreal(A.val(1)) if A.n > 1 else ZERO)


@handles("std::complex::real")
def cx_real(E, st, A):
    return A.thisv_or_val().re


@handles("std::complex::imag")
def cx_imag(E, st, A):
    return A.thisv_or_val().im


@handles("std::real")
def f_real(E, st, A):
    return cx(A.val(0)).re


@handles("std::imag")
def f_imag(E, st, A):
    return cx(A.val(0)).im


@handles("std::conj")
def f_conj(E, st, A):
    return conj(cx(A.val(0)))


@handles("std::norm")
def f_norm(E, st, A):
    c = cx(A.val(0))
    return radd(rmul(c.re, c.re), rmul(c.im, c.im))


def sqrt_of(E, x):
    c = rc(x)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            from fractions import Fraction
            return R(Fraction(n, d))
    f = E.uninterp("sqrt", z3.RealSort(), z3.RealSort())
    r = f(x)
    k = ("sqrt", x.get_id())
    if k not in E.axioms_done:
        E.axioms_done.add(k)
        E.keep.append(x)
        E.facts.append(Implies(x >= 0, And(r >= 0, r * r == x)))
    return r


@handles("sqrt", "std::sqrt", "sqrtf")
def f_sqrt(E, st, A):
    v = A.val(0)
    if isinstance(v, Cx):
        raise Unsupported("complex sqrt")
    return sqrt_of(E, toreal(v))


@handles("abs", "std::abs", "fabs", "std::fabs", "fabsf", "labs")
def f_abs(E, st, A):
    v = A.val(0)
    if isinstance(v, Cx):
        if isz(v.im):
            return ite(v.re >= 0, v.re, rneg(v.re))
        return sqrt_of(E, radd(rmul(v.re, v.re), rmul(v.im, v.im)))
    c = rc(v)
    if c is not None:
        return R(abs(c)) if z3.is_real(v) else z3.IntVal(abs(int(c)))
    if z3.is_int(v):
        return z3.If(v >= 0, v, -v)
    return ite(v >= 0, v, rneg(v))


def ipow(E, b, n):
    """b to a nonnegative literal power"""
    r = ONE
    for _ in range(n):
        r = rmul(r, b)
    return r


def parity_sign(E, k):
    """(-1)^k for an integer term"""
    c = rc(k)
    if c is not None:
        return R(1 if int(c) % 2 == 0 else -1)
    return z3.If(k % 2 == 0, ONE, R(-1))


def pow_of(E, b, e):
    ce, cb = rc(e), rc(b)
    if ce is not None and ce.denominator == 1 and abs(ce) <= 64:
        n = int(ce)
        if n >= 0:
            return ipow(E, b, n)
        return rdiv(ONE, ipow(E, b, -n))
    if ce is not None and ce * 2 == 1:
        return sqrt_of(E, b)
    if cb == -1:
        ie = E.as_int(e)
        if ie is not None:
            return parity_sign(E, ie)
    f = E.uninterp("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    r = f(toreal(b), toreal(e))
    E.facts.append(Implies(toreal(b) > 0, r > 0))
    E.facts.append(Implies(toreal(e) == 0, r == 1))
    E.facts.append(Implies(toreal(e) == 1, r == toreal(b)))
    E.facts.append(Implies(toreal(e) == 2, r == toreal(b) * toreal(b)))
    return r


@handles("pow", "std::pow", "powf")
def f_pow(E, st, A):
    a, b = A.val(0), A.val(1)
    if isinstance(a, Cx):
        c = rc(toreal(b)) if not isinstance(b, Cx) else None
        if c is not None and c.denominator == 1 and c >= 0:
            r = Cx(ONE, ZERO)
            for _ in range(int(c)):
                r = cmul(r, a)
            return r
        ie = E.as_int(toreal(b)) if not isinstance(b, Cx) else None
        if ie is not None and rc(toreal(a.re)) == 0 and rc(toreal(a.im)) in (1, -1):
            s = toreal(a.im)
            q = lambda v: ite(ie % 4 == 0, R(v[0]), ite(ie % 4 == 1, R(v[1]), ite(ie % 4 == 2, R(v[2]), R(v[3]))))
            return Cx(q((1, 0, -1, 0)), rmul(s, q((0, 1, 0, -1))))
        raise Unsupported("complex pow")
    return pow_of(E, toreal(a), toreal(b))


@handles("gsl_pow_int", "std::gsl_pow_int", "gsl_sf_pow_int")
def f_gslpow(E, st, A):
    return pow_of(E, toreal(A.val(0)), toreal(A.val(1)))


def unary_uf(name, axioms=None):
    def h(E, st, A):
        x = A.val(0)
        if isinstance(x, Cx):
            if name == "exp":
                ex = apply_uf(E, "exp", x.re)
                return Cx(rmul(ex, apply_uf(E, "cos", x.im)), rmul(ex, apply_uf(E, "sin", x.im)))
            raise Unsupported("complex " + name)
        return apply_uf(E, name, toreal(x))
    return h


def apply_uf(E, name, x):
    c = rc(x)
    if c == 0 and name in ("exp", "cos"):
        return ONE
    if c == 0 and name in ("sin", "tan", "asin", "atan", "sinh"):
        return ZERO
    f = E.uninterp(name, z3.RealSort(), z3.RealSort())
    r = f(x)
    k = (name, x.get_id())
    if k in E.axioms_done:
        return r
    E.axioms_done.add(k)
    E.keep.append(x)
    if name == "exp":
        E.facts.append(r > 0)
    if name in ("sin", "cos"):
        s, c = (E.uninterp("sin", z3.RealSort(), z3.RealSort())(x),
                E.uninterp("cos", z3.RealSort(), z3.RealSort())(x))
        E.facts.append(s * s + c * c == 1)
    return r


for _n in ("exp", "sin", "cos", "tan", "log", "acos", "asin", "atan", "sinh", "cosh", "tgamma",
           "lgamma", "cbrt", "log10", "log2"):
    HANDLERS[_n] = HANDLERS["std::" + _n] = unary_uf(_n)


@handles("atan2", "std::atan2")
def f_atan2(E, st, A):
    return E.uninterp("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())(
        toreal(A.val(0)), toreal(A.val(1)))


def to_floor(x):
    c = rc(x)
    if c is not None:
        return R(math.floor(c))
    if z3.is_to_real(x):
        return x
    return z3.ToReal(z3.ToInt(x))


@handles("floor", "std::floor")
def f_floor(E, st, A):
    return to_floor(toreal(A.val(0)))


@handles("ceil", "std::ceil")
def f_ceil(E, st, A):
    return rneg(to_floor(rneg(toreal(A.val(0)))))


@handles("round", "std::round", "lround", "std::lround")
def f_round(E, st, A):
    x = toreal(A.val(0))
    r = ite(x >= 0, to_floor(radd(x, R("1/2"))), rneg(to_floor(radd(rneg(x), R("1/2")))))
    return r if "l" not in A.f["name"] else E.real_to_int(r)


@handles("trunc", "std::trunc")
def f_trunc(E, st, A):
    return toreal(E.real_to_int(A.val(0)))


@handles("fmod", "std::fmod", "fmodf")
def f_fmod(E, st, A):
    """the exact remainder of a division by a literal"""
    x, y = toreal(A.val(0)), toreal(A.val(1))
    c = rc(y)
    if c is None or c <= 0:
        raise Unsupported("fmod by a variable")
    if rc(x) is not None:
        return rsub(x, rmul(y, toreal(E.real_to_int(rdiv(x, y)))))
    k, rest = z3.Int(fresh_name("fmod_q")), z3.Real(fresh_name("fmod"))
    E.facts.append(And(x == y * z3.ToReal(k) + rest, Implies(x >= 0, And(rest >= 0, rest < y)), Implies(x < 0, And(rest > -y, rest <= 0))))
    return rest


@handles("copysign", "std::copysign")
def f_copysign(E, st, A):
    x, y = toreal(A.val(0)), toreal(A.val(1))
    a = ite(x >= 0, x, rneg(x))
    return ite(y >= 0, a, rneg(a))


@handles("std::isnan", "std::isinf", "isnan", "isinf")
def f_isnan(E, st, A):
    A.val(0)
    return F  # reals


@handles("std::numeric_limits::epsilon")
def nl_eps(E, st, A):
    t = A.f["ret"]
    return R("1/%d" % (2 ** (23 if "float" in t else 52)))


@handles("std::numeric_limits::max")
def nl_max(E, st, A):
    t = ct.strip_cvref(A.f["ret"])
    if ct.is_int(t):
        b = ct.bits(t)
        n = 2 ** b - 1 if ct.is_unsigned(t) else 2 ** (b - 1) - 1
        return z3.BitVecVal(n, b) if t in E.bv else z3.IntVal(n)
    return E.special("realmax_" + t)


@handles("std::numeric_limits::lowest")
def nl_lowest(E, st, A):
    return -E.special("realmax_" + ct.strip_cvref(A.f["ret"]))


@handles("std::numeric_limits::min")
def nl_min(E, st, A):
    t = ct.strip_cvref(A.f["ret"])
    if ct.is_int(t):
        n = 0 if ct.is_unsigned(t) else -2 ** (ct.bits(t) - 1)
        return z3.IntVal(n)
    return E.special("realmin_" + t)


@handles("std::numeric_limits::quiet_NaN", "std::numeric_limits::infinity")
def nl_nan(E, st, A):
    return E.special(A.f["name"])


# ---------------------------------------------------------------- arithmetic on complex / matrices

def num_op(op, E, st, a, b):
    hook = getattr(E, "num_hook", None)  # values of a task's own sort
    if hook is not None:
        r = hook(op, a, b)
        if r is not None:
            return r
    if isinstance(a, Rec) and "$m" in a.f or isinstance(b, Rec) and "$m" in b.f:
        return fixed_op(op, E, a, b)
    if isinstance(a, Mat) or isinstance(b, Mat):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op == "+":
                return mat_add(a, b)
            if op == "-":
                return mat_add(a, mat_neg(b))
            if op == "*":
                return mat_mul(a, b)
        elif isinstance(a, Mat):
            if op == "*":
                return mat_scale(b, a)
            if op == "/":
                return mat_scale(cdiv(Cx(ONE, ZERO), cx(b)), a)
        elif op == "*":
            return mat_scale(a, b)
        raise Unsupported("matrix operator " + op)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return {"+": cadd, "-": csub, "*": cmul, "/": cdiv}[op](a, b)
    a, b = toreal(a), toreal(b)
    return {"+": radd, "-": rsub, "*": rmul, "/": rdiv}[op](a, b)


def gadd(a, b, neg=False):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return csub(cx(a), cx(b)) if neg else cadd(cx(a), cx(b))
    return rsub(toreal(a), toreal(b)) if neg else radd(toreal(a), toreal(b))


def gmul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cmul(cx(a), cx(b))
    return rmul(toreal(a), toreal(b))


def gneg(a):
    return cneg(a) if isinstance(a, Cx) else rneg(toreal(a))


def fdims(v):
    a = ct.parse(v.type)[1]
    return int(a[1]), int(a[2])


def ftype(v, r, c):
    a = list(ct.parse(v.type)[1])
    return "Eigen::Matrix<%s, %d, %d, 0, %d, %d>" % (a[0], r, c, r, c)


def fixed_op(op, E, a, b):
    """fixed-size Eigen matrices, column-major"""
    am, bm = isinstance(a, Rec), isinstance(b, Rec)
    if op in ("+", "-"):
        return Rec(a.type, {"$m": Arr([gadd(x, y, op == "-") for x, y in zip(a.f["$m"].e, b.f["$m"].e)])})
    if op == "*" and am and bm:
        n, k = fdims(a)
        k2, m = fdims(b)
        if k != k2:
            raise Unsupported("matrix dimensions")
        out = []
        for j in range(m):
            for i in range(n):
                s = ZERO
                for l in range(k):
                    s = gadd(s, gmul(a.f["$m"].e[l * n + i], b.f["$m"].e[j * k + l]))
                out.append(s)
        return Rec(ftype(a, n, m), {"$m": Arr(out)})
    if op == "*" and am:
        return Rec(a.type, {"$m": Arr([gmul(x, b) for x in a.f["$m"].e])})
    if op == "*":
        return Rec(b.type, {"$m": Arr([gmul(a, x) for x in b.f["$m"].e])})
    if op == "/" and am:
        return Rec(a.type, {"$m": Arr([num_op("/", E, None, x, b) for x in a.f["$m"].e])})
    raise Unsupported("fixed matrix operator " + op)


def bin_handler(op):
    def h(E, st, A):
        if A.obj is not None:
            if A.n == 0:
                v = A.thisv_or_val()
                return neg_any(E, v)
            a, b = A.thisv_or_val(), A.val(0)
        elif A.n == 1:
            return neg_any(E, A.val(0)) if op == "-" else A.val(0)
        else:
            a, b = A.val(0), A.val(1)
        if isinstance(a, LV) and isinstance(b, LV) and op == "-":
            return E.pdiff(a, b)
        if isinstance(a, LV) and isinstance(b, z3.ExprRef):
            return E.binop(st, op, a, b, "long")
        return num_op(op, E, st, a, b)
    return h


def neg_any(E, v):
    if isinstance(v, Mat):
        return mat_neg(v)
    if isinstance(v, Rec) and "$m" in v.f:
        return Rec(v.type, {"$m": Arr([gneg(x) for x in v.f["$m"].e])})
    return gneg(v)


for _op in "-*/":
    HANDLERS["std::operator" + _op] = bin_handler(_op)
    HANDLERS["operator" + _op] = bin_handler(_op)
HANDLERS["operator+"] = bin_handler("+")
for _c in ("Eigen::MatrixBase", "Eigen::SparseMatrixBase", "Eigen::DenseBase"):
    for _op in "+-*/":
        HANDLERS[_c + "::operator" + _op] = bin_handler(_op)


def casop(op):
    def h(E, st, A):
        lv = A.this()
        a, b = E.read(st, lv), A.val(0)
        E.write(st, lv, num_op(op, E, st, a, b))
        return lv
    return h


for _op in "+-*/":
    HANDLERS["std::complex::operator%s=" % _op] = casop(_op)
    HANDLERS["operator%s=" % _op] = casop(_op)
    for _c in ("Eigen::MatrixBase", "Eigen::SparseMatrixBase", "Eigen::DenseBase", "Eigen::SparseMatrix"):
        HANDLERS[_c + "::operator%s=" % _op] = casop(_op)


# ---------------------------------------------------------------- Eigen

@handles("Eigen::SparseMatrixBase::adjoint", "Eigen::MatrixBase::adjoint")
def eig_adjoint(E, st, A):
    v = A.thisv_or_val()
    if isinstance(v, Mat):
        return mat_adj(v)
    return eig_tr(v, True)


@handles("Eigen::SparseMatrixBase::transpose", "Eigen::DenseBase::transpose")
def eig_transpose(E, st, A):
    v = A.thisv_or_val()
    if isinstance(v, Mat):
        raise Unsupported("transpose of a sparse matrix")
    return eig_tr(v, False)


def eig_tr(v, cj):
    r, c = fdims(v)
    e = v.f["$m"].e
    out = []
    for j in range(r):
        for i in range(c):
            x = e[i * r + j]
            out.append(conj(x) if cj and isinstance(x, Cx) else x)
    return Rec(ftype(v, c, r), {"$m": Arr(out)})


@handles("Eigen::DenseCoeffsBase::operator()", "Eigen::DenseCoeffsBase::operator[]",
         "Eigen::DenseCoeffsBase::coeffRef", "Eigen::DenseCoeffsBase::coeff")
def eig_coeff(E, st, A):
    lv = A.this()
    v = E.read(st, lv)
    if isinstance(v, Vec) and A.n == 1:       # a column of a dynamic matrix
        i = z3.simplify(E.as_index(A.val(0)))
        E.in_bounds(st, v, i, A)
        return lv.sub(("i", i))
    if isinstance(v, Rec) and v.type == "$dyn" and A.n == 2:
        i, j = z3.simplify(E.as_index(A.val(0))), rc(z3.simplify(E.as_index(A.val(1))))
        if j is None or "c%d" % int(j) not in v.f:
            raise Unsupported("column of a dynamic matrix")
        E.in_bounds(st, v.f["c%d" % int(j)], i, A)
        return lv.sub(("f", "c%d" % int(j))).sub(("i", i))
    if not isinstance(v, Rec) or "$m" not in v.f:
        raise Unsupported("coefficient of " + type(v).__name__)
    r, c = fdims(v)
    i = toint(A.val(0))
    if A.n == 2:
        i = E.fold(i + r * toint(A.val(1)))
    i = z3.simplify(i)
    k = rc(i)
    return lv.sub(("i", int(k) if k is not None else i))


def dyn(E, n, cols, d=None, name="m"):
    """a dense matrix with any number of rows and a known number of columns: one array per column"""
    return Rec("$dyn", {"c%d" % j: Vec("double", n, d if d is not None else E.fresh_arr("double", name))
                        for j in range(cols)})


def dyn_size(E, A):
    n, c = z3.simplify(E.as_index(A.val(0))), rc(z3.simplify(E.as_index(A.val(1))))
    if c is None:
        raise Unsupported("number of columns")
    return n, int(c)


@handles("Eigen::PlainObjectBase::resize/2")
def eig_resize(E, st, A):
    n, c = dyn_size(E, A)
    E.prove("non-negative matrix size", n >= 0, st)
    E.write(st, A.this(), dyn(E, n, c))
    return VOID


@handles("Eigen::DenseBase::col")
def eig_col(E, st, A):
    v = A.thisv()
    j = rc(z3.simplify(E.as_index(A.val(0))))
    if not isinstance(v, Rec) or v.type != "$dyn" or j is None:
        raise Unsupported("column")
    return A.this().sub(("f", "c%d" % int(j)))


@handles("*::rows")
def eig_rows(E, st, A):
    v = A.thisv()
    if isinstance(v, Vec):
        return v.n
    if isinstance(v, Rec) and v.type == "$dyn":
        return v.f["c0"].n
    raise Unsupported("rows")


@handles("*::cols")
def eig_cols(E, st, A):
    v = A.thisv()
    if isinstance(v, Rec) and v.type == "$dyn":
        return z3.IntVal(len(v.f))
    raise Unsupported("cols")


@handles("ctor:Eigen::Matrix")
def eig_ctor(E, st, A):
    t = ct.strip_cvref(A.e["t"])
    n, a = ct.parse(t)
    r, c = int(a[1]), int(a[2])
    if r < 0 and A.n == 0:
        return Opaque(t)
    if A.n == 1:
        v = A.val(0)
        if isinstance(v, LV):
            v = E.read(st, v)
        if isinstance(v, Rec) and v.type == "$dyn":
            return v
    if r > 0 and c > 0:
        if A.n == 0:
            return E.default(st, t, trivial=True)
        if A.n == r * c and A.n > 1:
            return Rec(t, {"$m": Arr([toreal(A.val(i)) for i in range(A.n)])})
        if A.n == 1:
            v = A.val(0)
            if isinstance(v, Rec) and "$m" in v.f:
                return Rec(t, {"$m": v.f["$m"]})
    raise Unsupported("Eigen constructor " + t)


@handles("Eigen::DenseBase::Zero", "Eigen::MatrixBase::Zero")
def eig_zero(E, st, A):
    if A.n == 2:
        n, c = dyn_size(E, A)
        E.prove("non-negative matrix size", n >= 0, st)
        return dyn(E, n, c, z3.K(z3.IntSort(), ZERO))
    t = ct.strip_cvref(A.f["ret"])
    import re
    m = re.search(r"Eigen::Matrix<([a-z ]+|std::complex<\w+>), (\d+), (\d+)", t)
    if not m:
        raise Unsupported("Zero of " + t[:80])
    r, c = int(m.group(2)), int(m.group(3))
    z = Cx(ZERO, ZERO) if "complex" in m.group(1) else ZERO
    return Rec("Eigen::Matrix<%s, %d, %d, 0, %d, %d>" % (m.group(1), r, c, r, c),
               {"$m": Arr([z] * (r * c))})


@handles("Eigen::DenseBase::setZero", "Eigen::PlainObjectBase::setZero")
def eig_setzero(E, st, A):
    v = A.thisv()
    E.write(st, A.this(), Rec(v.type, {"$m": Arr([ZERO] * len(v.f["$m"].e))}))
    return VOID


@handles("Eigen::MatrixBase::dot")
def eig_dot(E, st, A):
    a, b = A.thisv_or_val(), A.val(0)
    s = ZERO
    for x, y in zip(a.f["$m"].e, b.f["$m"].e):
        s = gadd(s, gmul(conj(x) if isinstance(x, Cx) else x, y))
    return s


@handles("Eigen::MatrixBase::norm")
def eig_norm(E, st, A):
    a = A.thisv_or_val()
    if isinstance(a, Mat):
        raise Unsupported("norm of a sparse matrix")
    s = ZERO
    for x in a.f["$m"].e:
        x = cx(x)
        s = radd(s, radd(rmul(x.re, x.re), rmul(x.im, x.im)))
    return sqrt_of(E, s)


@handles("Eigen::MatrixBase::cross")
def eig_cross(E, st, A):
    a, b = A.thisv_or_val().f["$m"].e, A.val(0).f["$m"].e
    o = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        o.append(gadd(gmul(a[j], b[k]), gmul(a[k], b[j]), True))
    return Rec(A.thisv_or_val().type, {"$m": Arr(o)})


# ---------------------------------------------------------------- hashing

@handles("std::hash::operator()", "std::__str_hash_base::operator()", "boost::hash::operator()",
         "std::hash<>::operator()", "std::_Hash_impl::hash",
         "std::__hash_enum::operator()")
def std_hash(E, st, A):
    v = A.val(0)
    if isinstance(v, StrLit):
        v = E.strlit(v.s)
    ls = [x for _, x in leaves(v)]
    s = z3.BitVecSort(64) if "unsigned long" in E.bv else z3.IntSort()
    f = E.uninterp("hash_" + "_".join(str(x.sort()) for x in ls), *([x.sort() for x in ls] + [s]))
    return f(*ls)


# ---------------------------------------------------------------- streams, locks, errors: no effect
# on the values the properties are about (stream contents are not modelled)

class Stream(V):
    pass


def stream_text(E, v, t):
    """the text that operator<< writes for a value"""
    if isinstance(v, StrLit) or "char" in t:
        return sv(E, v)
    f = E.uninterp("text_%s" % v.sort(), v.sort(), Str)
    r = f(v)
    E.facts.append(r > E.strlit(""))
    if z3.is_int(v):        # reading the decimal digits of an integer gives the integer
        E.facts.append(Implies(And(v >= -2**31, v < 2**31), E.uninterp("stoi", Str, z3.IntSort())(r) == v))
        E.facts.append(Implies(And(v >= 0, v < 2**64), E.uninterp("stoul", Str, z3.IntSort())(r) == v))
    return r


def sstream(E, st, lv):
    """the content of a string stream (specifications opt in with E.streams)"""
    if not getattr(E, "streams", False):
        return None
    v = E.read(st, lv)
    if isinstance(v, Opaque) and "stringstream" in v.type:
        E.write(st, lv, Rec("$ss", {"buf": E.strlit("")}))
        v = E.read(st, lv)
    return lv.sub(("f", "buf")) if isinstance(v, Rec) and v.type == "$ss" else None


@handles("std::operator<<", "std::basic_ostream::operator<<", "std::basic_ostream::flush")
def stream_out(E, st, A):
    lv0 = A.this() if A.obj is not None else A.lv(0)
    b = sstream(E, st, lv0)
    if b is not None:
        for i in range(0 if A.obj is not None else 1, A.n):
            v = A.val(i)
            if isinstance(v, Opaque):
                raise Unsupported("stream manipulator")
            E.write(st, b, str_cat(E, E.read(st, b), stream_text(E, v, A.t(i))))
        return lv0
    if A.obj is not None:
        lv = A.this()
        for i in range(A.n):
            try:
                A.val(i)
            except Unsupported:
                pass
        return lv
    lv = A.lv(0)
    for i in range(1, A.n):
        A.val(i)
    return lv


@handles("std::endl", "std::flush", "std::setprecision", "std::fixed", "std::setw", "std::setfill",
         "std::left", "std::right", "std::scientific")
def manip(E, st, A):
    return Opaque("manip")


@handles("std::basic_stringstream::str", "std::basic_ostringstream::str")
def ss_str(E, st, A):
    b = sstream(E, st, A.this())
    if b is not None and not A.n:
        return E.read(st, b)
    if A.n:
        return VOID
    return E.fresh("std::basic_string<char>", "streamstr")


@handles("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool")
def ptr_bool(E, st, A):
    v = A.thisv()
    if isinstance(v, Null):
        return F
    if isinstance(v, LV):
        return T
    raise Unsupported("pointer test")


@handles("std::unordered_map::size", "std::map::size", "std::set::size", "std::unordered_set::size")
def map_size(E, st, A):
    v = A.thisv()
    f = E.uninterp("card_" + str(v.dom.sort().domain()), v.dom.sort(), z3.IntSort())
    n = f(v.dom)
    E.facts.append(And(n >= 0, (n == 0) == (v.dom == z3.K(v.dom.sort().domain(), F))))
    return n


@handles("std::accumulate")
def std_accumulate(E, st, A):
    a, b = A.val(0), A.val(1)
    if A.n != 3:
        raise Unsupported("accumulate")
    r = A.val(2)
    for lv in E.span(a, b):
        r = num_op("+", E, st, r, E.read(st, lv)) if not (
            isinstance(r, z3.ExprRef) and z3.is_int(r)) else r + E.read(st, lv)
    return r


@handles("std::all_of", "std::any_of", "std::none_of")
def std_allof(E, st, A):
    a, b = A.val(0), A.val(1)
    c = A.val(2)
    n = A.f["name"]
    r = F if n == "any_of" else T
    for lv in E.span(a, b):
        x = E.call_closure_vals(st, c, [lv])
        x = E.tobool(x)
        r = Or(r, x) if n == "any_of" else And(r, x if n == "all_of" else Not(x))
    return r


@handles("std::fill")
def std_fill(E, st, A):
    v = A.val(2)
    for lv in E.span(A.val(0), A.val(1)):
        E.write(st, lv, v)
    return VOID


@handles("std::copy")
def std_copy(E, st, A):
    d = A.val(2)
    for lv in E.span(A.val(0), A.val(1)):
        E.write(st, d, E.read(st, lv))
        d = E.padd(st, d, 1)
    return d


@handles("std::equal")
def std_equal(E, st, A):
    d = A.val(2)
    r = T
    for lv in E.span(A.val(0), A.val(1)):
        r = And(r, teq(E.read(st, lv), E.read(st, d)))
        d = E.padd(st, d, 1)
    return r


@handles("std::next")
def std_next(E, st, A):
    return E.padd(st, A.val(0), E.index_of(A.val(1)) if A.n > 1 else 1)


@handles("std::distance")
def std_distance(E, st, A):
    return E.pdiff(A.val(1), A.val(0))


@handles("isdigit", "std::isdigit")
def f_isdigit(E, st, A):
    c = toint(A.val(0))
    return z3.If(And(c >= 48, c <= 57), z3.IntVal(1), z3.IntVal(0))


# ---------------------------------------------------------------- locks

def _guard(E, st, A):
    m = A.lv(0)
    t = A.t(1) if A.n > 1 else ""
    if "defer_lock" not in str(t) and "adopt_lock" not in str(t):
        E.lock(st, m)
    return Rec("lock", {"mutex": m})


for _n in ("lock_guard", "scoped_lock", "unique_lock", "shared_lock"):
    HANDLERS["ctor:std::" + _n] = _guard


@handles("std::mutex::lock", "std::recursive_mutex::lock", "std::shared_mutex::lock")
def mutex_lock(E, st, A):
    E.lock(st, A.this())
    return VOID


@handles("std::mutex::unlock", "std::recursive_mutex::unlock", "std::shared_mutex::unlock")
def mutex_unlock(E, st, A):
    E.unlock(st, A.this())
    return VOID


@handles("std::unique_lock::unlock")
def ul_unlock(E, st, A):
    E.unlock(st, E.read(st, A.this()).f["mutex"])
    return VOID


@handles("std::unique_lock::lock")
def ul_lock(E, st, A):
    E.lock(st, E.read(st, A.this()).f["mutex"])
    return VOID


@handles("__builtin_nanf", "__builtin_nan")
def b_nan(E, st, A):
    return E.fresh("double", "nan")


@handles("fprintf", "printf", "std::printf", "std::fprintf", "puts", "fflush")
def c_print(E, st, A):
    for i in range(1, A.n):
        try:
            A.val(i)
        except Unsupported as e:
            if "PredefinedExpr" not in str(e):
                raise
    return E.fresh("int", "printed")


# ---------------------------------------------------------------- small dense matrices and rank-3 tensors

def fixed_mat(r, c, e, sc="double"):
    return Rec("Eigen::Matrix<%s, %d, %d, 0, %d, %d>" % (sc, r, c, r, c), {"$m": Arr(e)})


@handles("Eigen::MatrixBase::Identity")
def eig_identity(E, st, A):
    import re
    if A.n == 2:
        r, c = (rc(z3.simplify(E.as_index(A.val(i)))) for i in range(2))
        if r is None or c is None:
            raise Unsupported("size of the identity")
        r, c = int(r), int(c)
    else:
        m = re.search(r"Eigen::Matrix<[^,]*, (\d+), (\d+)", ct.strip_cvref(A.f["ret"]))
        r, c = int(m.group(1)), int(m.group(2))
    return fixed_mat(r, c, [ONE if i == j else ZERO for j in range(c) for i in range(r)])


@handles("Eigen::MatrixBase::asDiagonal")
def eig_asdiag(E, st, A):
    e = A.thisv_or_val().f["$m"].e
    n = len(e)
    return fixed_mat(n, n, [e[i] if i == j else ZERO for j in range(n) for i in range(n)])


@handles("Eigen::DiagonalBase::toDenseMatrix", "Eigen::DiagonalWrapper::toDenseMatrix", "Eigen::DenseBase::eval")
def eig_todense(E, st, A):
    return A.thisv_or_val()


@handles("Eigen::DenseBase::operator<<")
def eig_comma_first(E, st, A):
    # row by row
    lv = A.this()
    v = E.read(st, lv)
    r, c = fdims(v)
    es = list(v.f["$m"].e)
    es[0] = toreal(A.val(0))
    E.write(st, lv, Rec(v.type, {"$m": Arr(es)}))
    return Rec("$comma", {"lv": lv, "n": z3.IntVal(1)})


@handles("Eigen::CommaInitializer::operator,")
def eig_comma(E, st, A):
    k = A.thisv_or_val()
    lv, n = k.f["lv"], int(rc(k.f["n"]))
    v = E.read(st, lv)
    r, c = fdims(v)
    es = list(v.f["$m"].e)
    es[(n % c) * r + n // c] = toreal(A.val(0))
    E.write(st, lv, Rec(v.type, {"$m": Arr(es)}))
    return Rec("$comma", {"lv": lv, "n": z3.IntVal(n + 1)})


def tensor(e):
    return Rec("$tensor", {"$m": Arr(list(e))})


@handles("ctor:Eigen::TensorFixedSize")
def tensor_ctor(E, st, A):
    if A.n == 1:
        v = A.val(0)
        if isinstance(v, LV):
            v = E.read(st, v)
        return v
    return tensor([E.fresh("double", "uninit") for _ in range(27)])


@handles("Eigen::TensorBase::setZero")
def tensor_zero(E, st, A):
    E.write(st, A.this(), tensor([ZERO] * 27))
    return A.this()


@handles("Eigen::TensorFixedSize::operator()", "Eigen::TensorFixedSize::coeff", "Eigen::TensorFixedSize::coeffRef")
def tensor_at(E, st, A):
    ix = [rc(z3.simplify(E.as_index(A.val(i)))) for i in range(3)]
    if None in ix:
        raise Unsupported("tensor index")
    i, j, k = (int(x) for x in ix)
    E.prove("tensor index in range", T if all(0 <= x < 3 for x in (i, j, k)) else F, st)
    return A.this().sub(("f", "$m")).sub(("i", i + 3 * j + 9 * k))


@handles("Eigen::TensorFixedSize::operator=")
def tensor_assign(E, st, A):
    v = A.val(0)
    if isinstance(v, LV):
        v = E.read(st, v)
    E.write(st, A.this(), v)
    return A.this()


@handles("Eigen::TensorBase::operator+=")
def tensor_add(E, st, A):
    a, b = E.read(st, A.this()), A.val(0)
    if isinstance(b, LV):
        b = E.read(st, b)
    E.write(st, A.this(), tensor([radd(x, y) for x, y in zip(a.f["$m"].e, b.f["$m"].e)]))
    return A.this()


@handles("ctor:Eigen::SparseMatrix")
def ctor_sparse(E, st, A):
    """an empty matrix (zero, of the given size), or a copy of a matrix expression"""
    if A.n == 1:
        v = A.val(0)
        if isinstance(v, LV):
            v = E.read(st, v)
        if isinstance(v, Mat):
            return v
        raise Unsupported("sparse matrix from " + type(v).__name__)
    return Mat({})
