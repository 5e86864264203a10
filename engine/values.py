"""Symbolic values of the verifier: immutable trees over z3 terms."""
import itertools
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The code uses a construct the verifier gives no meaning to (never a violation)."""


class Poison:
    """Value of an ill-defined merge; using it raises Unsupported."""

    def __init__(self, why):
        self.why = why


_ctr = itertools.count(1)


class Quiet:
    """names made while the frame of a loop is looked for: numbered from a given start, so that a second run makes the same"""
    on, n = False, 0
    frames = {}


def fresh_name(base):
    if Quiet.on:
        Quiet.n += 1
        return "%s!q%d" % (base, Quiet.n)
    return "%s!%d" % (base, next(_ctr))


Str = z3.RealSort()  # strings: points of a total order (see DESIGN.md), "" is the least


class V:
    """base class of structured values"""
    __slots__ = ()


class Rec(V):
    __slots__ = ("type", "f")

    def __init__(self, type, f):
        self.type = type
        self.f = f

    def __repr__(self):
        return "Rec(%s,%s)" % (self.type, list(self.f))

    def with_(self, name, v):
        g = dict(self.f)
        g[name] = v
        return Rec(self.type, g)


class Arr(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class Cx(V):
    """complex number"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im


class Vec(V):
    """std::vector (and any contiguous sequence): length plus a tree of arrays."""
    __slots__ = ("et", "n", "d")

    def __init__(self, et, n, d):
        self.et, self.n, self.d = et, n, d


class Map(V):
    """std::map / std::unordered_map: domain and value arrays over an encoded key."""
    __slots__ = ("kt", "vt", "dom", "val")

    def __init__(self, kt, vt, dom, val):
        self.kt, self.vt, self.dom, self.val = kt, vt, dom, val


class Set(V):
    __slots__ = ("kt", "dom")

    def __init__(self, kt, dom):
        self.kt, self.dom = kt, dom


class Opt(V):
    __slots__ = ("vt", "has", "v")

    def __init__(self, vt, has, v):
        self.vt, self.has, self.v = vt, has, v


class Mat(V):
    """matrix: a linear combination of products of atoms; {monomial: Cx}.

    A monomial is a tuple of (atom name, adjoint?)."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class LV(V):
    """an lvalue / pointer / reference: object root and access path"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def sub(self, *p):
        return LV(self.root, self.path + tuple(p))

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and len(self.path) == len(o.path) and all(
            _peq(a, b) for a, b in zip(self.path, o.path))

    def __hash__(self):
        return hash((self.root, len(self.path)))

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


def _peq(a, b):
    if a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        return x.eq(y)
    if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
        return False
    return x == y


class Null(V):
    __slots__ = ()


class Opaque(V):
    """a value the verifier knows nothing about; identity by tag"""
    __slots__ = ("type", "tag")

    def __init__(self, type, tag=None):
        self.type = type
        self.tag = tag or fresh_name("opaque")


class Closure(V):
    __slots__ = ("f", "caps", "this")

    def __init__(self, f, caps, this):
        self.f, self.caps, self.this = f, caps, this


class StrLit(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


# ---------------------------------------------------------------- boolean helpers

T, F = z3.BoolVal(True), z3.BoolVal(False)


_T, _F = T.ast.value, F.ast.value  # terms are shared: there is one true and one false


def istrue(b):
    return b is True or b is T or (isinstance(b, z3.ExprRef) and b.ast.value == _T)


def isfalse(b):
    return b is False or b is F or (isinstance(b, z3.ExprRef) and b.ast.value == _F)


def And(*a):
    out = []
    for x in a:
        if isfalse(x):
            return F
        if not istrue(x):
            out.append(x)
    if not out:
        return T
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if istrue(x):
            return T
        if not isfalse(x):
            out.append(x)
    if not out:
        return F
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if istrue(a):
        return F
    if isfalse(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def R(x):
    """exact real constant"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, float):
        fr = Fraction(repr(x))
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    return z3.RealVal(x)


ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def isz(r):
    return z3.is_rational_value(r) and r.numerator_as_long() == 0


def rc(t):
    """Fraction of a rational literal or None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_to_real(t):
        return rc(t.arg(0))
    return None


def radd(a, b):
    x, y = rc(a), rc(b)
    if x == 0:
        return b
    if y == 0:
        return a
    if x is not None and y is not None:
        return R(x + y)
    return a + b


def rsub(a, b):
    x, y = rc(a), rc(b)
    if y == 0:
        return a
    if x is not None and y is not None:
        return R(x - y)
    return a - b


def rmul(a, b):
    x, y = rc(a), rc(b)
    if x == 0 or y == 0:
        return ZERO
    if x == 1:
        return b
    if y == 1:
        return a
    if x is not None and y is not None:
        return R(x * y)
    return a * b


def rneg(a):
    x = rc(a)
    if x is not None:
        return R(-x)
    return -a


def rdiv(a, b):
    x, y = rc(a), rc(b)
    if y == 1:
        return a
    if x is not None and y is not None and y != 0:
        return R(x / y)
    return a / b


def cadd(a, b):
    return Cx(radd(a.re, b.re), radd(a.im, b.im))


def csub(a, b):
    return Cx(rsub(a.re, b.re), rsub(a.im, b.im))


def cmul(a, b):
    return Cx(rsub(rmul(a.re, b.re), rmul(a.im, b.im)), radd(rmul(a.re, b.im), rmul(a.im, b.re)))


def cneg(a):
    return Cx(rneg(a.re), rneg(a.im))


def conj(a):
    return Cx(a.re, rneg(a.im))


def cdiv(a, b):
    if isz(b.im):
        return Cx(rdiv(a.re, b.re), rdiv(a.im, b.re))
    n = radd(rmul(b.re, b.re), rmul(b.im, b.im))
    c = cmul(a, conj(b))
    return Cx(rdiv(c.re, n), rdiv(c.im, n))


def cx(a):
    """scalar to complex"""
    if isinstance(a, Cx):
        return a
    return Cx(toreal(a), ZERO)


def toreal(t):
    if isinstance(t, Cx):
        raise Unsupported("complex used as real")
    if z3.is_bool(t):
        return z3.If(t, ONE, ZERO)
    if z3.is_int(t):
        x = rc(t)
        return R(x) if x is not None else z3.ToReal(t)
    return t


def toint(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


# ---------------------------------------------------------------- matrices


def mat_atom(name, coef=None):
    return Mat({((name, False),): coef or Cx(ONE, ZERO)})


def mat_add(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        t[m] = cadd(t[m], c) if m in t else c
    return Mat(t)


def mat_neg(a):
    return Mat({m: cneg(c) for m, c in a.t.items()})


def mat_scale(c, a):
    c = cx(c)
    return Mat({m: cmul(c, k) for m, k in a.t.items()})


def mat_mul(a, b):
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = m + n
            e = cmul(c, d)
            t[k] = cadd(t[k], e) if k in t else e
    return Mat(t)


REAL_ATOMS = set()
HERM_ATOMS = set()


def _madj(m):
    return tuple((a, (not s) if a not in HERM_ATOMS else False) for a, s in reversed(m))


def mat_adj(a):
    return Mat({_madj(m): conj(c) for m, c in a.t.items()})


def mat_eq(a, b):
    cs = []
    z = Cx(ZERO, ZERO)
    for m in set(a.t) | set(b.t):
        x, y = a.t.get(m, z), b.t.get(m, z)
        cs.append(x.re == y.re)
        cs.append(x.im == y.im)
    return And(*cs)


# ---------------------------------------------------------------- trees


def tmap(fn, *ts):
    """map a leaf function over trees of the same shape"""
    a = ts[0]
    if isinstance(a, z3.ExprRef):
        for b in ts[1:]:
            if not isinstance(b, z3.ExprRef):
                raise Unsupported("shape mismatch")
        return fn(*ts)
    if isinstance(a, Poison):
        return a
    for b in ts[1:]:
        if isinstance(b, Poison):
            return b
        if type(a) is not type(b):
            raise Unsupported("shape mismatch %s/%s" % (type(a).__name__, type(b).__name__))
    if isinstance(a, Rec):
        keys = set(a.f)
        for b in ts[1:]:
            keys &= set(b.f)
        return Rec(a.type, {k: tmap(fn, *[t.f[k] for t in ts]) for k in a.f if k in keys})
    if isinstance(a, Arr):
        if any(len(a.e) != len(b.e) for b in ts[1:]):
            raise Unsupported("array sizes differ")
        return Arr([tmap(fn, *x) for x in zip(*[t.e for t in ts])])
    if isinstance(a, Cx):
        return Cx(fn(*[t.re for t in ts]), fn(*[t.im for t in ts]))
    if isinstance(a, Vec):
        return Vec(a.et, fn(*[t.n for t in ts]), tmap(fn, *[t.d for t in ts]))
    if isinstance(a, Map):
        return Map(a.kt, a.vt, fn(*[t.dom for t in ts]), tmap(fn, *[t.val for t in ts]))
    if isinstance(a, Set):
        return Set(a.kt, fn(*[t.dom for t in ts]))
    if isinstance(a, Opt):
        return Opt(a.vt, fn(*[t.has for t in ts]), tmap(fn, *[t.v for t in ts]))
    return None


def ite(c, a, b):
    if istrue(c):
        return a
    if isfalse(c):
        return b
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            if z3.is_real(a) and z3.is_int(b):
                b = toreal(b)
            elif z3.is_int(a) and z3.is_real(b):
                a = toreal(a)
            else:
                return Poison("merge of sorts %s %s" % (a.sort(), b.sort()))
        if z3.is_bool(a):
            if istrue(a) and isfalse(b):
                return c
            if isfalse(a) and istrue(b):
                return Not(c)
            if istrue(a):
                return Or(c, b)
            if isfalse(a):
                return And(Not(c), b)
            if istrue(b):
                return Or(Not(c), a)
            if isfalse(b):
                return And(c, a)
        return z3.If(c, a, b)
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    if isinstance(a, Mat) and isinstance(b, Mat):
        t = {}
        z = Cx(ZERO, ZERO)
        for m in set(a.t) | set(b.t):
            x, y = a.t.get(m, z), b.t.get(m, z)
            t[m] = Cx(ite(c, x.re, y.re), ite(c, x.im, y.im))
        return Mat(t)
    if isinstance(a, LV) and isinstance(b, LV):
        if a == b:
            return a
        if a.root == b.root and len(a.path) == len(b.path) and a.path and \
                LV(a.root, a.path[:-1]) == LV(b.root, b.path[:-1]) and \
                a.path[-1][0] == "i" == b.path[-1][0]:
            x, y = a.path[-1][1], b.path[-1][1]
            x = z3.IntVal(x) if isinstance(x, int) else x
            y = z3.IntVal(y) if isinstance(y, int) else y
            return LV(a.root, a.path[:-1] + (("i", z3.If(c, x, y)),))
        return Poison("merge of different pointers")
    if isinstance(a, Null) and isinstance(b, Null):
        return a
    if hasattr(a, "merge_"):
        return a.merge_(c, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a.tag == b.tag else Poison("merge of opaque values of type " + str(a.type))
    if isinstance(a, StrLit) and isinstance(b, StrLit) and a.s == b.s:
        return a
    if isinstance(a, Rec) and isinstance(b, Rec):
        out = {}
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            x, y = a.f.get(k), b.f.get(k)
            if x is None or y is None:
                out[k] = x if y is None else y  # uninitialised on one side: any value will do
            else:
                out[k] = ite(c, x, y)
        return Rec(a.type, out)
    if type(a) is not type(b):
        return Poison("merge of %s and %s" % (type(a).__name__, type(b).__name__))
    try:
        if isinstance(a, Arr) and len(a.e) == len(b.e):
            return Arr([ite(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Opt):
            return Opt(a.vt, ite(c, a.has, b.has), ite(c, a.v, b.v))
        r = tmap(lambda x, y: ite(c, x, y), a, b)
    except Unsupported as e:
        return Poison(str(e))
    return Poison("merge of " + type(a).__name__) if r is None else r


def leaves(t, pre=""):
    if isinstance(t, z3.ExprRef):
        yield pre, t
    elif isinstance(t, Rec):
        for k, v in t.f.items():
            yield from leaves(v, pre + "." + k)
    elif isinstance(t, Arr):
        for i, v in enumerate(t.e):
            yield from leaves(v, pre + "[%d]" % i)
    elif isinstance(t, Cx):
        yield pre + ".re", t.re
        yield pre + ".im", t.im
    elif isinstance(t, Vec):
        yield pre + ".n", t.n
        yield from leaves(t.d, pre + ".d")
    elif isinstance(t, Map):
        yield pre + ".dom", t.dom
        yield from leaves(t.val, pre + ".val")
    elif isinstance(t, Set):
        yield pre + ".dom", t.dom
    elif isinstance(t, Opt):
        yield pre + ".has", t.has
        yield from leaves(t.v, pre + ".v")
    elif isinstance(t, Mat):
        for m, c in t.t.items():
            yield pre + str(m) + ".re", c.re
            yield pre + str(m) + ".im", c.im


def teq(a, b):
    """equality of two values as a formula"""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return T
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return a == b
    if isinstance(a, Mat) and isinstance(b, Mat):
        return mat_eq(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return And(*[teq(a.f[k], b.f[k]) for k in a.f if k in b.f])
    if isinstance(a, Arr) and isinstance(b, Arr):
        return And(*[teq(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Cx) and isinstance(b, Cx):
        return And(teq(a.re, b.re), teq(a.im, b.im))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return And(a.n == b.n, teq(a.d, b.d))
    if isinstance(a, Map) and isinstance(b, Map):
        return And(a.dom == b.dom, teq(a.val, b.val))
    if isinstance(a, Set) and isinstance(b, Set):
        return a.dom == b.dom
    if isinstance(a, Opt) and isinstance(b, Opt):
        return And(a.has == b.has, Implies(a.has, teq(a.v, b.v)))
    if isinstance(a, LV) and isinstance(b, LV):
        return z3.BoolVal(a == b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.tag == b.tag:
            return T
        raise Unsupported("equality of opaque values")
    if isinstance(a, Null) and isinstance(b, Null):
        return T
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))
