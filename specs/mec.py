"""Contracts shared by the element-cache properties: meaning of every cache entry."""
import z3

import ctypes_ as ct
from sqlmodel import Sql
from stdmodel import parity_sign, pow_of, sqrt_of
from values import *  # noqa: F401,F403

TU = "MatrixElementCache.cpp"
C = "MatrixElementCache::CacheKey_cache_"
CACHES = {"cache_radial": C + "radial", "cache_angular": C + "angular",
          "cache_reduced_commutes_s": C + "reduced_commutes",
          "cache_reduced_commutes_l": C + "reduced_commutes",
          "cache_reduced_multipole": C + "reduced_multipole"}
Re = z3.RealSort()


def w3j(E, *a):
    return E.uninterp("wigner3j", *([Re] * 7))(*[toreal(x) for x in a])


def w6j(E, *a):
    return E.uninterp("wigner6j", *([Re] * 7))(*[toreal(x) for x in a])


def drop_sgn(v):
    return Rec(v.type, {k: x for k, x in v.f.items() if k != "sgn"})


def const(E, st, name):
    for q, g in E.P.glob.items():
        if q == name or q.endswith("::" + name):
            if "const" in g:
                return toreal(E.constant(g["const"], g["type"]))
            return toreal(E.ev(st, g["init"]))
    raise Unsupported("constant " + name)


def intrad(E, method, k0, power, k1, db):
    """radial integral of two states (species, n, l, j); assumed deterministic"""
    f = E.uninterp("IntegrateRadialElement_" + method, Re, z3.IntSort(), z3.IntSort(), Re,
                   z3.IntSort(), Re, z3.IntSort(), z3.IntSort(), Re, Re, Re)
    return f(k0[0], k0[1], k0[2], k0[3], power, k1[0], k1[1], k1[2], k1[3], db)


def sgnp(E, x):
    """(-1)^x for an integral real x"""
    i = E.as_int(toreal(x))
    if i is None:
        raise Unsupported("sign of a term that is not visibly an integer")
    return parity_sign(E, i)


def qd_db(E, st, mec):
    return E.read(st, mec.sub(("f", "defectdbname")))


def F_radial(E, st, mec, method, species, kappa, n, l, j):
    db = qd_db(E, st, mec)
    au = const(E, st, "au2um")
    a, b = (species, n[0], l[0], j[0]), (species, n[1], l[1], j[1])
    return rmul(pow_of(E, au, toreal(kappa)), z3.If(
        method == 0, intrad(E, "Numerov", a, kappa, b, db), intrad(E, "Whittaker", a, kappa, b, db)))


def F_angular(E, kappa, j, m, sgn=None):
    return (sgn or sgnp(E, j[0] - m[0])) * w3j(E, j[0], kappa, j[1], -m[0], m[0] - m[1], m[1])


def tri(a, b, c):
    a, b, c = toreal(a), toreal(b), toreal(c)
    return And(a + b >= c, a + c >= b, b + c >= a)


def F_comm_s(E, s, kappa, l, j, sgn=None):
    ok = And(tri(l[0], j[0], s), tri(l[0], l[1], kappa), tri(j[0], j[1], kappa), tri(l[1], j[1], s))
    v = (sgn or sgnp(E, toreal(l[0]) + s + j[1] + toreal(kappa))) * \
        sqrt_of(E, (2 * j[0] + 1) * (2 * j[1] + 1)) * w6j(E, l[0], j[0], s, j[1], l[1], kappa)
    return z3.If(ok, v, ZERO)


def F_comm_l(E, s, kappa, l, j, sgn=None):
    """for states of the same orbital momentum"""
    ok = And(tri(s, j[0], l[0]), tri(s, s, kappa), tri(j[0], j[1], kappa), tri(s, l[0], j[1]))
    v = (sgn or sgnp(E, toreal(l[0]) + s + j[0] + toreal(kappa))) * \
        sqrt_of(E, (2 * j[0] + 1) * (2 * j[1] + 1)) * w6j(E, s, j[0], l[0], j[1], s, kappa)
    return z3.If(ok, v, ZERO)


def F_mult(E, kappa, l):
    return sgnp(E, toreal(l[0])) * sqrt_of(E, toreal((2 * l[0] + 1) * (2 * l[1] + 1))) * \
        w3j(E, l[0], kappa, l[1], 0, 0, 0)


def setup(E):
    """engine configuration: keys without their sign, dependencies by contract"""
    E.keyviews = {t: drop_sgn for t in CACHES.values()}

    def mk_unkey(t):
        def u(E, k):
            nf = len(E.facts)
            el = E.fresh(t, "el", rng=False)
            del E.facts[nf:]
            s = k.sort()
            it = iter(range(s.constructor(0).arity()))
            v = tmap(lambda x: s.accessor(0, next(it))(k), drop_sgn(el))
            if "sgn" in el.f:
                v = v.with_("sgn", z3.Int(fresh_name("sgn")))
            return v
        return u

    E.unkeys = {t: mk_unkey(t) for t in CACHES.values()}
    E.contracts["WignerSymbols::wigner3j"] = lambda E, st, A: w3j(E, *[A.val(i) for i in range(6)])
    E.contracts["WignerSymbols::wigner6j"] = lambda E, st, A: w6j(E, *[A.val(i) for i in range(6)])
    E.contracts["utils::get_pid"] = lambda E, st, A: z3.Int("pid")
    E.contracts["std::make_unique"] = lambda E, st, A: E.alloc(st, Opaque(A.f["ret"]))


def new_cache(E, st, meaning=True):
    """an arbitrary cache object whose stored values are the meanings of their keys. Outside its
    domain a map's value array is unobservable, so the meaning array itself can stand for it."""
    fr = {}
    arrs = {}
    f = {}
    for c, kt in CACHES.items():
        ks = E.keysort(kt)
        arrs[c] = z3.Array("meaning_" + c, ks, Re)
        f[c] = Map(kt, "double", z3.Array(fresh_name(c + ".dom"), ks, z3.BoolSort()), arrs[c])
        f[c + "_missing"] = Set(kt, z3.Array(fresh_name(c + "_missing"), ks, z3.BoolSort()))
    f["method"] = z3.Int(fresh_name("method"))
    E.facts.append(Or(f["method"] == 0, f["method"] == 1))
    f["defectdbname"] = E.fresh("std::basic_string<char>", "defectdb")
    f["dbname"] = E.fresh("std::basic_string<char>", "dbname")
    f["db"] = E.alloc(st, Opaque("sqlite::handle"))
    f["stmt"] = E.alloc(st, Opaque("sqlite::statement"))
    f["pid_which_created_db"] = z3.Int(fresh_name("dbpid"))
    return E.alloc(st, Rec("MatrixElementCache", f), "mec"), arrs


def fields(E, kt, k):
    v = E.unkeys[kt](E, k)
    return {n: (tuple(x.e) if isinstance(x, Arr) else x) for n, x in v.f.items()}


def means(E, st, mec, arrs, c, k):
    """the meaning of key k of cache c, as a formula (assumed instance by instance)"""
    g = fields(E, CACHES[c], k)
    if c == "cache_radial":
        v = F_radial(E, st, mec, g["method"], g["species"], g["kappa"], g["n"], g["l"], g["j"])
        return z3.Select(arrs[c], k) == v, And(Or(g["method"] == 0, g["method"] == 1))
    raise KeyError(c)


def phys(E, nm, S, artificial=False):
    """quantum numbers of a fine-structure state of spin S/2"""
    n, l, k, mu = (z3.Int(fresh_name(nm + x)) for x in ("n", "l", "k", "mu"))
    j = z3.ToReal(l + k) - z3.ToReal(S) / 2
    m = z3.ToReal(mu) - j
    E.facts.append(And(n >= 1, l >= 0, l < n, k >= 0, k <= S, 2 * l + 2 * k - S >= 0, mu >= 0,
                       mu <= 2 * l + 2 * k - S))
    E.inputs.update({nm + "_n": n, nm + "_l": l, nm + "_j": j, nm + "_m": m, "S": S})
    return n, l, j, m


def state(E, st, species, S, q):
    n, l, j, m = q
    return E.alloc(st, Rec("StateOne", {
        "species": species, "element": z3.Real(fresh_name("element")), "n": n, "l": l, "j": j, "m": m,
        "s": z3.ToReal(S) / 2, "hashvalue": z3.Int(fresh_name("hash"))}), "state")


def update_contract(arrs):
    """update(): every missing element is now cached with its meaning, nothing else changes"""
    def h(E, st, A):
        lv = A.this()
        any_ = F
        for c in CACHES:
            m = E.read(st, lv.sub(("f", c)))
            s = E.read(st, lv.sub(("f", c + "_missing")))
            E.prove("caller of update keeps the cache contents of " + c, m.val == arrs[c], st)
            empty = z3.K(s.dom.sort().domain(), F)
            any_ = Or(any_, s.dom != empty)
            E.write(st, lv.sub(("f", c)), Map(m.kt, m.vt, z3.SetUnion(m.dom, s.dom), m.val))
            E.write(st, lv.sub(("f", c + "_missing")), Set(s.kt, empty))
        return z3.If(any_, z3.IntVal(1), z3.IntVal(0))
    return h
