"""Verification-condition generator for the C++ subset extracted by cxx2ir.

Forward symbolic execution of one function body at a time: branches are merged with ite, loops are
either unrolled when their condition is decided at every iteration (complete: an unwinding
obligation is emitted otherwise) or cut at an invariant, calls use the callee's contract when one
is registered and its own body (from the same extraction) when none is.
"""
import json
import os
import re
import time

import z3

import ctypes_ as ct
from values import *  # noqa: F401,F403
from values import (Quiet, And, Arr, Closure, Cx, F, Implies, LV, Map, Mat, Not, Null, ONE, Opaque, Opt, Or,
                    Poison, R, Rec, Set, Str, StrLit, T, Unsupported, Vec, ZERO, cadd, cdiv, cmul,
                    cneg, conj, csub, cx, fresh_name, isfalse, istrue, ite, leaves, mat_add, mat_adj,
                    mat_atom, mat_mul, mat_neg, mat_scale, radd, rc, rdiv, rmul, rneg, rsub, teq,
                    tmap, toint, toreal)


class Void:
    pass


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, LV) and isinstance(b, LV):
        return a == b
    return False


VOID = Void()


def rec_diff(new, old, path=()):
    """paths (through record fields) at which two values differ"""
    if isinstance(new, Rec) and isinstance(old, Rec) and set(new.f) == set(old.f):
        out = set()
        for k in new.f:
            out |= rec_diff(new.f[k], old.f[k], path + (k,))
        return out
    return set() if same_value(new, old) else {path}


def rec_map(v, path, fn):
    if not path:
        return fn(v)
    return v.with_(path[0], rec_map(v.f[path[0]], path[1:], fn))


def rec_at(v, path):
    for k in path:
        v = v.f[k]
    return v


LOCKS = re.compile(r"std::(lock_guard|scoped_lock|unique_lock|shared_lock)<")


class Program:
    """the functions, records and globals of one or more extracted translation units"""

    def __init__(self, irs):
        self.fn = {}
        self.by_q = {}
        self.rec = {}
        self.glob = {}
        for ir in irs:
            off = len(self.fn) * 1000000
            for f in ir["functions"]:
                if f["m"] in self.fn and "lambda" not in f["q"] and "(anonymous class)" not in f["q"]:
                    continue
                f["idoff"] = off
                key = f["m"]
                if key in self.fn:
                    key = key + "#%d" % off
                self.fn[key] = f
                self.by_q.setdefault(f["q"], []).append(f)
            for r in ir["records"]:
                self.rec.setdefault(r["type"], r)
            for g in ir["globals"]:
                self.glob.setdefault(g["q"], g)

    def find(self, q, nargs=None, const=None, ptypes=None):
        c = self.by_q.get(q, [])
        if nargs is not None:
            c = [f for f in c if len(f["params"]) == nargs]
        if const is not None and len(c) > 1:
            c = [f for f in c if f.get("const") == const] or c
        if ptypes is not None:
            c = [f for f in c if all(p in q["type"] for p, q in zip(ptypes, f["params"]))]
        if not c:
            raise Unsupported("function not found: %s/%s" % (q, nargs))
        if len(c) > 1:
            raise Unsupported("function ambiguous: %s/%s (%d)" % (q, nargs, len(c)))
        return c[0]

    def fields(self, t):
        """fields of a record including its bases, base first"""
        r = self.rec.get(t)
        if r is None:
            if t.startswith("Eigen::Triplet<"):
                n, a = ct.parse(t)
                return [{"name": "m_row", "type": "int"}, {"name": "m_col", "type": "int"}, {"name": "m_value", "type": a[0]}]
            return None
        out = []
        for b in r["bases"]:
            out += self.fields(ct.strip_cvref(b)) or []
        return out + r["fields"]

    def derived_from(self, t, base):
        if t == base:
            return True
        r = self.rec.get(t)
        return r is not None and any(self.derived_from(ct.strip_cvref(b), base) for b in r["bases"])


class State:
    def __init__(self):
        self.mem = {"$ret": F, "$brk": F, "$cnt": F, "$exc": F}
        self.env = {}
        self.names = {}
        self.this = None
        self.guard = T
        self.pc = []

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.names = dict(self.names)
        s.this = self.this
        s.guard = self.guard
        s.pc = list(self.pc)
        return s

    def live(self):
        m = self.mem
        return And(self.guard, Not(m["$ret"]), Not(m["$brk"]), Not(m["$cnt"]), Not(m["$exc"]))


class Obligation:
    def __init__(self, name, hyps, goal, kind="assert", inputs=None, loc=None):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind
        self.inputs = inputs or {}
        self.loc = loc


HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


class Ctx:
    """what a loop invariant sees"""

    def __init__(self, E, st, idx=None, pre=None, rng=None):
        self.E, self.st, self.idx, self.pre, self.rng = E, st, idx, pre, rng

    def passed(self, lv):
        """the keys of the container at lv that the iteration has already visited"""
        if self.rng is not None and self.rng == lv and self.idx is not None:
            return self.idx.dom
        c = [v for v in self.st.mem.values() if type(v).__name__ == "It" and v.vis is not None and v.lv == lv]
        if len(c) != 1:
            raise Unsupported("no single iteration over the container")
        return c[0].vis

    def __getitem__(self, name):
        if name not in self.st.names:
            raise Unsupported("invariant names an unknown variable: " + name)
        return self.E.read(self.st, self.E.lookup(self.st, self.st.names[name]))

    def field(self, name):
        return self.E.read(self.st, self.st.this.sub(("f", name)))


class Engine:
    def __init__(self, prog, bv=()):
        self.P = prog
        self.facts = []
        self.obls = []
        self.contracts = {}
        self.loops = {}
        self.called = set()
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.inputs = {}
        self.strlits = {}
        self.bv = set(bv)
        self.uf = {}
        self.axioms_done = set()
        self.depth = 0
        self.ghost_on = {}
        self.sym_unroll = 0
        self.max_unroll = 80
        self.quiet = 0
        self.dyn = {}
        self.fnstack = []
        self.strict_ints = False
        self.static_roots = {}
        self.hooks = {}
        self.int_queries = False
        self.solver_decide = False
        self.keep = []
        self.specials = {}

    # ---- helpers used by the library model
    def in_bounds(self, st, v, i, A):
        if "bounds" in self.hooks:
            self.hooks["bounds"](self, st, v, i, A)

    def conv2(self, x, y):
        if isinstance(y, z3.ExprRef) and z3.is_real(y) and isinstance(x, z3.ExprRef):
            return toreal(x)
        return x

    def as_int(self, e):
        """the integer a real term denotes, if it visibly is one"""
        if z3.is_int(e):
            return e
        c = rc(e)
        if c is not None:
            return z3.IntVal(int(c)) if c.denominator == 1 else None
        if z3.is_to_real(e):
            return e.arg(0)
        if z3.is_app(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB,
                                                                 z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            a = [self.as_int(x) for x in e.children()]
            if all(x is not None for x in a):
                k = e.decl().kind()
                if k == z3.Z3_OP_ADD:
                    return sum(a[1:], a[0])
                if k == z3.Z3_OP_UMINUS:
                    return -a[0]
                r = a[0]
                for x in a[1:]:
                    r = r - x if k == z3.Z3_OP_SUB else r * x
                return r
        e2 = z3.simplify(e, som=True)
        if not e2.eq(e):
            r = self.as_int(e2) if not getattr(self, "_in_as_int", False) else None
            if r is not None:
                return r
        if not self.int_queries:
            return None
        s = z3.Solver()
        s.set("timeout", 2000)
        for f in self.facts:
            s.add(f)
        s.add(z3.ToReal(z3.ToInt(e)) != e)
        if s.check() == z3.unsat:
            return z3.ToInt(e)
        return None

    def special(self, name):
        if name not in self.specials:
            self.specials[name] = z3.Real(name)
            self.facts.append(self.specials[name] > 0)
        return self.specials[name]

    def as_index(self, v):
        return self.real_to_int(v) if z3.is_real(v) else toint(v)

    def index_of(self, v):
        v = z3.simplify(toint(v))
        c = rc(v)
        return int(c) if c is not None else v

    def pdiff(self, a, b):
        if isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and a.path and b.path:
            x, y = a.path[-1][1], b.path[-1][1]
            return self.fold(z3.IntVal(x) - y if isinstance(x, int) else x - y)
        raise Unsupported("pointer difference")

    def span(self, a, b):
        if not (isinstance(a, LV) and isinstance(b, LV) and a.path and b.path):
            raise Unsupported("iterator range")
        x, y = a.path[-1][1], b.path[-1][1]
        if not (isinstance(x, int) and isinstance(y, int)):
            raise Unsupported("iterator range of unknown length")
        return [LV(a.root, a.path[:-1] + (("i", k),)) for k in range(x, y)]

    def call_closure_vals(self, st, c, vals):
        if isinstance(c, Closure):
            fn = self.P.fn.get(c.f["m"])
            if fn is not None:
                return self.call_fn(st, fn, c.this, vals, extra=c.caps)
        raise Unsupported("call of an unknown function object")

    # ------------------------------------------------------------ facts and obligations
    def assume(self, f, st=None):
        if istrue(f):
            return
        if st is not None:
            f = Implies(And(*st.pc, st.live()), f)
        self.facts.append(f)

    def prove(self, name, goal, st=None, kind="assert"):
        if self.quiet:
            return
        hyps = list(self.facts)
        if st is not None:
            hyps = hyps + [p for p in st.pc if not istrue(p)]
            lv = st.live()
            if not istrue(lv):
                hyps.append(lv)
        self.obls.append(Obligation(name, hyps, goal, kind, dict(self.inputs)))

    def cover(self, name, cond=T, st=None):
        """vacuity guard: the assumptions so far must be satisfiable together with cond"""
        self.prove(name, cond, st, kind="cover")

    # ------------------------------------------------------------ fresh values
    def uninterp(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    def fresh(self, t, name, rng=True):
        t0 = t
        t = ct.strip_cvref(t)
        if t in self.bv:
            return z3.BitVec(fresh_name(name), ct.bits(t))
        if ct.is_bool(t):
            return z3.Bool(fresh_name(name))
        if ct.is_int(t):
            v = z3.Int(fresh_name(name))
            if rng:
                b = ct.bits(t)
                if ct.is_unsigned(t):
                    self.facts.append(And(v >= 0, v < 2 ** b))
                else:
                    self.facts.append(And(v >= -2 ** (b - 1), v < 2 ** (b - 1)))
            return v
        if ct.is_real(t):
            return z3.Real(fresh_name(name))
        n, a = ct.parse(t)
        if n == "string":
            v = z3.Real(fresh_name(name))
            self.facts.append(v >= self.strlit(""))
            return v
        if n == "std::complex":
            return Cx(z3.Real(fresh_name(name + ".re")), z3.Real(fresh_name(name + ".im")))
        if n == "std::array":
            return Arr([self.fresh(a[0], "%s[%d]" % (name, i), rng) for i in range(int(a[1]))])
        if n == "std::pair":
            return Rec(t, {"first": self.fresh(a[0], name + ".first", rng),
                           "second": self.fresh(a[1], name + ".second", rng)})
        if n == "std::vector":
            ln = z3.Int(fresh_name(name + ".size"))
            self.facts.append(ln >= 0)
            return Vec(a[0], ln, self.fresh_arr(a[0], name))
        if n in ("std::map", "std::unordered_map"):
            ks = self.keysort(a[0])
            return Map(a[0], a[1], z3.Array(fresh_name(name + ".dom"), ks, z3.BoolSort()),
                       self.fresh_arr(a[1], name + ".val", ks))
        if n in ("std::set", "std::unordered_set"):
            return Set(a[0], z3.Array(fresh_name(name + ".dom"), self.keysort(a[0]), z3.BoolSort()))
        if n == "std::optional":
            return Opt(a[0], z3.Bool(fresh_name(name + ".has")), self.fresh(a[0], name, rng))
        if n == "Eigen::Matrix" and len(a) >= 3 and int(a[1]) > 0 and int(a[2]) > 0:
            return Rec(t, {"$m": Arr([self.fresh(a[0], "%s(%d)" % (name, i), rng)
                                      for i in range(int(a[1]) * int(a[2]))])})
        if n in ("Eigen::SparseMatrix", "Eigen::Matrix"):
            return mat_atom(fresh_name(name))
        fl = self.P.fields(t)
        if fl is not None:
            return Rec(t, {f["name"]: self.fresh(f["type"], name + "." + f["name"], rng) for f in fl})
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            return Arr([self.fresh(m.group(1), "%s[%d]" % (name, i), rng)
                        for i in range(int(m.group(2)))])
        if t in self.enums():
            return z3.Int(fresh_name(name))
        return Opaque(t, fresh_name(name))

    def enums(self):
        return {"parity_t", "method_t", "method"}

    def fresh_arr(self, t, name, idx=None):
        """a tree of arrays holding elements of type t"""
        idx = z3.IntSort() if idx is None else idx
        nf = len(self.facts)
        el = self.fresh(t, name, rng=False)
        del self.facts[nf:]
        r = tmap(lambda x: z3.Array(fresh_name(name), idx, x.sort()), el)
        if r is None:
            return Opaque("array of " + t)
        return r

    def fresh_like(self, v, name="h"):
        if isinstance(v, Mat):
            if getattr(self, "mat_span", None):
                # some combination of these; the loop invariant has to bound the span again
                return Mat({m: Cx(z3.Real(fresh_name(name)), z3.Real(fresh_name(name))) for m in list(v.t) + [x for x in self.mat_span if x not in v.t]})
            return mat_atom(fresh_name(name))
        if isinstance(v, (Opaque,)):
            return Opaque(v.type)
        if isinstance(v, Rec):
            return Rec(v.type, {k: self.fresh_like(x, k) for k, x in v.f.items()})
        if isinstance(v, Arr):
            return Arr([self.fresh_like(x, name) for x in v.e])
        if hasattr(v, "havoc_"):
            return v.havoc_(self)
        if isinstance(v, (LV, Null, StrLit, Closure)):
            raise Unsupported("havoc of a pointer")
        r = tmap(lambda x: z3.Const(fresh_name(name), x.sort()), v)
        if r is None:
            raise Unsupported("havoc of " + type(v).__name__)
        return r

    def keysort(self, kt):
        kt = ct.strip_cvref(kt)
        if ct.is_int(kt):
            return z3.IntSort()
        if ct.is_real(kt) or ct.is_string(kt):
            return z3.RealSort()
        if ct.is_bool(kt):
            return z3.BoolSort()
        nf = len(self.facts)
        el = self.fresh(kt, "k", rng=False)
        del self.facts[nf:]
        if kt in self.keyviews:
            el = self.keyviews[kt](el)
        ls = [x.sort() for _, x in leaves(el)]
        if not ls:
            raise Unsupported("map key of type " + kt)
        return self.tuplesort(kt, ls)

    _tuples = {}

    def tuplesort(self, kt, ls):
        k = (kt,) + tuple(str(x) for x in ls)
        if k not in Engine._tuples:
            name = "Key%d" % len(Engine._tuples)
            d = z3.Datatype(name)
            d.declare("mk", *[("k%d" % i, s) for i, s in enumerate(ls)])
            Engine._tuples[k] = d.create()
        return Engine._tuples[k]

    keyviews = {}

    def key(self, kt, v):
        kt = ct.strip_cvref(kt)
        if kt in self.keyviews:
            v = self.keyviews[kt](v)
        if isinstance(v, StrLit):
            v = self.strlit(v.s)
        if isinstance(v, z3.ExprRef):
            if ct.is_real(kt):
                return toreal(v)
            return v
        s = self.keysort(kt)
        ls = [x for _, x in leaves(v)]
        ls = [toreal(x) if s.accessor(0, i).range() == z3.RealSort() else x for i, x in enumerate(ls)]
        return s.mk(*ls)

    def strlit(self, s):
        if s not in self.strlits:
            c = z3.Real("str<%s>" % s)
            for o, d in self.strlits.items():
                self.facts.append(d < c if o < s else c < d)
            self.strlits[s] = c
            if s != "" and "" not in self.strlits:
                self.strlit("")
        return self.strlits[s]

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, name="t"):
        r = fresh_name(name)
        st.mem[r] = v
        return LV(r)

    def lookup(self, st, did):
        if did not in st.env:
            raise Unsupported("variable out of scope")
        return st.env[did]

    def get(self, v, p, st=None):
        k = p[0]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if k == "f":
            if not isinstance(v, Rec):
                raise Unsupported("field %s of %s" % (p[1], type(v).__name__))
            if p[1] not in v.f:
                return None
            return v.f[p[1]]
        if k == "i":
            i = p[1]
            if isinstance(v, Rec) and "$m" in v.f:
                v = v.f["$m"]
            if isinstance(v, Arr):
                c = i if isinstance(i, int) else rc(z3.simplify(i))
                if c is not None:
                    c = int(c)
                    if 0 <= c < len(v.e):
                        return v.e[c]
                    raise Unsupported("array index out of range")
                r = v.e[-1]
                for n in range(len(v.e) - 2, -1, -1):
                    r = ite(i == n, v.e[n], r)
                return r
            if isinstance(v, Vec):
                return tmap(lambda a: z3.Select(a, i if not isinstance(i, int) else z3.IntVal(i)), v.d)
            raise Unsupported("index of " + type(v).__name__)
        if k == "k":
            if not isinstance(v, Map):
                raise Unsupported("map access of " + type(v).__name__)
            if isinstance(v.val, Opaque):
                raise Unsupported("map of opaque values")
            return tmap(lambda a: z3.Select(a, p[1]), v.val)
        if k == "kp":
            if isinstance(v.val, Opaque):
                raise Unsupported("map of opaque values")
            return Rec("std::pair", {"first": p[2],
                                     "second": tmap(lambda a: z3.Select(a, p[1]), v.val)})
        if k == "o":
            if not isinstance(v, Opt):
                raise Unsupported("optional access of " + type(v).__name__)
            return v.v
        if k == "re":
            return v.re
        if k == "im":
            return v.im
        raise Unsupported("path " + k)

    def read(self, st, lv):
        if lv.root not in st.mem:
            raise Unsupported("dangling object " + lv.root)
        if self.access_hook is not None:
            self.access_hook(self, st, lv)
        v = st.mem[lv.root]
        for n, p in enumerate(lv.path):
            w = self.get(v, p, st)
            if w is None:
                # uninitialised field: an arbitrary value of its type, fixed from now on
                t = None
                for f in self.P.fields(v.type) or []:
                    if f["name"] == p[1]:
                        t = f["type"]
                if t is None:
                    raise Unsupported("unknown field %s of %s" % (p[1], v.type))
                w = self.fresh(t, "uninit_" + p[1])
                self.set_(st, LV(lv.root, lv.path[:n + 1]), w)
            v = w
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            old = v.f.get(p[1])
            return v.with_(p[1], self.upd(old, rest, new) if rest else new)
        if k == "i":
            i = p[1]
            if isinstance(v, Rec) and "$m" in v.f:
                return v.with_("$m", self.upd(v.f["$m"], path, new))
            if isinstance(v, Arr):
                c = i if isinstance(i, int) else rc(z3.simplify(i))
                e = list(v.e)
                if c is not None:
                    c = int(c)
                    if not 0 <= c < len(e):
                        raise Unsupported("array index out of range")
                    e[c] = self.upd(e[c], rest, new)
                else:
                    for n in range(len(e)):
                        e[n] = ite(i == n, self.upd(e[n], rest, new), e[n])
                return Arr(e)
            if isinstance(v, Vec):
                i = z3.IntVal(i) if isinstance(i, int) else i
                el = new if not rest else self.upd(self.get(v, p), rest, new)
                el = self.coerce(el, v.d)
                return Vec(v.et, v.n, tmap(lambda a, x: z3.Store(a, i, x), v.d, el))
        if k == "k" and isinstance(v, Map):
            el = new if not rest else self.upd(self.get(v, p), rest, new)
            el = self.coerce(el, v.val)
            return Map(v.kt, v.vt, v.dom, tmap(lambda a, x: z3.Store(a, p[1], x), v.val, el))
        if k == "kp" and isinstance(v, Map) and rest and rest[0] == ("f", "second"):
            return self.upd(v, (("k", p[1]),) + tuple(rest[1:]), new)
        if k == "o":
            return Opt(v.vt, v.has, self.upd(v.v, rest, new))
        if k == "re":
            return Cx(new, v.im)
        if k == "im":
            return Cx(v.re, new)
        raise Unsupported("update of %s by %s" % (type(v).__name__, k))

    def coerce(self, el, d):
        """make the leaf sorts of el fit the tree of arrays d"""
        if isinstance(el, z3.ExprRef) and isinstance(d, z3.ExprRef):
            rng = d.sort().range()
            if rng == z3.RealSort() and el.sort() == z3.IntSort():
                return toreal(el)
        if isinstance(el, StrLit):
            return self.strlit(el.s)
        if isinstance(el, Rec) and isinstance(d, Rec):
            out = {}
            for k in d.f:
                if k not in el.f:
                    nf = [f for f in (self.P.fields(el.type) or []) if f["name"] == k]
                    out[k] = self.fresh(nf[0]["type"], "uninit_" + k) if nf else None
                    if out[k] is None:
                        raise Unsupported("field " + k)
                else:
                    out[k] = self.coerce(el.f[k], d.f[k])
            return Rec(el.type, out)
        return el

    def set_(self, st, lv, v):
        if lv.root not in st.mem:
            raise Unsupported("dangling object " + lv.root)
        st.mem[lv.root] = self.upd(st.mem[lv.root], lv.path, v)

    def write(self, st, lv, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        lv_ = st.live()
        if isfalse(lv_):
            return
        if lv.root not in st.mem:
            raise Unsupported("dangling object " + lv.root)
        new = self.upd(st.mem[lv.root], lv.path, v)
        st.mem[lv.root] = ite(lv_, new, st.mem[lv.root])

    # ------------------------------------------------------------ statements
    def merge(self, c, a, b):
        """the state that is a where c and b elsewhere"""
        s = a.copy()
        mem = {}
        for k in a.mem:
            if k in b.mem:
                mem[k] = ite(c, a.mem[k], b.mem[k])
            else:
                mem[k] = a.mem[k]
        for k in b.mem:
            if k not in mem:
                mem[k] = b.mem[k]
        s.mem = mem
        s.env = dict(b.env)
        s.env.update(a.env)
        s.names = dict(b.names)
        s.names.update(a.names)
        return s

    def assign_state(self, st, new):
        st.mem = new.mem
        st.env = new.env
        st.names = new.names

    def branch(self, st, c, fa, fb):
        """run fa where c and fb elsewhere"""
        if isinstance(c, z3.ExprRef) and not (istrue(c) or isfalse(c)):
            c2 = z3.simplify(c)
            if istrue(c2) or isfalse(c2):
                c = c2
            else:
                d = self.decide(st, c)
                if d is None and self.solver_decide:
                    if self.quick_unsat(st, c):
                        d = False
                    elif self.quick_unsat(st, Not(c)):
                        d = True
                if d is not None:
                    c = T if d else F
        if istrue(c):
            return fa(st)
        if isfalse(c):
            return fb(st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(Not(c))
        ra = fa(a)
        rb = fb(b)
        m = self.merge(c, a, b)
        self.assign_state(st, m)
        if ra is None and rb is None:
            return None
        if ra is VOID or rb is VOID:
            return VOID
        return ite(c, ra, rb)

    decide_calls = 0
    member_hook = None
    static_hook = None
    access_hook = None      # (E, st, lv): an object is read
    ref_hook = None         # (E, st, e, lv): a static local or global is mentioned
    lock_hook = None        # (E, st, mutex): just acquired
    unlock_hook = None      # (E, st, mutex): about to be released

    def decide(self, st, c):
        """path pruning: is c implied or refuted by the path condition? (cheap, may say None)"""
        key = c.get_id()
        if not st.pc:
            return None
        for p in st.pc:
            if p.eq(c):
                return True
            if p.eq(Not(c)):
                return False
        return None

    def under_live(self, st, fn):
        """run fn where control is here at all; elsewhere the state stays as it is"""
        lv = st.live()
        if istrue(lv):
            return fn(st)
        a = st.copy()
        a.pc.append(lv)
        for k in ("$ret", "$brk", "$cnt", "$exc"):
            a.mem[k] = F
        a.guard = T
        r = fn(a)
        self.assign_state(st, self.merge(lv, a, st))
        return r

    def block(self, st, b):
        for n, s in enumerate(b):
            lv = st.live()
            if isfalse(lv):
                break
            if not istrue(lv):
                lv2 = z3.simplify(lv)
                if isfalse(lv2):
                    break
                rest = b[n:]
                self.under_live(st, lambda x: self.block(x, rest))
                return
            self.stmt(st, s)

    def stmt(self, st, s):
        if s is None:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(st, s)
        self.ev(st, s, discard=True)

    def s_block(self, st, s):
        self.block(st, s["b"])
        # scope guards of this block give their mutex back, whichever way the block is left
        for d in s["b"]:
            if isinstance(d, dict) and d.get("k") == "decl":
                for v in d["vars"]:
                    if LOCKS.search(v.get("type", "")) and v["id"] in st.env:
                        g = self.read(st, st.env[v["id"]])
                        if isinstance(g, Rec) and "mutex" in g.f:
                            self.unlock(st, g.f["mutex"])

    def lock(self, st, m):
        k = "lock:%s" % (m,)
        self.prove("mutex is not locked twice by one thread", Not(st.mem.get(k, F)), st)
        st.mem[k] = ite(st.live(), T, st.mem.get(k, F))
        if self.lock_hook is not None:
            self.lock_hook(self, st, m)

    def unlock(self, st, m):
        if self.unlock_hook is not None:
            self.unlock_hook(self, st, m)
        st.mem["lock:%s" % (m,)] = F

    def locked(self, st):
        """some mutex is held here"""
        return Or(*[v for k, v in st.mem.items() if k.startswith("lock:")])

    def s_null(self, st, s):
        if "t" in s:
            return

    def s_decl(self, st, s):
        for v in s["vars"]:
            self.vardecl(st, v)

    def bind(self, st, v, lv):
        st.env[v["id"]] = lv
        st.names[v["name"]] = v["id"]

    def vardecl(self, st, v):
        t = v["type"]
        init = v.get("init")
        if "bindings" in v:
            if init is None:
                raise Unsupported("structured binding")
            if ct.is_ref(t) and self.is_lv(init):
                lv = self.lv(st, init)
            else:
                lv = self.alloc(st, self.ev(st, init), v["name"] or "sb")
            st.env[v["id"]] = lv
            val = self.read(st, lv)
            for i, b in enumerate(v["bindings"]):
                if isinstance(val, Arr):
                    self.bind(st, b, lv.sub(("i", i)))
                elif isinstance(val, Rec):
                    names = list(val.f)
                    fl = self.P.fields(val.type)
                    if fl:
                        names = [f["name"] for f in fl]
                    self.bind(st, b, lv.sub(("f", names[i])))
                else:
                    raise Unsupported("structured binding of " + type(val).__name__)
            return
        if v.get("static"):
            const = t.startswith("const ") or v.get("constexpr")
            key = "static:%s:%s" % (self.fnstack[-1]["m"] if self.fnstack else "", v["name"])
            if key not in self.static_roots:
                if self.static_hook is not None and not const:
                    x = self.static_hook(self, st, v)
                elif const and init is not None:
                    x = self.ev(st, init)
                else:       # whatever earlier calls left there
                    x = self.fresh(t, v["name"])
                self.static_roots[key] = x if isinstance(x, LV) else self.alloc(st, x, v["name"])
            lv = self.static_roots[key]
            if lv.root not in st.mem:
                raise Unsupported("static local")
            self.bind(st, v, lv)
            return
        if ct.is_ref(t):
            if init is None:
                raise Unsupported("reference without initialiser")
            if self.is_lv(init):
                self.bind(st, v, self.lv(st, init))
            else:
                self.bind(st, v, self.alloc(st, self.ev(st, init), v["name"]))
            return
        if init is not None:
            val = self.ev(st, init)
            val = self.conv(val, t)
        else:
            val = self.default(st, t, v["name"], trivial=True)
        self.bind(st, v, self.alloc(st, val, v["name"]))

    def conv(self, v, t):
        """store a value in an object of type t"""
        if isinstance(v, z3.ExprRef) and ct.is_real(t) and not z3.is_real(v):
            return toreal(v)
        if isinstance(v, StrLit) and ct.is_string(t):
            return self.strlit(v.s)
        return v

    def default(self, st, t, name="d", trivial=False):
        """a default-initialised (trivial=True) or value-initialised object"""
        t = ct.strip_cvref(t)
        n, a = ct.parse(t)
        if t in self.bv:
            return self.fresh(t, name) if trivial else z3.BitVecVal(0, ct.bits(t))
        if ct.is_int(t) or t in self.enums():
            return self.fresh(t, name) if trivial else z3.IntVal(0)
        if ct.is_real(t):
            return self.fresh(t, name) if trivial else ZERO
        if ct.is_bool(t):
            return self.fresh(t, name) if trivial else F
        if n == "string":
            return self.strlit("")
        if n == "std::complex":
            return Cx(ZERO, ZERO)
        if n == "std::array":
            return Arr([self.default(st, a[0], name, trivial) for _ in range(int(a[1]))])
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            return Arr([self.default(st, m.group(1), name, trivial) for _ in range(int(m.group(2)))])
        if n == "std::pair":
            return Rec(t, {"first": self.default(st, a[0], name), "second": self.default(st, a[1], name)})
        if n == "std::vector":
            return Vec(a[0], z3.IntVal(0), self.fresh_arr(a[0], name))
        if n == "boost::multi_index::multi_index_container" and self.multi_index:
            return Vec(a[0], z3.IntVal(0), self.fresh_arr(a[0], name))
        if n in ("std::map", "std::unordered_map"):
            v = self.fresh(t, name)
            return Map(v.kt, v.vt, z3.K(self.keysort(v.kt), F), v.val)
        if n in ("std::set", "std::unordered_set"):
            return Set(a[0], z3.K(self.keysort(a[0]), F))
        if n == "std::optional":
            return Opt(a[0], F, self.fresh(a[0], name, rng=False))
        if n in ("std::shared_ptr", "std::unique_ptr") or t.endswith("*"):
            return Null()
        if n == "Eigen::Matrix" and len(a) >= 3 and int(a[1]) > 0 and int(a[2]) > 0:
            return self.fresh(t, name)
        if n == "Eigen::SparseMatrix":
            return Mat({})
        fl = self.P.fields(t)
        if fl is not None:
            f = {}
            for x in fl:
                if "init" in x:
                    f[x["name"]] = self.conv(self.ev(st, x["init"]), x["type"])
                elif not trivial or not (ct.is_int(x["type"]) or ct.is_real(x["type"]) or
                                         ct.is_bool(x["type"])):
                    f[x["name"]] = self.default(st, x["type"], x["name"], trivial)
            return Rec(t, f)
        return Opaque(t)

    def s_if(self, st, s):
        if s.get("init"):
            self.stmt(st, s["init"])
        if s.get("cvar"):
            self.vardecl(st, s["cvar"])
        c = self.cond(st, s["c"])
        self.branch(st, c, lambda x: self.stmt(x, s["t"]), lambda x: self.stmt(x, s["e"]))

    def cond(self, st, e):
        v = self.ev(st, e)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, (Null,)):
            return F
        if isinstance(v, LV):
            return T
        if isinstance(v, Opt):
            return v.has
        if not isinstance(v, z3.ExprRef):
            raise Unsupported("condition of " + type(v).__name__)
        if z3.is_bool(v):
            return v
        if z3.is_bv(v):
            return v != 0
        return v != 0

    def s_return(self, st, s):
        lv = st.live()
        if isfalse(lv):
            return
        if s["v"] is not None:
            rt = self.fnstack[-1]["ret"] if self.fnstack else "?"
            if ct.is_ref(rt) and self.is_lv(s["v"]):
                v = self.lv(st, s["v"])
            else:
                v = self.ev(st, s["v"])
                if isinstance(v, Void):
                    v = None
                else:
                    v = self.conv(v, rt)
            if v is not None:
                lv = st.live()
                old = st.mem.get("$retv")
                st.mem["$retv"] = v if old is None else ite(lv, v, old)
        lv = st.live()
        st.mem["$ret"] = Or(st.mem["$ret"], lv)

    def s_break(self, st, s):
        st.mem["$brk"] = Or(st.mem["$brk"], st.live())

    def s_continue(self, st, s):
        st.mem["$cnt"] = Or(st.mem["$cnt"], st.live())

    def s_switch(self, st, s):
        v = self.ev(st, s["c"])
        items = []  # flatten case labels
        body = s["body"]["b"] if s["body"]["k"] == "block" else [s["body"]]
        for x in body:
            labels = []
            while x["k"] in ("case", "default"):
                labels.append(None if x["k"] == "default" else self.ev(st, x["v"]))
                x = x["s"]
            items.append((labels, x))
        brk = st.mem["$brk"]
        st.mem["$brk"] = F
        allv = [l for ls, _ in items for l in ls if l is not None]
        entered = F
        for labels, x in items:
            for l in labels:
                if l is None:
                    entered = Or(entered, And(*[v != a for a in allv]))
                else:
                    entered = Or(entered, v == l)
            e = entered
            self.branch(st, e, lambda y: self.stmt(y, x), lambda y: None)
        st.mem["$brk"] = brk

    def s_try(self, st, s):
        exc0 = st.mem["$exc"]
        self.stmt(st, s["b"])
        for h in s["h"]:
            raised = And(st.mem["$exc"], Not(exc0))
            if isfalse(raised):
                break

            def run(x):
                x.mem["$exc"] = F
                self.stmt(x, h["b"])

            self.branch(st, raised, run, lambda x: None)

    def s_omp(self, st, s):
        if s["cls"] not in ("OMPCriticalDirective",):
            raise Unsupported(s["cls"])
        self.stmt(st, s["b"])

    def s_unsupported(self, st, s):
        raise Unsupported(s["cls"])

    # ------------------------------------------------------------ loops
    def loop_key(self, s):
        fn = self.fnstack[-1]
        ls = fn.get("$loops")
        if ls is None:
            ls = []

            def walk(x):
                if isinstance(x, dict):
                    if x.get("k") in ("for", "while", "do", "rfor"):
                        ls.append(x)
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)

            walk(fn["body"])
            fn["$loops"] = ls
        for i, x in enumerate(ls):
            if x is s:
                return (fn["q"], i)
        raise Unsupported("loop")

    def s_for(self, st, s):
        if s["init"]:
            self.stmt(st, s["init"])
        self.loop(st, s, lambda x: self.cond(x, s["c"]) if s["c"] else T,
                  lambda x: self.stmt(x, s["body"]),
                  lambda x: self.ev(x, s["inc"], discard=True) if s["inc"] else None)

    def s_while(self, st, s):
        self.loop(st, s, lambda x: self.cond(x, s["c"]), lambda x: self.stmt(x, s["body"]),
                  lambda x: None)

    def s_do(self, st, s):
        first = ["first"]
        self.loop(st, s, lambda x: self.cond(x, s["c"]), lambda x: self.stmt(x, s["body"]),
                  lambda x: None, dowhile=True)

    def s_rfor(self, st, s):
        r = s["range"]
        if r["k"] == "stdinit" or not self.is_lv(r):
            lv = self.alloc(st, self.ev(st, r), "range")
        else:
            lv = self.lv(st, r)
        v = self.read(st, lv)
        if isinstance(v, Arr):
            for i in range(len(v.e)):
                self.one_iter(st, lambda x, i=i: self.rbind(x, s, lv.sub(("i", i))), s)
            st.mem["$brk"] = F
            return
        idx = self.alloc(st, z3.IntVal(0), "idx")
        if isinstance(v, Vec):
            def body(x):
                self.rbind(x, s, lv.sub(("i", self.read(x, idx))))
                self.stmt(x, s["body"])

            self.loop(st, s, lambda x: self.read(x, idx) < self.read(x, lv).n, body,
                      lambda x: self.write(x, idx, self.read(x, idx) + 1), idx=idx)
            return
        if isinstance(v, (Set, Map)):
            return self.rfor_set(st, s, lv, v)
        h = self.hooks.get(("rfor", type(v).__name__))
        if h is not None:
            return h(self, st, s, lv, v)
        if isinstance(v, Rec) and self.P.by_q.get(v.type + "::begin"):
            c = ct.is_const(r["t"]) if hasattr(ct, "is_const") else r["t"].startswith("const ")
            w = self.run(st, v.type + "::begin", lv, [], nargs=0, const=c)
            en = self.run(st, v.type + "::end", lv, [], nargs=0, const=c)
            if getattr(w, "begin", False) and en.key is None and w.lv == en.lv:
                return self.rfor_set(st, s, w.lv, self.read(st, w.lv))
            it, en = self.alloc(st, w, "begin"), self.alloc(st, en, "end")
            if isinstance(w, Rec):
                def body(x):
                    fn = self.P.find(w.type + "::operator*", 0, const=True)
                    self.rbind(x, s, self.call_fn(x, fn, it, []))
                    self.stmt(x, s["body"])
                return self.loop(st, s, lambda x: self.tobool(self.run(x, w.type + "::operator!=", it, [en])), body,
                                 lambda x: self.run(x, w.type + "::operator++", it, [], nargs=0))
        raise Unsupported("range-for over " + type(v).__name__)

    def rfor_set(self, st, s, lv, v):
        """every element exactly once, in no particular order: ghost set of visited elements"""
        ks = v.dom.sort().domain()
        vis = self.alloc(st, Set(v.kt, z3.K(ks, F)), "visited")
        cur = {}

        def cond(x):
            return self.read(x, vis).dom != self.read(x, lv).dom

        def body(x):
            k = z3.Const(fresh_name("elem"), ks)
            d, w = self.read(x, lv).dom, self.read(x, vis).dom
            self.facts.append(Implies(And(*x.pc, x.live()), And(z3.Select(d, k), Not(z3.Select(w, k)))))
            cur["k"] = k
            cur["dom"] = d
            kv = self.unkey(v.kt, k)
            self.rbind(x, s, lv.sub(("kp", k, kv)) if isinstance(v, Map) else self.alloc(x, kv, "elem"))
            self.stmt(x, s["body"])

        def inc(x):
            self.prove("range-for body leaves its range alone", self.read(x, lv).dom == cur["dom"], x)
            w = self.read(x, vis)
            self.write(x, vis, Set(v.kt, z3.Store(w.dom, cur["k"], T)))

        self.loop(st, s, cond, body, inc, idx=vis, rng=lv)

    def unkey(self, kt, k):
        """a value of type kt whose encoded key is k"""
        kt = ct.strip_cvref(kt)
        if kt in self.unkeys:
            return self.unkeys[kt](self, k)
        if isinstance(k, z3.ExprRef) and not isinstance(k, z3.DatatypeRef):
            return k
        nf = len(self.facts)
        el = self.fresh(kt, "el", rng=False)
        del self.facts[nf:]
        s = k.sort()
        it = iter(range(s.constructor(0).arity()))
        return tmap(lambda x: s.accessor(0, next(it))(k), el)

    unkeys = {}
    multi_index = False     # boost::multi_index containers as sequences

    def rbind(self, st, s, elv):
        v = s["var"]
        if "bindings" in v:
            val = self.read(st, elv)
            base = elv if ct.is_ref(v["type"]) else self.alloc(st, val, "sb")
            names = list(val.f) if isinstance(val, Rec) else range(len(val.e))
            for b, n in zip(v["bindings"], names):
                self.bind(st, b, base.sub(("f", n) if isinstance(val, Rec) else ("i", n)))
            return
        if ct.is_ref(v["type"]):
            self.bind(st, v, elv)
        else:
            self.bind(st, v, self.alloc(st, self.read(st, elv), v["name"]))

    def one_iter(self, st, bindf, s):
        if isfalse(st.live()):
            return
        cnt = st.mem["$cnt"]
        st.mem["$cnt"] = F
        bindf(st)
        self.stmt(st, s["body"])
        st.mem["$cnt"] = cnt

    def loop(self, st, s, cond, body, inc, idx=None, dowhile=False, rng=None):
        key = self.loop_key(s)
        brk, cnt = st.mem["$brk"], st.mem["$cnt"]
        guard = st.guard
        st.guard = And(guard, Not(brk), Not(cnt))
        st.mem["$brk"], st.mem["$cnt"] = F, F
        spec = self.loops.get(key) or self.loops.get(key[0]) or self.loops.get("*")
        if spec is not None and not dowhile:
            self.loop_inv(st, s, cond, body, inc, spec, idx, key, rng)
        else:
            self.loop_unroll(st, s, cond, body, inc, key, dowhile)
        st.guard = guard
        st.mem["$brk"], st.mem["$cnt"] = brk, cnt

    def loop_unroll(self, st, s, cond, body, inc, key, dowhile):
        n = 0
        sym = 0
        stack = []
        cur = st
        while True:
            if isfalse(cur.live()):
                break
            if dowhile and n == 0:
                c = T
            else:
                c = cond(cur)
                c = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
            if istrue(c):
                d = True
            elif isfalse(c):
                break
            else:
                d = self.decide(cur, c)
                if d is None and self.quick_unsat(cur, c):
                    break
                if d is None:
                    sym += 1
                    if sym > self.sym_unroll:
                        if self.sym_unroll == 0:
                            raise Unsupported("loop without invariant: %s loop %d" % key)
                        self.prove("unwinding %s loop %d" % key, Not(c), cur, kind="unwind")
                        break
                    a = cur.copy()
                    a.pc.append(c)
                    stack.append((c, cur, a))
                    cur = a
            n += 1
            if n > self.max_unroll:
                raise Unsupported("loop unrolled too far: %s loop %d" % key)
            cur.mem["$cnt"] = F
            body(cur)
            cur.mem["$cnt"] = F
            if isfalse(cur.live()):
                break
            if not istrue(cur.live()):
                lv = cur.live()
                a = cur.copy()
                a.pc.append(lv)
                for k in ("$ret", "$brk", "$cnt", "$exc"):
                    a.mem[k] = F
                a.guard = T
                stack.append((lv, cur, a))
                cur = a
            inc(cur)
        while stack:
            c, b, a = stack.pop()
            m = self.merge(c, a, b)
            self.assign_state(b, m)

    def quick_unsat(self, st, c):
        s = z3.Solver()
        s.set("timeout", 2000)
        for f in self.facts[-400:]:
            s.add(f)
        for p in st.pc:
            s.add(p)
        s.add(st.live())
        s.add(c)
        return s.check() == z3.unsat

    split_inv = False
    set_of_range = None

    def loop_inv(self, st, s, cond, body, inc, spec, idx, key, rng=None):
        nm = "%s loop %d" % key
        inv, variant = spec["inv"], spec.get("variant")
        its = []        # container iterators the loop moves: they stay valid

        def inv_its(x):
            out = []
            for r in its:
                v = x.mem[r]
                if getattr(v, "key", None) is not None and hasattr(v, "has"):
                    out.append(v.valid(self.read(x, v.lv).dom))
            return And(*out)
        if rng is not None:
            inv0 = inv

            def inv(c):
                return And(self.conj(inv0(c)), z3.IsSubset(c.idx.dom, self.read(c.st, rng).dom))
        entry = st.copy()
        mk = lambda x: Ctx(self, x, self.read(x, idx) if idx is not None else None, entry, rng)
        def prove_inv(what, x):
            i = inv(mk(x))
            if self.split_inv and isinstance(i, (list, tuple)):
                for n, y in enumerate(i):
                    self.prove("%s: invariant %s, part %d" % (nm, what, n + 1), y, x)
            else:
                self.prove("%s: invariant %s" % (nm, what), self.conj(i), x)
        prove_inv("on entry", st)
        # frame: what the body can change, found by running it on havocked copies to a fixpoint
        outermost = not Quiet.on
        if outermost:
            Quiet.on, Quiet.n, Quiet.frames = True, 0, {}
        base = Quiet.n
        memo = (id(s), base)
        try:
            changed = Quiet.frames.get(memo, set())
            for _ in range(8):
                Quiet.n = base
                h = st.copy()
                for r, p in sorted(changed):
                    h.mem[r] = rec_map(h.mem[r], p, self.fresh_like)
                Quiet.n = base + 10 ** 5
                before = dict(h.mem)
                self.quiet += 1
                nf = len(self.facts)
                try:
                    c = cond(h)
                    h.mem["$cnt"] = F
                    body(h)
                    h.mem["$cnt"] = F
                    inc(h)
                finally:
                    self.quiet -= 1
                    del self.facts[nf:]
                new = {(r, p) for r in before if not r.startswith("$") for p in rec_diff(h.mem[r], before[r])} | changed
                # a path inside an already changed one is covered by it
                new = {(r, p) for r, p in new if not any((r, p[:i]) in new for i in range(len(p)))}
                if new == changed:
                    break
                changed = new
            else:
                raise Unsupported("loop frame did not stabilise")
            Quiet.frames[memo] = changed
        finally:
            Quiet.n = base
            if outermost:
                Quiet.on = False
        its += [r for r, p in sorted(changed) if type(st.mem[r]).__name__ == "It"]
        if its:
            self.prove(nm + ": iterators valid on entry", inv_its(st), st)
        for r, p in sorted(changed):
            st.mem[r] = rec_map(st.mem[r], p, lambda v, r=r, p=p: self.fresh_like(v, (p or (r.split("!")[0],))[-1]))
        if its:
            self.assume(inv_its(st), st)
        if spec.get("pre_havoc"):
            spec["pre_havoc"](mk(st))
        if self.quiet:
            # finding the frame of an enclosing loop: all this loop can change is havocked
            if spec.get("after"):
                spec["after"](mk(st))
            return
        self.assume(self.conj(inv(mk(st))), st)
        c = cond(st)
        b = st.copy()
        b.pc.append(c)
        v0 = variant(mk(b)) if variant else None
        if v0 is not None:
            self.prove(nm + ": variant bounded", v0 >= 0, b)
        body(b)
        b.mem["$cnt"] = F
        e = b.copy()  # state at an early exit
        inc(b)
        prove_inv("preserved", b)
        if its:
            self.prove(nm + ": iterators stay valid", inv_its(b), b)
        if v0 is not None:
            self.prove(nm + ": variant decreases", variant(mk(b)) < v0, b)
        exited = Not(e.live())
        # without an early exit the state after the loop is the one in which the condition is false
        if e.guard.eq(st.guard) and all(e.mem[k].eq(st.mem[k]) for k in ("$ret", "$brk", "$cnt", "$exc")):
            exited, m = F, st
        else:
            m = self.merge(c, e, st)
        # the iteration that goes round again is cut
        self.facts.append(Implies(And(*st.pc, st.live(), c), exited))
        self.assign_state(st, m)
        if spec.get("after"):
            spec["after"](mk(st))

    def conj(self, x):
        return And(*x) if isinstance(x, (list, tuple)) else x

    # ------------------------------------------------------------ expressions
    def is_lv(self, e):
        k = e["k"]
        if k in ("ref", "this"):
            return k == "ref" and "const" not in e
        if k == "member":
            return e["arrow"] or self.is_lv(e["e"]) or True
        if k == "idx":
            return True
        if k == "un":
            return e["op"] in ("*",) or (e["op"] in ("++", "--") and not e.get("post"))
        if k in ("call", "mcall", "opcall"):
            return "f" in e and ct.is_ref(e["f"]["ret"]) and not e["f"]["ret"].endswith("&&")
        if k == "cast":
            return e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived") and \
                self.is_lv(e["e"])
        if k == "cas":
            return True
        if k == "bin":
            return e["op"] == "=" or (e["op"] == "," and self.is_lv(e["b"]))
        if k == "cond":
            return False
        return False

    def lv(self, st, e):
        k = e["k"]
        if k == "ref":
            if "global" in e:
                lv = self.global_lv(st, e)
                if self.ref_hook is not None:
                    self.ref_hook(self, st, e, lv)
                return lv
            did = e["id"]
            if did in st.env:
                if self.ref_hook is not None and e.get("slocal"):
                    self.ref_hook(self, st, e, st.env[did])
                return st.env[did]
            raise Unsupported("unbound variable " + e["name"])
        if k == "member":
            if "static" in e:
                return self.global_lv(st, {"global": e["static"], "t": e["t"], "name": e["name"]})
            base = self.ptr(st, e["e"]) if e["arrow"] else self.lvt(st, e["e"])
            if self.member_hook is not None:
                self.member_hook(self, st, e, base)
            lv = base.sub(("f", e["name"]))
            if e.get("fref"):       # the object a reference member is bound to
                r = self.raw_member(st, base, e["name"])
                if isinstance(r, LV):
                    return r
            return lv
        if k == "idx":
            a = e["a"]
            if a["k"] == "cast" and a["ck"] == "ArrayToPointerDecay":
                base = self.lvt(st, a["e"])
                return base.sub(("i", self.index(st, e["b"])))
            p = self.ev(st, a)
            return self.padd(st, p, self.index(st, e["b"]))
        if k == "un" and e["op"] == "*":
            return self.ptr(st, e["e"])
        if k == "un" and e["op"] in ("++", "--"):
            l = self.lv(st, e["e"])
            self.incdec(st, l, e["op"], e["t"])
            return l
        if k == "cast":
            return self.lv(st, e["e"])
        if k in ("call", "mcall", "opcall"):
            v = self.call(st, e)
            if isinstance(v, LV):
                return v
            return self.alloc(st, v)
        if k == "cas" or (k == "bin" and e["op"] == "="):
            self.ev(st, e, discard=True)
            return self.lv(st, e["a"])
        if k == "bin" and e["op"] == ",":
            self.ev(st, e["a"], discard=True)
            return self.lv(st, e["b"])
        raise Unsupported("lvalue " + k)

    def raw_member(self, st, base, name):
        try:
            r = self.read(st, base)
        except (Unsupported, KeyError):
            return None
        return r.f.get(name) if isinstance(r, Rec) else None

    def lvt(self, st, e):
        """lvalue of e, materialising a temporary for a prvalue"""
        if self.is_lv(e) and not (e["k"] == "member" and not e["arrow"] and not self.is_lv(e["e"])
                                  and False):
            return self.lv(st, e)
        bit = e["k"] in ("call", "mcall", "opcall") and "f" in e and "_Bit_reference" in e["f"]["ret"]
        v = self.call(st, e) if bit else self.ev(st, e)
        if isinstance(v, LV) and not ct.is_ptr(e["t"]):
            return v
        return self.alloc(st, v)

    def index(self, st, e):
        i = toint(self.ev(st, e))
        if z3.is_bv(i):
            raise Unsupported("bit-vector index")
        i = z3.simplify(i)
        c = rc(i)
        return int(c) if c is not None else i

    def padd(self, st, p, i):
        """pointer arithmetic inside an array: pointers are LVs whose last step is an index"""
        if not isinstance(p, LV):
            raise Unsupported("pointer arithmetic on " + type(p).__name__)
        if p.path and p.path[-1][0] == "i":
            j = p.path[-1][1]
            if isinstance(j, int) and isinstance(i, int):
                n = j + i
            else:
                n = z3.simplify(z3.IntVal(j) + i if isinstance(j, int) else j + i)
                c = rc(n)
                n = int(c) if c is not None else n
            return LV(p.root, p.path[:-1] + (("i", n),))
        raise Unsupported("pointer arithmetic")

    def ptr(self, st, e):
        """the object a pointer expression points to"""
        if e["k"] == "this":
            if st.this is None:
                raise Unsupported("this outside a method")
            return st.this
        v = self.ev(st, e)
        if isinstance(v, LV):
            return v
        if isinstance(v, Opaque):
            raise Unsupported("dereference of an unknown pointer")
        raise Unsupported("dereference of " + type(v).__name__)

    def global_lv(self, st, e):
        key = "global:" + e["global"]
        if key not in st.mem:
            if e["global"] in self.hooks:
                st.mem[key] = self.hooks[e["global"]](self)
            else:
                g = self.P.glob.get(e["global"])
                if g is not None and g["type"].startswith("const ") and "init" in g:
                    st.mem[key] = self.conv(self.ev(st, g["init"]), g["type"])
                else:
                    st.mem[key] = self.fresh(e["t"], e["name"])
        return LV(key)

    def constant(self, c, t):
        if "i" in c:
            v = int(c["i"])
            if ct.is_bool(t):
                return T if v else F
            if ct.strip_cvref(t) in self.bv:
                return z3.BitVecVal(v, ct.bits(t))
            return z3.IntVal(v)
        return R(Fraction_(c["f"]))

    def ev(self, st, e, discard=False):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k + " " + str(e.get("cls", "")))
        return m(st, e)

    def e_unsupported(self, st, e):
        raise Unsupported("expression " + e["cls"])

    def e_int(self, st, e):
        if "v" not in e:
            raise Unsupported("constant")
        if ct.strip_cvref(e["t"]) in self.bv:
            return z3.BitVecVal(int(e["v"]), ct.bits(e["t"]))
        return z3.IntVal(int(e["v"]))

    def e_bool(self, st, e):
        return T if e["v"] else F

    def e_float(self, st, e):
        return R(Fraction_(e["v"]))

    def e_str(self, st, e):
        return StrLit(e.get("v", ""))

    def e_null(self, st, e):
        return Null()

    def e_zero(self, st, e):
        return self.default(st, e["t"])

    def e_this(self, st, e):
        return st.this

    def e_fref(self, st, e):
        return Closure(e["f"], {}, None)

    def e_ref(self, st, e):
        if "const" in e:
            return self.constant(e["const"], e["t"])
        lv = self.lv(st, e)
        return self.read(st, lv)

    def e_member(self, st, e):
        if "const" in e:
            return self.constant(e["const"], e["t"])
        return self.read(st, self.lv(st, e))

    def e_idx(self, st, e):
        return self.read(st, self.lv(st, e))

    def e_stdinit(self, st, e):
        return self.ev(st, e["e"])

    def e_list(self, st, e):
        t = ct.strip_cvref(e["t"])
        if "a" not in e:
            raise Unsupported("init list")
        n, a = ct.parse(t)
        if n == "std::array":
            if len(e["a"]) == 1 and e["a"][0]["k"] == "list":
                es = e["a"][0]["a"]
            elif len(e["a"]) == 0:
                es = []
            else:
                es = e["a"]
            vs = [self.conv(self.ev(st, x), a[0]) for x in es]
            while len(vs) < int(a[1]):
                vs.append(self.default(st, a[0]))
            return Arr(vs)
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            vs = [self.conv(self.ev(st, x), m.group(1)) for x in e["a"]]
            while len(vs) < int(m.group(2)):
                vs.append(self.default(st, m.group(1)))
            return Arr(vs)
        fl = self.P.fields(t)
        if fl is not None:
            f = {}
            for x, fd in zip(e["a"], fl):
                f[fd["name"]] = self.conv(self.ev(st, x), fd["type"])
            return Rec(t, f)
        if len(e["a"]) == 1:
            return self.ev(st, e["a"][0])
        if not e["a"]:
            return self.default(st, t)
        raise Unsupported("init list of " + t)

    def e_cond(self, st, e):
        c = self.cond(st, e["c"])
        return self.branch(st, c, lambda x: self.ev(x, e["a"]), lambda x: self.ev(x, e["b"]))

    def e_lambda(self, st, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = st.this
            elif c["ref"]:
                caps[c["id"]] = self.lookup(st, c["id"])
            else:
                caps[c["id"]] = self.alloc(st, self.read(st, self.lookup(st, c["id"])), c["name"])
        return Closure(e["f"], caps, this)

    def e_throw(self, st, e):
        if e["e"] is not None and e["e"]["k"] == "ctor":
            st.mem["$excinfo"] = StrLit(ct.strip_cvref(e["e"]["t"]))
        st.mem["$exc"] = Or(st.mem["$exc"], st.live())
        return VOID

    def e_new(self, st, e):
        v = self.ev(st, e["init"]) if "init" in e else self.default(st, e["nt"], trivial=True)
        return self.alloc(st, v, "heap")

    def e_un(self, st, e):
        op = e["op"]
        if op == "&":
            return self.lv(st, e["e"])
        if op == "*":
            return self.read(st, self.ptr(st, e["e"]))
        if op in ("++", "--"):
            lv = self.lv(st, e["e"])
            old = self.read(st, lv)
            self.incdec(st, lv, op, e["e"]["t"])
            return old if e.get("post") else self.read(st, lv)
        v = self.ev(st, e["e"])
        if op == "-":
            if z3.is_bv(v):
                return -v
            if ct.is_int(e["t"]):
                return self.wrap(self.fold(-toint(v)), e["t"])
            return rneg(toreal(v))
        if op == "+":
            return v
        if op == "!":
            return Not(self.tobool(v))
        if op == "~" and z3.is_bv(v):
            return ~v
        raise Unsupported("operator " + op)

    def incdec(self, st, lv, op, t):
        v = self.read(st, lv)
        d = 1 if op == "++" else -1
        if isinstance(v, LV):
            self.write(st, lv, self.padd(st, v, d))
        elif isinstance(v, z3.ExprRef) and z3.is_int(v):
            self.write(st, lv, self.wrap(self.fold(v + d), t))
        elif isinstance(v, z3.ExprRef) and z3.is_real(v):
            self.write(st, lv, radd(v, R(d)))
        elif z3.is_bv(v):
            self.write(st, lv, v + d)
        else:
            raise Unsupported("++ of " + type(v).__name__)

    def fold(self, t):
        c = z3.simplify(t) if isinstance(t, z3.ExprRef) else t
        return c if rc(c) is not None else t

    def wrap(self, v, t):
        """unsigned arithmetic wraps; only differences can leave the range (sums: see DESIGN.md)"""
        if ct.is_int(t) and ct.is_unsigned(t):
            c = rc(v)
            if c is not None:
                return z3.IntVal(int(c) % (2 ** ct.bits(t)))
        return v

    def e_bin(self, st, e):
        op = e["op"]
        if op == "=":
            v = self.ev(st, e["b"])
            lv = self.lv(st, e["a"])
            self.write(st, lv, self.conv(v, e["a"]["t"]))
            return v
        if op == ",":
            self.ev(st, e["a"], discard=True)
            return self.ev(st, e["b"])
        if op == "&&":
            a = self.cond(st, e["a"])
            return self.branch(st, a, lambda x: self.cond(x, e["b"]), lambda x: F)
        if op == "||":
            a = self.cond(st, e["a"])
            return self.branch(st, a, lambda x: T, lambda x: self.cond(x, e["b"]))
        a = self.ev(st, e["a"])
        b = self.ev(st, e["b"])
        return self.binop(st, op, a, b, e["t"], e["a"]["t"])

    def binop(self, st, op, a, b, t, ta=None):
        if isinstance(a, LV) or isinstance(b, LV) or isinstance(a, Null) or isinstance(b, Null):
            if op in ("==", "!="):
                if isinstance(a, LV) and isinstance(b, LV):
                    same = self.peq(a, b)
                elif isinstance(a, Null) and isinstance(b, Null):
                    same = T
                elif isinstance(a, (LV, Null)) and isinstance(b, (LV, Null)):
                    same = F
                else:
                    raise Unsupported("pointer comparison")
                return same if op == "==" else Not(same)
            if op == "+" and isinstance(a, LV):
                return self.padd(st, a, int(rc(b)) if rc(b) is not None else b)
            if op == "-" and isinstance(a, LV) and isinstance(b, z3.ExprRef):
                return self.padd(st, a, -int(rc(b)) if rc(b) is not None else -b)
            raise Unsupported("pointer operator " + op)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
        if z3.is_bv(a) or z3.is_bv(b):
            return self.bvop(op, a, b, ta or t)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if z3.is_bool(a) and z3.is_bool(b):
                if op == "==":
                    return a == b
                if op == "!=":
                    return z3.Xor(a, b)
            a, b = toint(a), toint(b)
            if z3.is_real(a) or z3.is_real(b):
                a, b = toreal(a), toreal(b)
            x, y = rc(a), rc(b)
            if x is not None and y is not None:
                r = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y,
                     ">=": x >= y}[op]
                return T if r else F
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
                    "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        if ct.is_int(t):
            a, b = toint(a), toint(b)
            if z3.is_real(a) or z3.is_real(b):
                raise Unsupported("integer operator on reals")
            if op == "+":
                return self.wrap(self.fold(a + b), t)
            if op == "-":
                r = self.fold(a - b)
                if ct.is_unsigned(t) and rc(r) is None:
                    return z3.If(a >= b, r, r + 2 ** ct.bits(t))
                return self.wrap(r, t)
            if op == "*":
                return self.wrap(self.fold(a * b), t)
            if op == "/":
                return self.fold(self.idiv(a, b))
            if op == "%":
                return self.fold(self.imod(a, b))
            if op in ("^", "&", "|", "<<", ">>"):
                x, y = rc(a), rc(b)
                if x is not None and y is not None and x >= 0 and y >= 0:
                    x, y = int(x), int(y)
                    r = {"^": x ^ y, "&": x & y, "|": x | y, "<<": x << y if y < 256 else 0,
                         ">>": x >> y}[op]
                    return z3.IntVal(r % 2 ** ct.bits(t))
                return self.uninterp("int" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            raise Unsupported("integer operator " + op)
        if ct.is_real(t):
            a, b = toreal(a), toreal(b)
            if op == "+":
                return radd(a, b)
            if op == "-":
                return rsub(a, b)
            if op == "*":
                return rmul(a, b)
            if op == "/":
                return rdiv(a, b)
        raise Unsupported("operator %s : %s" % (op, t))

    def peq(self, a, b):
        if a == b:
            return T
        if a.root == b.root and len(a.path) == len(b.path) and a.path and \
                a.path[:-1] == b.path[:-1] and a.path[-1][0] == "i" == b.path[-1][0]:
            x, y = a.path[-1][1], b.path[-1][1]
            x = z3.IntVal(x) if isinstance(x, int) else x
            y = z3.IntVal(y) if isinstance(y, int) else y
            return z3.simplify(x == y)
        return F

    def idiv(self, a, b):
        y = rc(b)
        if y is not None and y > 0:
            x = rc(a)
            if x is not None:
                q = abs(int(x)) // int(y)
                return z3.IntVal(q if x >= 0 else -q)
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def imod(self, a, b):
        y = rc(b)
        if y is not None and y > 0:
            x = rc(a)
            if x is not None:
                r = abs(int(x)) % int(y)
                return z3.IntVal(r if x >= 0 else -r)
            return z3.If(a >= 0, a % b, -((-a) % b))
        return a - b * self.idiv(a, b)

    def bvop(self, op, a, b, t):
        if not z3.is_bv(a) or not z3.is_bv(b):
            raise Unsupported("mixed bit-vector operator")
        if a.size() != b.size():
            raise Unsupported("bit-vector sizes")
        u = ct.is_unsigned(t)
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "^": lambda: a ^ b,
             "&": lambda: a & b, "|": lambda: a | b, "<<": lambda: a << b,
             ">>": lambda: z3.LShR(a, b) if u else a >> b,
             "==": lambda: a == b, "!=": lambda: a != b,
             "<": lambda: z3.ULT(a, b) if u else a < b, "<=": lambda: z3.ULE(a, b) if u else a <= b,
             ">": lambda: z3.UGT(a, b) if u else a > b, ">=": lambda: z3.UGE(a, b) if u else a >= b}
        if op not in f:
            raise Unsupported("bit-vector operator " + op)
        return f[op]()

    def e_cas(self, st, e):
        b = self.ev(st, e["b"])
        lv = self.lv(st, e["a"])
        a = self.read(st, lv)
        op = e["op"][:-1]
        ctt = e["ct"]
        if isinstance(a, LV):
            self.write(st, lv, self.binop(st, op, a, b, ctt))
            return self.read(st, lv)
        if ct.is_real(ctt):
            r = self.binop(st, op, toreal(a), toreal(b), ctt)
            if ct.is_int(e["a"]["t"]):
                r = self.real_to_int(r)
        elif z3.is_bv(a):
            b2 = b
            if z3.is_bv(b) and b.size() < a.size():
                b2 = z3.ZeroExt(a.size() - b.size(), b) if ct.is_unsigned(e["b"]["t"]) else \
                    z3.SignExt(a.size() - b.size(), b)
            elif not z3.is_bv(b):
                b2 = z3.Int2BV(b, a.size()) if rc(b) is None else z3.BitVecVal(int(rc(b)), a.size())
            r = self.bvop(op, a, b2, e["a"]["t"])
        elif z3.is_bool(a):
            if op == "|":
                r = Or(a, self.tobool(b))
            elif op == "&":
                r = And(a, self.tobool(b))
            else:
                raise Unsupported("bool " + e["op"])
        else:
            r = self.binop(st, op, a, b, ctt, e["a"]["t"])
        self.write(st, lv, r)
        return self.read(st, lv)

    def real_to_int(self, v):
        v = toreal(v)
        c = rc(v)
        if c is not None:
            return z3.IntVal(int(c))
        if z3.is_to_real(v):
            return v.arg(0)
        i = self.as_int(v)
        if i is not None:
            return i
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def e_cast(self, st, e):
        ck = e["ck"]
        if ck in ("LValueToRValue", "NoOp", "DerivedToBase", "UncheckedDerivedToBase",
                  "ConstructorConversion", "BaseToDerived", "AtomicToNonAtomic"):
            return self.ev(st, e["e"])
        if ck == "UserDefinedConversion":
            return self.ev(st, e["e"])
        if ck == "Dynamic" and getattr(self, "dynamic_ok", False):
            return self.ev(st, e["e"])  # the object has the type that is asked for (an assumption of the task)
        if ck == "ToVoid":
            self.ev(st, e["e"], discard=True)
            return VOID
        if ck == "ArrayToPointerDecay":
            if e["e"]["k"] == "str":
                return self.ev(st, e["e"])
            return self.lvt(st, e["e"]).sub(("i", 0))
        if ck == "FunctionToPointerDecay":
            return self.ev(st, e["e"])
        if ck == "NullToPointer":
            return Null()
        v = self.ev(st, e["e"])
        t = e["t"]
        if ck == "IntegralCast":
            return self.int_cast(v, e["e"]["t"], t)
        if ck == "BooleanToSignedIntegral":
            return toint(v)
        if ck == "IntegralToFloating":
            if z3.is_bv(v):
                raise Unsupported("bit-vector to real")
            return toreal(v)
        if ck == "FloatingCast":
            return toreal(v)
        if ck == "FloatingToIntegral":
            return self.real_to_int(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck in ("BitCast",):
            return v
        if ck == "IntegralToPointer":
            c = rc(z3.simplify(v)) if isinstance(v, z3.ExprRef) and z3.is_int(v) else None
            if c is not None:
                return Opaque("address", "address %d" % c)
        raise Unsupported("cast " + ck)

    def int_cast(self, v, f, t):
        if z3.is_bv(v):
            if ct.strip_cvref(t) not in self.bv:
                raise Unsupported("bit-vector to int")
            n, m = v.size(), ct.bits(t)
            if m < n:
                return z3.Extract(m - 1, 0, v)
            if m == n:
                return v
            return z3.ZeroExt(m - n, v) if ct.is_unsigned(f) else z3.SignExt(m - n, v)
        v = toint(v)
        if ct.strip_cvref(t) in self.bv:
            c = rc(v)
            if c is None:
                raise Unsupported("int to bit-vector")
            return z3.BitVecVal(int(c), ct.bits(t))
        if not ct.is_int(t) or not ct.is_int(f):
            return v
        if ct.is_unsigned(t) and not ct.is_unsigned(f):
            c = rc(v)
            if c is not None:
                return z3.IntVal(int(c) % 2 ** ct.bits(t))
            return z3.If(v >= 0, v, v + 2 ** ct.bits(t))
        if not ct.is_unsigned(t) and ct.is_unsigned(f) and ct.bits(t) <= ct.bits(f):
            c = rc(v)
            h = 2 ** (ct.bits(t) - 1)
            if c is not None:
                w = int(c) % (2 * h)
                return z3.IntVal(w if w < h else w - 2 * h)
            return v
        return v

    # ------------------------------------------------------------ calls
    def e_call(self, st, e):
        return self.rv(st, self.call(st, e), e)

    e_mcall = e_call
    e_opcall = e_call

    def rv(self, st, v, e):
        if isinstance(v, LV) and "f" in e and (ct.is_ref(e["f"]["ret"]) or not (
                ct.is_ptr(e["f"]["ret"]) or "_ptr" in e["f"]["ret"] or "iterator" in e["f"]["ret"] or
                e["f"]["ret"].endswith("*"))):
            return self.read(st, v)
        return v

    def call(self, st, e):
        if "f" not in e:
            if "fe" in e:
                v = self.ev(st, e["fe"])
                if isinstance(v, Closure):
                    return self.call_closure(st, v, e["a"])
            raise Unsupported("indirect call")
        f = e["f"]
        k = e["k"]
        args = list(e["a"])
        obj = None
        if k == "mcall":
            obj = e["o"] if "o" in e else None
        elif k == "opcall" and "cls" in f and not f.get("static"):
            obj, args = args[0], args[1:]
        elif k == "mcall":
            pass
        q = ct.strip_targs(f["q"])
        A = Args(self, st, e, f, obj, args)
        self.called.add(f["q"])
        for key in ("%s/%d" % (f["q"], len(args)), f["q"], "%s/%d" % (q, len(args)), q):
            if key in self.contracts:
                self.used_contracts.add(key)
                return self.contracts[key](self, st, A)
        body = self.body_of(f, obj, st, A)
        if body is not None:
            this = A.this() if obj is not None else None
            return self.call_fn(st, body, this, None, args, st)
        if obj is not None and f["name"] == "operator()":
            v = self.read(st, A.this())
            if isinstance(v, Closure):
                return self.call_closure(st, v, args)
        h = HANDLERS.get("%s/%d" % (q, len(args))) or HANDLERS.get(q)
        if h is None and "cls" in f:
            h = HANDLERS.get("*::" + f["name"])
        if h is None and k == "opcall":
            h = HANDLERS.get("operator" + e["op"])
        if h is None:
            raise Unsupported("call of %s" % f["q"][-160:])
        self.trusted.add(q)
        r = h(self, st, A)
        return r

    def body_of(self, f, obj, st, A):
        b = self.P.fn.get(f["m"])
        if f.get("virtual") and obj is not None and not A.e.get("qualified"):
            try:
                v = self.read(st, A.this())
            except Unsupported:
                return b
            if isinstance(v, Rec):
                t = v.type
                while t in self.P.rec:
                    for c in self.P.by_q.get(t + "::" + f["name"], []):
                        if len(c["params"]) == len(f["ptypes"]):
                            return c
                    bs = self.P.rec[t]["bases"]
                    if not bs:
                        break
                    t = ct.strip_cvref(bs[0])
        return b

    def call_closure(self, st, c, args):
        fn = self.P.fn.get(c.f["m"])
        if fn is None:
            raise Unsupported("closure body of " + c.f["q"])
        return self.call_fn(st, fn, c.this, None, args, st, extra=c.caps)

    def call_fn(self, st, fn, this, vals, args=None, caller=None, extra=None):
        """execute a body; vals are values/LVs (from a specification) or args expressions"""
        if self.depth > 40 or any(x is fn for x in self.fnstack[-30:]) and self.fnstack.count(fn) > 3:
            raise Unsupported("recursion in " + fn["q"])
        binds = []
        for i, p in enumerate(fn["params"]):
            t = p["type"]
            if vals is not None:
                v = vals[i]
                if isinstance(v, LV) and (ct.is_ref(t) or ct.is_ptr(t)):
                    lv = v if ct.is_ref(t) else self.alloc(st, v, p["name"])
                else:
                    if isinstance(v, LV) and not ct.is_ptr(t):
                        v = self.read(st, v)
                    lv = self.alloc(st, self.conv(v, t), p["name"] or "arg")
            else:
                a = args[i]
                if ct.is_ref(t) and not t.endswith("&&") and self.is_lv(a):
                    lv = self.lv(st, a)
                elif t.endswith("&&") and self.is_lv(a):
                    lv = self.lv(st, a)
                else:
                    lv = self.alloc(st, self.conv(self.ev(st, a), t), p["name"] or "arg")
            binds.append((p, lv))
        if not istrue(st.live()) and not isfalse(st.live()):
            return self.under_live(st, lambda x: self.call_bound(x, fn, this, binds, extra))
        return self.call_bound(st, fn, this, binds, extra)

    def call_bound(self, st, fn, this, binds, extra):
        sv = (st.env, st.names, st.this, st.guard, st.mem.get("$retv"), st.mem["$ret"], st.mem["$brk"],
              st.mem["$cnt"])
        st.env = dict(extra or {})
        if extra is not None:
            env = dict(sv[0])
            env.update(extra)
            st.env = env
        st.names = {}
        st.this = this
        st.guard = And(sv[3], Not(sv[5]), Not(sv[6]), Not(sv[7]))
        st.mem["$ret"], st.mem["$brk"], st.mem["$cnt"] = F, F, F
        st.mem.pop("$retv", None)
        for p, lv in binds:
            self.bind(st, p, lv)
        self.fnstack.append(fn)
        self.inlined.add(fn["q"])
        self.depth += 1
        try:
            if fn.get("ctor"):
                self.ctor_inits(st, fn)
            self.stmt(st, fn["body"])
        finally:
            self.depth -= 1
            self.fnstack.pop()
        r = st.mem.get("$retv", VOID)
        st.env, st.names, st.this, st.guard = sv[:4]
        st.mem["$ret"], st.mem["$brk"], st.mem["$cnt"] = sv[5:]
        if sv[4] is None:
            st.mem.pop("$retv", None)
        else:
            st.mem["$retv"] = sv[4]
        if isinstance(r, Poison):
            raise Unsupported(r.why)
        rt = fn.get("ret")
        if r is VOID and rt in ("double", "float", "int"):  # never returns
            r = self.fresh(rt, "no_result")
        return r

    def ctor_inits(self, st, fn):
        for i in fn["inits"]:
            if "field" in i:
                t = i["type"]
                lv = st.this.sub(("f", i["field"]))
                if ct.is_ref(t):
                    # bound to an object; a specification may also supply just the value
                    x = i["init"]
                    v = self.lv(st, x) if self.is_lv(x) else self.ev(st, x)
                    self.write(st, lv, v)
                    continue
                v = self.ev(st, i["init"])
                self.write(st, lv, self.conv(v, t))
            elif "base" in i or i.get("delegate"):
                self.construct_into(st, i["init"], st.this)

    def construct_into(self, st, e, lv):
        """run a constructor expression on an existing object (base or delegated)"""
        if e["k"] != "ctor":
            raise Unsupported("base initialiser")
        fn = self.P.fn.get(e["f"]["m"])
        if fn is not None:
            self.call_fn(st, fn, lv, None, e["a"], st)
            return
        q = ct.strip_targs(e["f"]["q"])
        if q in self.contracts:
            A = Args(self, st, e, e["f"], None, e["a"])
            A._this = lv
            self.contracts[q](self, st, A)
            return
        t = ct.strip_cvref(e["t"])
        if e.get("copy"):
            v = self.ev(st, e["a"][0])
            old = self.read(st, lv)
            f = dict(old.f)
            f.update(v.f)
            self.write(st, lv, Rec(old.type, f))
            return
        if not e["a"]:
            v = self.default(st, t, trivial=True)
            if isinstance(v, Rec):
                old = self.read(st, lv)
                f = dict(old.f)
                f.update(v.f)
                self.write(st, lv, Rec(old.type, f))
                return
            return
        raise Unsupported("base constructor " + e["f"]["q"])

    def e_ctor(self, st, e):
        f = e["f"]
        t = ct.strip_cvref(e["t"])
        q = ct.strip_targs(f["q"])
        if e.get("copy"):
            a = e["a"][0]
            v = self.ev(st, a)
            if isinstance(v, LV) and not ct.is_ptr(t) and "_ptr" not in t and "iterator" not in t:
                v = self.read(st, v)
            return v
        for key in ("%s/%d" % (f["q"], len(e["a"])), f["q"], q):
            if key in self.contracts:
                self.used_contracts.add(key)
                return self.contracts[key](self, st, Args(self, st, e, f, None, e["a"]))
        fn = self.P.fn.get(f["m"])
        if fn is not None:
            fl = self.P.fields(t)
            if fl is None:
                raise Unsupported("constructor of unknown record " + t)
            lv = self.alloc(st, Rec(t, {}), "obj")
            self.call_fn(st, fn, lv, None, e["a"], st)
            return st.mem[lv.root]
        n, targs = ct.parse(t)
        h = HANDLERS.get("ctor:" + n)
        A = Args(self, st, e, f, None, e["a"])
        if h is not None:
            self.trusted.add(q)
            return h(self, st, A)
        if not e["a"]:
            return self.default(st, t, trivial=not e.get("zero"))
        raise Unsupported("constructor %s" % f["q"][:120])

    # ------------------------------------------------------------ entry points for specifications
    def new_state(self):
        return State()

    def run(self, st, q, this=None, args=(), nargs=None, const=None, ptypes=None, fn=None):
        """call function q of the extracted program; returns its value (a reference is read)"""
        fn = fn or self.P.find(q, len(args) if nargs is None else nargs, const, ptypes)
        r = self.call_fn(st, fn, this, list(args))
        if isinstance(r, LV) and not ct.is_ptr(fn["ret"]):
            r = self.read(st, r)
        return r


class Args:
    """the arguments of a call, evaluated on demand, in order"""

    def __init__(self, E, st, e, f, obj, args):
        self.E, self.st, self.e, self.f, self.obj, self.args = E, st, e, f, obj, args
        self._this = None
        self.n = len(args)
        self._v = {}

    def this(self):
        if self._this is None:
            e = self.e
            if e["k"] == "mcall" and e.get("arrow"):
                if self.obj["k"] == "this":
                    self._this = self.E.ptr(self.st, self.obj)
                else:
                    self._this = self.E.ptr(self.st, self.obj)
            else:
                if self.obj["k"] == "this":
                    self._this = self.E.ptr(self.st, self.obj)
                else:
                    self._this = self.E.lvt(self.st, self.obj)
        return self._this

    def thisv(self):
        return self.E.read(self.st, self.this())

    def thisv_or_val(self):
        if self._this is None and self.obj is not None and not self.E.is_lv(self.obj) and \
                not self.e.get("arrow"):
            v = self.E.ev(self.st, self.obj)
            if isinstance(v, LV):
                self._this = v
                return self.E.read(self.st, v)
            self._this = self.E.alloc(self.st, v)
            return v
        return self.thisv()

    def this_it(self):
        """an iterator-like object: an It, or the pointer it stands for"""
        return self.thisv_or_val()

    def val(self, i):
        if i not in self._v:
            v = self.E.ev(self.st, self.args[i])
            self._v[i] = v
        return self._v[i]

    def lv(self, i):
        return self.E.lvt(self.st, self.args[i])

    def t(self, i):
        return self.args[i]["t"]


def Fraction_(s):
    from fractions import Fraction
    s = s.strip()
    if s.lower().startswith(("0x", "-0x")):
        return Fraction(float.fromhex(s))
    return Fraction(s)


def _make(self, st, t, args, nargs=None, ptypes=None):
    """construct an object of record type t with the constructor taking these arguments"""
    name = ct.strip_targs(t).split("::")[-1]
    fn = None
    c = [f for f in self.P.by_q.get(t + "::" + name, []) if len(f["params"]) == len(args)]
    if ptypes is not None:
        c = [f for f in c if all(p in q["type"] for p, q in zip(ptypes, f["params"]))]
    if len(c) != 1:
        raise Unsupported("constructor of %s: %d candidates" % (t, len(c)))
    lv = self.alloc(st, Rec(t, {}), "obj")
    self.call_fn(st, c[0], lv, list(args))
    return lv


Engine.make = _make
