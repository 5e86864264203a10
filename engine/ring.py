"""Back end for equations between rational functions of opaque terms.

Decides hyps => (A == B) by: splitting on the conditions of if-then-else terms (infeasible combinations are discarded by
z3), identifying opaque terms that z3 proves equal under the branch, and comparing both sides as quotients of
polynomials with rational coefficients in the remaining opaque terms. Equal quotients are equal wherever no divisor is
zero, which is the stated proviso. Anything else is "unknown": this back end never refutes.
"""
import time
from fractions import Fraction

import z3


class Give(Exception):
    pass


MAXTERMS = 60000


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS * 20:
        raise Give("polynomial too large")
    r = {}
    for m, c in a.items():
        dm = dict(m)
        for n, d in b.items():
            if not n:
                k = m
            elif not m:
                k = n
            else:
                e = dict(dm)
                for x, p in n:
                    e[x] = e.get(x, 0) + p
                k = tuple(sorted(e.items()))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise Give("polynomial too large")
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


class Q:
    """numerator polynomial over a product of powers of monic polynomials"""

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


def key(p):
    return tuple(sorted(p.items()))


def scale(p, f):
    return {m: c * f for m, c in p.items()}


def ppow(p, n):
    r = const(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def qadd(a, b, f=1):
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = max(den.get(k, 0), e)
    na, nb = a.num, b.num
    for k, e in den.items():
        da, db = e - a.den.get(k, 0), e - b.den.get(k, 0)
        if da:
            na = pmul(na, ppow(dict(k), da))
        if db:
            nb = pmul(nb, ppow(dict(k), db))
    return Q(padd(na, nb, f), den)


def qmul(a, b):
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = den.get(k, 0) + e
    return Q(pmul(a.num, b.num), den)


def qinv(a):
    if not a.num:
        raise Give("division by zero")
    if len(a.num) == 1:     # a monomial: its factors are the divisors
        (m, c), = a.num.items()
        den = {key({((x, 1),): Fraction(1)}): e for x, e in m}
        num = const(Fraction(1) / c)
    else:
        lead = max(a.num)
        c = a.num[lead]
        den = {key(scale(a.num, Fraction(1) / c)): 1}
        num = const(Fraction(1) / c)
    for k, e in a.den.items():
        num = pmul(num, ppow(dict(k), e))
    return Q(num, den)


def expand(t, memo):
    """reads of updated arrays as if-then-else"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = t
    if not z3.is_quantifier(t) and t.num_args():
        cs = [expand(c, memo) for c in t.children()]
        if any(not c.eq(d) for c, d in zip(cs, t.children())):
            r = z3.substitute(t, *[(d, c) for c, d in zip(cs, t.children())])
        if z3.is_select(r) and r.num_args() == 2:
            a, k = r.children()
            st = []
            while z3.is_store(a) and a.num_args() == 3:
                st.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            if st:
                r = expand(z3.Select(a, k), memo)
                for j, v in reversed(st):
                    r = v if j.eq(k) else z3.If(j == k, v, r)
    memo[i] = (t, r)
    return r


def simp(t):
    return z3.simplify(expand(t, {}), expand_select_store=True, expand_select_ite=True)


class Norm:
    def __init__(self, rep):
        self.rep, self.memo = rep, {}

    def atom(self, t):
        i = self.rep(t)
        return Q({((i, 1),): Fraction(1)})

    def q(self, t):
        i = t.get_id()
        if i not in self.memo:
            self.memo[i] = self._q(t)
        return self.memo[i]

    def _q(self, t):
        if z3.is_rational_value(t):
            return Q(const(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        if z3.is_int_value(t):
            return Q(const(t.as_long()))
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_REAL:
            return self.q(t.arg(0))
        if k == z3.Z3_OP_ADD:
            r = Q({})
            for c in t.children():
                r = qadd(r, self.q(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.q(t.arg(0))
            for c in t.children()[1:]:
                r = qadd(r, self.q(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = self.q(t.arg(0))
            return Q(scale(r.num, -1), r.den)
        if k == z3.Z3_OP_MUL:
            r = Q(const(1))
            for c in t.children():
                r = qmul(r, self.q(c))
            return r
        if k == z3.Z3_OP_DIV:
            return qmul(self.q(t.arg(0)), qinv(self.q(t.arg(1))))
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) or \
                k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1:
            n = t.arg(1).as_long() if z3.is_int_value(t.arg(1)) else t.arg(1).numerator_as_long()
            b, r = self.q(t.arg(0)), Q(const(1))
            for _ in range(abs(n)):
                r = qmul(r, b)
            return r if n >= 0 else qinv(r)
        return self.atom(t)


def find_ite(t, seen):
    """an if-then-else whose condition contains none"""
    if t.get_id() in seen:
        return None
    seen.add(t.get_id())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return find_ite(t.arg(0), seen) if has_ite(t.arg(0)) else t.arg(0)
    for c in t.children():
        r = find_ite(c, seen)
        if r is not None:
            return r
    return None


def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_app_of(t, z3.Z3_OP_ITE) or any(has_ite(c, seen) for c in t.children())


def check(s, assumptions, ms):
    s.push()
    s.set("timeout", ms)
    for a in assumptions:
        s.add(a)
    r = s.check()
    m = s.model() if r == z3.sat else None
    s.pop()
    return r, m


def atoms_of(t, out):
    """maximal subterms that are not ring operations"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return
    k = t.decl().kind()
    if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        for c in t.children():
            atoms_of(c, out)
    else:
        out[t.get_id()] = t


def abstract(t, memo):
    """nonlinear operations as uninterpreted functions (weaker, so unsat carries over)"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = t
    if z3.is_quantifier(t):
        r = t
    elif t.num_args():
        cs = [abstract(c, memo) for c in t.children()]
        k = t.decl().kind()
        num = lambda x: z3.is_rational_value(x) or z3.is_int_value(x)
        if k == z3.Z3_OP_MUL and sum(not num(c) for c in cs) > 1 or \
                k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not num(cs[1]):
            so = t.sort()
            if k == z3.Z3_OP_MUL:
                cs = [c if c.sort() == so else z3.ToReal(c) for c in cs]
                cs.sort(key=lambda c: c.get_id())
            f = z3.Function("nl!%d!%s" % (k, "".join(str(c.sort())[0] for c in cs)), *([c.sort() for c in cs] + [so]))
            r = f(*cs)
        elif any(not c.eq(d) for c, d in zip(cs, t.children())):
            if k == z3.Z3_OP_AND:
                r = z3.And(*cs)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*cs)
            elif k == z3.Z3_OP_ADD:
                r = sum(cs[1:], cs[0])
            elif k == z3.Z3_OP_MUL:
                r = cs[0]
                for c in cs[1:]:
                    r = r * c
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*cs)
            elif k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
            else:
                r = t.decl()(*cs)
    memo[i] = (t, r)
    return r


def reduce(p, squares):
    """modulo x*x == c"""
    if not squares or not p:
        return p
    r = {}
    for m, c in p.items():
        k = []
        for x, e in m:
            if x in squares:
                c *= squares[x] ** (e // 2)
                e %= 2
            if e:
                k.append((x, e))
        k = tuple(k)
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def square(h):
    """(x, c) if h says x*x == c for a constant x and a number c"""
    if not z3.is_eq(h) or not z3.is_arith(h.arg(0)):
        return None
    for l, n in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
        if z3.is_mul(l) and l.num_args() == 2 and l.arg(0).eq(l.arg(1)) and not l.arg(0).num_args() and z3.is_const(l.arg(0)):
            if z3.is_int_value(n):
                return l.arg(0), Fraction(n.as_long())
            if z3.is_rational_value(n):
                return l.arg(0), Fraction(n.numerator_as_long(), n.denominator_as_long())
    return None


class Ctx:
    """hypotheses with nonlinear operations uninterpreted, in one incremental solver"""

    def __init__(self, hyps):
        self.memo, self.s, self.hyps = {}, z3.Solver(), list(hyps)
        for h in hyps:
            self.s.add(abstract(h, self.memo))
            self.s.add(abstract(simp(h), self.memo))

    def squares(self):
        return [x for x in map(square, self.hyps) if x is not None]

    def push(self, f):
        self.s.push()
        self.s.add(abstract(f, self.memo))
        self.hyps.append(f)

    def pop(self):
        self.s.pop()
        self.hyps.pop()

    def refutes(self, f, ms=2000):
        self.s.set("timeout", ms)
        self.s.push()
        self.s.add(abstract(f, self.memo))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat


def leaf(C, a, b, deadline):
    at = {}
    atoms_of(a, at)
    atoms_of(b, at)
    rep = {i: i for i in at}

    def find(t):
        i = t.get_id()
        while rep[i] != i:
            i = rep[i]
        return i

    def same():
        n = Norm(find)
        d = qadd(n.q(a), n.q(b), -1)
        return not reduce(d.num, {find(t): v for t, v in C.squares() if t.get_id() in at})

    if same():
        return True
    by = {}
    for t in at.values():
        by.setdefault((t.decl().name(), t.sort().name()) if t.num_args() else ("", t.sort().name()), []).append(t)
    changed = False
    for ts in by.values():
        for i in range(len(ts)):
            for j in range(i):
                if time.time() > deadline:
                    raise Give("time")
                x, y = ts[i], ts[j]
                if find(x) == find(y):
                    continue
                if not x.num_args() and len(ts) > 12:
                    continue
                if C.refutes(x != y):
                    rep[find(x)] = find(y)
                    changed = True
    return changed and same()


def equation(C, a, b, deadline, ms=1500, maxleaves=96):
    n = [0]
    a0, b0 = a, b

    def go(a, b):
        if time.time() > deadline:
            raise Give("time")
        if a.eq(b):
            return True
        c = find_ite(a, set())
        if c is None:
            c = find_ite(b, set())
        if c is None:
            n[0] += 1
            if n[0] > maxleaves:
                raise Give("too many cases")
            if leaf(C, a, b, deadline) or C.refutes(a0 != b0) or C.refutes(a != b):
                return True
            s = z3.Solver()
            for h in C.hyps:
                s.add(h)
            r, _ = check(s, [a0 != b0], ms)
            return r == z3.unsat
        for v in (True, False):
            lit = c if v else z3.Not(c)
            if C.refutes(lit):
                continue
            sub = [(c, z3.BoolVal(v))]
            C.push(lit)
            try:
                ok = go(simp(z3.substitute(a, *sub)), simp(z3.substitute(b, *sub)))
            finally:
                C.pop()
            if not ok:
                return False
        return True

    return go(simp(a), simp(b))


def prove(hyps, goal, timeout=20.0):
    """True if goal follows (up to zero divisors), False if undecided"""
    deadline = time.time() + timeout
    C = Ctx(hyps)

    def under(fs, g):
        for f in fs:
            C.push(f)
        try:
            return go(g)
        finally:
            for f in fs:
                C.pop()

    def go(g):
        if z3.is_true(g) or C.refutes(z3.Not(g)):
            return True
        if z3.is_app_of(g, z3.Z3_OP_IMPLIES):
            return under([g.arg(0)], g.arg(1))
        if z3.is_and(g):
            return all(go(c) for c in g.children())
        if z3.is_or(g) and g.num_args() >= 2:
            big = [c for c in g.children() if z3.is_and(c) or z3.is_eq(c) and z3.is_arith(c.arg(0))]
            if big:
                return under([z3.Not(c) for c in g.children() if not c.eq(big[-1])], big[-1])
            return False
        if z3.is_app_of(g, z3.Z3_OP_ITE):
            return under([g.arg(0)], g.arg(1)) and under([z3.Not(g.arg(0))], g.arg(2))
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            return equation(C, g.arg(0), g.arg(1), deadline)
        s = z3.Solver()     # any other conjunct: z3
        for h in C.hyps:
            s.add(h)
        r, _ = check(s, [z3.Not(g)], max(100, int(min(10, deadline - time.time()) * 1000)))
        return r == z3.unsat

    try:
        return go(goal)
    except (Give, RecursionError):
        return False
