"""Wigner rotation matrices: the phases of the outer rotations, the Fourier sum over the axis rotated into the xy plane,
the explicit formula at a right angle, and (for the listed spins, all angles) Wigner's closed formula."""
from fractions import Fraction
from math import factorial

import z3

from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s11.cpp", "srcs": ["WignerD.cpp"], "n": (400, 20000), "flags": []}
RULE = "random spins (up to 12), projections and angles, compared with Wigner's formula; distinct by the arguments"
ASSUME = ["real arithmetic in the proofs (cancellation for large spins is covered by the harness up to spin 12)",
          "cos, sin, sqrt and pow of the C library; binomial coefficients and factorials of boost",
          "the closed formula is proved for each spin of the list for all angles, not for all spins at once"]
TU = "WignerD.cpp"


def obj(E, st):
    return E.alloc(st, Rec("WignerD", {}), "w")


def cis(E, x):
    from stdmodel import apply_uf
    return Cx(apply_uf(E, "cos", x), apply_uf(E, "sin", x))


def spins(E):
    """arbitrary spin and projections: j, m = j - A, m' = j - B"""
    J, A, B = z3.Ints("twoj A B")
    E.facts.append(And(J >= 0, J <= 170, A >= 0, A <= J, B >= 0, B <= J))
    j = z3.ToReal(J) / 2
    return j, j - z3.ToReal(A), j - z3.ToReal(B), J, A, B


def ops(E, n):
    return [f for f in E.P.by_q["WignerD::operator()"] if len(f["params"]) == n][0]


@task("phases of the outer rotations", [TU])
def t_phase(E):
    st = E.new_state()
    w = obj(E, st)
    j, m, mp, J, A_, B_ = spins(E)
    a, b, g = z3.Reals("alpha beta gamma")
    d = E.uninterp("d", *[z3.RealSort()] * 5)
    E.contracts["WignerD::operator()/4"] = lambda E, st, A: d(*[toreal(A.val(i)) for i in range(4)])
    r = E.run(st, None, w, [j, m, mp, a, b, g], fn=ops(E, 6))
    want = cmul(cmul(cis(E, rmul(rneg(m), a)), Cx(d(j, m, mp, b), ZERO)), cis(E, rmul(rneg(mp), g)))
    E.prove("D = exp(-i m alpha) d(beta) exp(-i m' gamma), real part", r.re == want.re)
    E.prove("D = exp(-i m alpha) d(beta) exp(-i m' gamma), imaginary part", r.im == want.im)
    E.prove("no exception", Not(st.mem["$exc"]))


@task("angle and right angle", [TU])
def t_dispatch(E):
    st = E.new_state()
    w = obj(E, st)
    j, m, mp, J, A_, B_ = spins(E)
    b = z3.Real("beta")
    RS = [z3.RealSort()]
    p, q = E.uninterp("half", *RS * 4), E.uninterp("general", *RS * 5)
    E.contracts["WignerD::evalWignerdPiHalf"] = lambda E, st, A: p(*[toreal(A.val(i)) for i in range(3)])
    E.contracts["WignerD::evalWignerd"] = lambda E, st, A: q(*[toreal(A.val(i)) for i in range(4)])
    r = E.run(st, None, w, [j, m, mp, b], fn=ops(E, 4))
    pi2 = R(Fraction(1.5707963267948966))
    eps = R(Fraction(1e-16))
    E.prove("away from the right angle the general formula", Implies(Or(b >= pi2 + eps, b <= pi2 - eps), r == q(j, m, mp, b)))
    E.prove("at the right angle (to 1e-16) either formula", Or(r == q(j, m, mp, b), And(b < pi2 + eps, b > pi2 - eps, r == p(j, m, mp))))
    E.prove("no exception", Not(st.mem["$exc"]))
    E.cover("right angle", And(b < pi2 + eps, b > pi2 - eps))


@task("sum over the rotated axis", [TU], functions=["WignerD::evalWignerd"], limit=200)
def t_sum(E):
    st = E.new_state()
    w = obj(E, st)
    j, m, mp, J, A_, B_ = spins(E)
    b = z3.Real("beta")
    RS = [z3.RealSort()]
    p = E.uninterp("half", *RS * 4)
    E.contracts["WignerD::evalWignerdPiHalf"] = lambda E, st, A: p(*[toreal(A.val(i)) for i in range(3)])
    IS = z3.IntSort()
    SR, SI = E.uninterp("sum_re", IS, z3.RealSort()), E.uninterp("sum_im", IS, z3.RealSort())
    t = z3.Int("term")

    def inv(c):
        # ghost: the number of terms summed so far
        x = c["mpp"]
        k = z3.Int(fresh_name("k"))
        c.E.facts.append(k == z3.ToInt(j - x)) if hasattr(c, "E") else E.facts.append(k == z3.ToInt(j - x))
        z = cmul(Cx(rmul(p(j, m, x), p(j, x, rneg(mp))), ZERO), cis(E, rmul(rneg(x), b)))
        E.facts.append(And(SR(0) == 0, SI(0) == 0, SR(k + 1) == radd(SR(k), z.re), SI(k + 1) == radd(SI(k), z.im)))
        return And(x == j - z3.ToReal(k), k >= 0, k <= J + 1, c["r"].re == SR(k), c["r"].im == SI(k))
    E.loops["*"] = {"inv": inv}
    r = E.run(st, "WignerD::evalWignerd", w, [j, m, mp, b])
    # i^(2j-m-m') (-1)^(2m), an integer power
    n = A_ + B_
    e = J + 1
    re = z3.If(n % 4 == 0, SR(e), z3.If(n % 4 == 1, -SI(e), z3.If(n % 4 == 2, -SR(e), SI(e))))
    E.prove("real part of i^(2j-m-m') (-1)^(2m) times the sum over all 2j+1 projections",
            r == z3.If(J % 2 == 0, re, -re))
    E.prove("no exception", Not(st.mem["$exc"]))


def boost(E, st):
    """boost's binomial coefficient and factorial with their documented domains"""
    IS = z3.IntSort()
    Bn, Fc = E.uninterp("binomial", IS, IS, z3.RealSort()), E.uninterp("factorial", IS, z3.RealSort())

    def idx(x):
        v = E.as_int(toreal(x)) if not z3.is_int(x) else x
        if v is None:
            E.prove("a whole number is passed to boost", toreal(x) == z3.ToReal(z3.ToInt(toreal(x))), None)
            v = z3.ToInt(toreal(x))
        return v

    def binom(E, st, A):
        n, k = idx(A.val(0)), idx(A.val(1))
        E.prove("binomial coefficient inside its domain 0 <= k <= n", And(n >= 0, k >= 0, k <= n), st)
        return Bn(n, k)

    def fact(E, st, A):
        n = idx(A.val(0))
        E.prove("factorial inside its domain 0 <= n <= 170", And(n >= 0, n <= 170), st)
        E.facts.append(Fc(n) > 0)
        return Fc(n)
    E.contracts["boost::math::binomial_coefficient"] = binom
    E.contracts["boost::math::factorial"] = fact
    return Bn, Fc


@task("explicit formula at a right angle", [TU], functions=["WignerD::evalWignerdPiHalf"], limit=200)
def t_half(E):
    from stdmodel import pow_of, sqrt_of
    st = E.new_state()
    w = obj(E, st)
    j, m, mp, J, A, B = spins(E)
    Bn, Fc = boost(E, st)
    S = E.uninterp("partial_sum", z3.IntSort(), z3.RealSort())
    lo = z3.If(A - B > 0, A - B, z3.IntVal(0))
    hi = z3.If(J - B < A, J - B, A)

    def inv(c):
        k = c["k"]
        t = rmul(z3.If(k % 2 == 0, ONE, R(-1)), rmul(Bn(J - B, k), Bn(B, k + B - A)))
        E.facts.append(And(S(lo) == 0, S(k + 1) == S(k) + t))
        return And(k >= lo, k <= hi + 1, c["r"] == S(k))
    E.loops["*"] = {"inv": inv, "variant": lambda c: hi + 1 - c["k"]}
    r = E.run(st, "WignerD::evalWignerdPiHalf", w, [j, m, mp])
    norm = rdiv(rmul(Fc(J - A), Fc(A)), rmul(Fc(J - B), Fc(B)))
    sg = z3.If((A - B) % 2 == 0, ONE, R(-1))
    E.prove("(-1)^(m-m') 2^-j sqrt((j+m)!(j-m)!/((j+m')!(j-m')!)) times the sum over all k with non-zero binomials",
            r == rmul(rmul(S(hi + 1), rdiv(sg, pow_of(E, R(2), j))), sqrt_of(E, norm)))
    E.prove("no exception", Not(st.mem["$exc"]))


# polynomials in c = cos(beta/2), s = sin(beta/2), reduced with c^2 = 1 - s^2: {(power of c, power of s): coefficient}
def red(p):
    r = {}
    for (a, b), v in p.items():
        # c^a = c^(a%2) (1-s^2)^(a//2)
        k = a // 2
        for i in range(k + 1):
            m = (a % 2, b + 2 * i)
            r[m] = r.get(m, 0) + v * (-1) ** i * factorial(k) // (factorial(i) * factorial(k - i))
    return {m: v for m, v in r.items() if v}


def pmul(p, q):
    r = {}
    for (a, b), v in p.items():
        for (c, d), w in q.items():
            r[(a + c, b + d)] = r.get((a + c, b + d), 0) + v * w
    return red(r)


def angle(n):
    """cos and sin of n beta/2 as polynomials"""
    c, s = {(0, 0): 1}, {}
    for _ in range(abs(n)):
        add = lambda p, q, f: {m: p.get(m, 0) + f * q.get(m, 0) for m in set(p) | set(q)}
        c, s = (red(add(pmul(c, {(1, 0): 1}), pmul(s, {(0, 1): 1}), -1)),
                red(add(pmul(s, {(1, 0): 1}), pmul(c, {(0, 1): 1}), 1)))
    return c, ({m: -v for m, v in s.items()} if n < 0 else s)


PR = (2, 3, 5, 7)


def root(E, x):
    """square root of a positive rational in terms of the roots of primes"""
    x = Fraction(x)
    n = x.numerator * x.denominator
    out, sq = [], 1
    for p in PR:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        sq *= p ** (e // 2)
        if e % 2:
            out.append(p)
    if n != 1:
        raise Unsupported("root of a large prime")
    r = R(Fraction(sq, x.denominator))
    for p in out:
        v = z3.Real("sqrt%d" % p)
        r = rmul(r, v)
    return r


def roots(E):
    for p in PR:
        v = z3.Real("sqrt%d" % p)
        E.facts.append(And(v > 0, v * v == p))


def spin(J):
    @task("closed formula for spin %d/2, every angle" % J, [TU], functions=["WignerD::evalWignerd"], limit=300)
    def t(E):
        st = E.new_state()
        w = obj(E, st)
        roots(E)
        beta, c, s = z3.Reals("beta c s")

        def poly(p):
            r = ZERO
            for (a, b), v in sorted(p.items()):
                t = R(v)
                for _ in range(a):
                    t = rmul(t, c)
                for _ in range(b):
                    t = rmul(t, s)
                r = radd(r, t)
            return r

        def trig(i):
            def h(E, st, A):
                x = toreal(A.val(0))
                f = rc(z3.simplify(z3.substitute(x, (beta, R(2)))))
                if f is None or f.denominator != 1 or rc(z3.simplify(x - R(f / 2) * beta, som=True)) != 0:
                    raise Unsupported("angle is no multiple of beta/2: %s" % x)
                return poly(angle(int(f))[i])
            return h
        def half(E, st, A):
            v = [rc(toreal(A.val(i))) for i in range(3)]
            if v not in cache:
                cache.append(v)
                s2 = st.copy()
                val = E.run(s2, None, w, [R(x) for x in v], fn=[f for f in E.P.by_q["WignerD::evalWignerdPiHalf"]][0])
                vals.append(val)
            return vals[cache.index(v)]
        cache, vals = [], []
        E.contracts["std::cos"] = E.contracts["cos"] = trig(0)
        E.contracts["std::sin"] = E.contracts["sin"] = trig(1)
        ci = lambda v: int(rc(toreal(v)))
        fac = lambda n: R(factorial(n))
        E.contracts["boost::math::factorial"] = lambda E, st, A: fac(ci(A.val(0)))
        E.contracts["boost::math::binomial_coefficient"] = lambda E, st, A: \
            R(Fraction(factorial(ci(A.val(0))), factorial(ci(A.val(1))) * factorial(ci(A.val(0)) - ci(A.val(1)))))
        E.contracts["std::sqrt"] = E.contracts["sqrt"] = lambda E, st, A: root(E, rc(toreal(A.val(0))))

        def power(E, st, A):
            b, e = A.val(0), A.val(1)
            if isinstance(b, Cx):
                n = ci(e) % 4
                if rc(toreal(b.re)) != 0 or rc(toreal(b.im)) != 1:
                    raise Unsupported("complex power")
                return Cx(R((1, 0, -1, 0)[n]), R((0, 1, 0, -1)[n]))
            b, e = rc(toreal(b)), rc(toreal(e))
            if e.denominator == 2:
                return root(E, Fraction(b) ** int(2 * e))
            return R(Fraction(b) ** int(e))
        E.contracts["std::pow"] = E.contracts["pow"] = power
        for M in range(-J, J + 1, 2):
            for N in range(-J, J + 1, 2):
                s2 = st.copy()
                r = E.run(s2, "WignerD::evalWignerd", w, [R(Fraction(J, 2)), R(Fraction(M, 2)), R(Fraction(N, 2)), beta])
                a, b_, p, q = (J + M) // 2, (J - M) // 2, (J + N) // 2, (J - N) // 2
                tot = {}
                for k in range(0, J + 1):
                    if p - k < 0 or a - p + k < 0 or b_ - k < 0:
                        continue
                    co = Fraction((-1) ** (a - p + k), factorial(p - k) * factorial(k) * factorial(a - p + k)
                                  * factorial(b_ - k))
                    m = (J + p - a - 2 * k, a - p + 2 * k)
                    tot[m] = tot.get(m, 0) + co
                # exponents of the half angle: c^(2j + m' - m - 2k) s^(m - m' + 2k)
                want = rmul(root(E, factorial(a) * factorial(b_) * factorial(p) * factorial(q)), poly(redf(tot)))
                E.prove("d(%d/2, %d/2, %d/2)" % (J, M, N), r == want)
    return t


def redf(p):
    r = {}
    for m, v in p.items():
        for k, x in red({m: 1}).items():
            r[k] = r.get(k, 0) + v * x
    return r


for J_ in range(1, 9):
    spin(J_)
