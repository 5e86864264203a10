"""Selection rules: exactly the quantum-number conditions under which a matrix element may be nonzero;
the rule without projection accepts exactly when some projection is accepted."""
import z3

import mec
from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s04.cpp", "srcs": ["State.cpp", "StateOld.cpp", "MatrixElements.cpp", "Basisnames.cpp", "QuantumDefect.cpp", "MatrixElementCache.cpp",
                                       "Wavefunction.cpp"], "n": (3000, 40000), "flags": ["-DPROP_S03"]}
RULE = ("pairs of random fine-structure states of one species, random kappa and q; a case is distinct by the "
        "written-out quantum numbers")
ASSUME = ["zeros of Wigner symbols (triangle rule, projection rule, parity rule, the accidental zero of "
          "(3/2 2 3/2; -1/2 1 -1/2)) are stated facts about the WignerSymbols library"]


def absr(x):
    return z3.If(x >= 0, x, -x)


def zero_exception(E, kappa, q1, q2):
    return And(kappa == 2, q1[2] == z3.RealVal("3/2"), q2[2] == z3.RealVal("3/2"), q1[3] == -q2[3],
               absr(q1[3] - q2[3]) == 1)


def mult(E, a, b, kappa):
    dl = z3.If(a[1] >= b[1], a[1] - b[1], b[1] - a[1])
    return And(dl <= kappa, (kappa - dl) % 2 == 0, absr(a[2] - b[2]) <= kappa, a[2] + b[2] >= kappa,
               Not(zero_exception(E, kappa, a, b)))


def mom(E, a, b):
    return And(a[1] == b[1], absr(a[2] - b[2]) <= 1)


def two(E):
    st = E.new_state()
    S = z3.Int("S")
    E.facts.append(And(S >= 1, S <= 3))
    a, b = mec.phys(E, "a", S), mec.phys(E, "b", S)
    sp = E.fresh("std::basic_string<char>", "species")
    return st, S, a, b, mec.state(E, st, sp, S, a), mec.state(E, st, sp, S, b)




@task("multipole rule", [mec.TU, "State.cpp"])
def t_mult(E):
    st, S, a, b, la, lb = two(E)
    kappa, q = z3.Int("kappa"), z3.Int("q")
    E.facts.append(And(kappa >= 0, kappa <= 1000, q >= -1000, q <= 1000))
    r4 = E.run(st, "selectionRulesMultipoleNew", None, [la, lb, kappa, q], nargs=4)
    r3 = E.run(st, "selectionRulesMultipoleNew", None, [la, lb, kappa], nargs=3)
    dm = a[3] - b[3]
    E.prove("with projection: triangle rules, parity, m' = m + q, |q| <= kappa",
            r4 == And(mult(E, a, b, kappa), dm == q, q <= kappa, -q <= kappa))
    E.prove("without projection: accepts exactly when some projection is accepted",
            r3 == And(mult(E, a, b, kappa), absr(dm) <= kappa))
    E.prove("accepted with projection implies accepted without", Implies(r4, r3))
    r4b = E.run(st, "selectionRulesMultipoleNew", None, [lb, la, kappa, -q], nargs=4)
    E.prove("rule is symmetric under exchange of the states", r4 == r4b)
    E.cover("some pair is accepted", And(r4, kappa == 2))
    E.cover("some pair is rejected", Not(r3))


@task("a rejected multipole element vanishes", [mec.TU, "State.cpp"])
def t_zero(E):
    st, S, a, b, la, lb = two(E)
    mec.setup(E)
    kappa, q = z3.Int("kappa"), z3.Int("q")
    E.facts.append(And(kappa >= 0, kappa <= 1000, q >= -1000, q <= 1000))
    r4 = E.run(st, "selectionRulesMultipoleNew", None, [la, lb, kappa, q], nargs=4)
    dm = a[3] - b[3]
    k = toreal(kappa)
    wj = mec.w3j(E, a[2], k, b[2], -a[3], dm, b[3])
    wl = mec.w3j(E, a[1], k, b[1], 0, 0, 0)
    E.facts += [Implies(Not(mec.tri(a[2], k, b[2])), wj == 0), Implies(absr(dm) > k, wj == 0),
                Implies(zero_exception(E, kappa, a, b), wj == 0),
                Implies(Not(mec.tri(a[1], k, b[1])), wl == 0),
                Implies((a[1] + kappa + b[1]) % 2 != 0, wl == 0)]
    E.prove("rejected and the projections differ by q: a factor of the element is zero",
            Implies(And(Not(r4), dm == q), Or(wj == 0, wl == 0)))


@task("momentum rule", [mec.TU, "State.cpp"])
def t_mom(E):
    st, S, a, b, la, lb = two(E)
    q = z3.Int("q")
    E.facts.append(And(q >= -1000, q <= 1000))
    r3 = E.run(st, "selectionRulesMomentumNew", None, [la, lb, q], nargs=3)
    r2 = E.run(st, "selectionRulesMomentumNew", None, [la, lb], nargs=2)
    dm = a[3] - b[3]
    E.prove("with projection: same l, |j'-j| <= 1, m' = m + q, |q| <= 1",
            r3 == And(mom(E, a, b), dm == q, q <= 1, q >= -1))
    E.prove("without projection: accepts exactly when some projection is accepted",
            r2 == And(mom(E, a, b), absr(dm) <= 1))
    qq = [E.run(st, "selectionRulesMomentumNew", None, [la, lb, z3.IntVal(v)], nargs=3) for v in (-1, 0, 1)]
    E.prove("the union over q = -1, 0, 1 is the rule without projection", r2 == Or(*qq))
    E.cover("some pair is accepted", r3)
    E.cover("some pair is rejected", Not(r2))


OLD = "MatrixElements.cpp"
SO = "StateOld.cpp"


def old_state(E, st, S, q):
    n, l, j, m = q
    return E.alloc(st, Rec("StateOneOld", {"species": E.fresh("std::basic_string<char>", "sp"), "n": n, "l": l,
                                           "j": j, "m": m, "s": z3.ToReal(S) / 2, "idx": z3.IntVal(0)}), "ostate")


@task("legacy rules", [OLD, SO])
def t_old(E):
    st = E.new_state()
    S = z3.Int("S")
    E.facts.append(And(S >= 1, S <= 3))
    a, b = mec.phys(E, "a", S), mec.phys(E, "b", S)
    la, lb = old_state(E, st, S, a), old_state(E, st, S, b)
    kappa, q = z3.Int("kappa"), z3.Int("q")
    E.facts.append(And(kappa >= 0, kappa <= 1000, q >= -1000, q <= 1000))
    dm = a[3] - b[3]
    r4 = E.run(st, "selectionRulesMultipole", None, [la, lb, kappa, q], nargs=4)
    r3 = E.run(st, "selectionRulesMultipole", None, [la, lb, kappa], nargs=3)
    E.prove("multipole with projection", r4 == And(mult(E, a, b, kappa), dm == q, q <= kappa, -q <= kappa))
    E.prove("multipole without projection", r3 == And(mult(E, a, b, kappa), absr(dm) <= kappa))
    r3 = E.run(st, "selectionRulesMomentum", None, [la, lb, q], nargs=3)
    r2 = E.run(st, "selectionRulesMomentum", None, [la, lb], nargs=2)
    E.prove("momentum with projection", r3 == And(mom(E, a, b), dm == q, q <= 1, q >= -1))
    E.prove("momentum without projection", r2 == And(mom(E, a, b), absr(dm) <= 1))
