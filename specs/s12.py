"""Green tensors: second and third derivatives of the Coulomb potential of a point charge and of its mirror image."""
import z3

from driver import task
from values import *  # noqa: F401,F403

LEVEL = "proof"
HARNESS = {"main": "s12.cpp", "srcs": ["GreenTensor.cpp"], "n": (40, 1500), "flags": []}
RULE = "random separations and surface distances, compared with numerical derivatives of the energy of two charges"
ASSUME = ["real arithmetic; Eigen's fixed-size matrix and tensor operations"]
TU = "GreenTensor.cpp"
CL = "GreenTensor"


# exact derivatives of 1/rho: {n: polynomial} stands for sum of polynomial / rho^n; polynomials over the components of u
def d_inv(axes):
    """derivatives of 1/|u| along the axes of u"""
    t = {1: {(0, 0, 0): 1}}
    for k in axes:
        r = {}
        for n, p in t.items():
            for m, v in p.items():
                if m[k]:
                    a = list(m)
                    a[k] -= 1
                    q = r.setdefault(n, {})
                    q[tuple(a)] = q.get(tuple(a), 0) + v * m[k]
                a = list(m)
                a[k] += 1
                q = r.setdefault(n + 2, {})
                q[tuple(a)] = q.get(tuple(a), 0) - n * v
        t = r
    return t


def value(E, t, u, rho):
    from stdmodel import ipow
    s = ZERO
    for n, p in sorted(t.items()):
        q = ZERO
        for m, v in sorted(p.items()):
            if v and not any(e and isz(u[i]) for i, e in enumerate(m)):
                f = R(v)
                for i, e in enumerate(m):
                    f = rmul(f, ipow(E, u[i], e)) if e else f
                q = radd(q, f)
        s = radd(s, rdiv(q, ipow(E, rho, n)))
    return s


SB = (1, 1, -1)     # the image of atom B has its z coordinate reversed


def tensors(E, kind, u, rho, image):
    """energy of charges q_A at r_A and q_B at r_B is q_A q_B phi with phi = 1/|r_A - r_B|, or -1/|r_A - image of r_B|;
    the tensors are minus its derivatives along the coordinates of A and of B"""
    nA, nB = {"DD": (1, 1), "DQ": (1, 2), "QD": (2, 1)}[kind]
    import itertools
    r = {}
    for ix in itertools.product(range(3), repeat=nA + nB):
        sg = -1
        for i in ix[nA:]:
            # d/dr_B = - d/du for the atom itself, with u_z = z_A + z_B for its image
            sg *= -SB[i] if image else -1
        if image:
            sg = -sg
        r[ix] = rmul(R(sg), value(E, d_inv(ix), u, rho))
    return r


def flat(kind, ix):
    return ix[0] + 3 * ix[1] + (9 * ix[2] if kind != "DD" else 0)


def free(E, kind):
    @task(kind + " of free space", [TU])
    def t(E):
        from stdmodel import sqrt_of
        st = E.new_state()
        lv = E.alloc(st, Rec(CL, {}), "g")
        u = z3.Reals("x y z")
        r = E.run(st, "%s::get%sTensorVacuum" % (CL, kind), lv, list(u))
        rho = sqrt_of(E, radd(radd(rmul(u[0], u[0]), rmul(u[1], u[1])), rmul(u[2], u[2])))
        E.facts.append(And(rho > 0, rho * rho == u[0] * u[0] + u[1] * u[1] + u[2] * u[2]))
        for ix, w in tensors(E, kind, u, rho, False).items():
            E.prove("%s%s is the derivative of 1/r" % (kind, list(ix)), r.f["$m"].e[flat(kind, ix)] == w)
        E.prove("no exception", Not(st.mem["$exc"]))

    @task(kind + " of the mirror image", [TU])
    def t2(E):
        from stdmodel import sqrt_of
        st = E.new_state()
        lv = E.alloc(st, Rec(CL, {}), "g")
        x, zA, zB = z3.Reals("x zA zB")
        zp = zA + zB
        r = E.run(st, "%s::get%sTensorPlate" % (CL, kind), lv, [x, zA, zB])
        rho = sqrt_of(E, radd(rmul(x, x), rmul(zp, zp)))
        E.facts.append(And(rho > 0, rho * rho == x * x + zp * zp))
        for ix, w in tensors(E, kind, (x, ZERO, zp), rho, True).items():
            E.prove("%s%s is the derivative of the potential of the image charge" % (kind, list(ix)),
                    r.f["$m"].e[flat(kind, ix)] == w)
        E.prove("no exception", Not(st.mem["$exc"]))


for k_ in ("DD", "DQ", "QD"):
    free(None, k_)


MAXD = z3.Real("realmax_double")   # std::numeric_limits<double>::max(), larger than every height
KINDS = ("dd", "dq", "qd")


def flags(E):
    return {k: [x["name"] for x in E.P.fields(CL) if x["name"].startswith(k) and x["type"] == "bool"][0] for k in KINDS}


def green(E, st):
    """an arbitrary object, with the tensors as functions of the geometry (their contracts, proved above)"""
    from stdmodel import tensor
    f = {}
    for x in E.P.fields(CL):
        f[x["name"]] = tensor([E.fresh("double", x["name"]) for _ in range(27)]) if "Tensor" in x["type"] \
            else E.fresh(x["type"], x["name"])
    return E.alloc(st, Rec(CL, f), "g")


def contracts(E):
    RS = z3.RealSort()
    fs = {}
    for k in ("DD", "DQ", "QD"):
        for w in ("Vacuum", "Plate"):
            fs[k, w] = [E.uninterp("%s_%s_%d" % (k, w, i), RS, RS, RS, RS) for i in range(9 if k == "DD" else 27)]
    from stdmodel import tensor

    def con(k, w):
        def h(E, st, A):
            e = [f(*[toreal(A.val(i)) for i in range(3)]) for f in fs[k, w]]
            return tensor(e) if k != "DD" else Rec("Eigen::Matrix<double, 3, 3, 0, 3, 3>", {"$m": Arr(e)})
        return h
    for (k, w) in fs:
        E.contracts["%s::get%sTensor%s" % (CL, k, w)] = con(k, w)
    return fs


def expected(fs, k, o):
    """free space, and the image if there is a surface"""
    v = [f(o["x"], o["y"], o["z"]) for f in fs[k, "Vacuum"]]
    p = [f(o["x"], o["zA"], o["zB"]) for f in fs[k, "Plate"]]
    return [z3.If(o["zA"] == MAXD, a, a + b) for a, b in zip(v, p)]


def invariant(E, fs, o):
    fl = flags(E)
    return And(*[Implies(o[fl[k]], And(*[a == b for a, b in zip(o[k + "_tensor"].f["$m"].e, expected(fs, k.upper(), o))]))
                 for k in KINDS])


@task("tensors are those of the geometry, whenever they are asked for", [TU], functions=[CL + "::get"])
def t_inv(E):
    st0 = E.new_state()
    fs = contracts(E)
    lv = green(E, st0)
    o0 = E.read(st0, lv).f
    E.facts.append(invariant(E, fs, o0))
    for k in KINDS:
        st = st0.copy()
        r = E.run(st, "%s::get%sTensor" % (CL, k.upper()), lv)
        v = E.read(st, r) if isinstance(r, LV) else r
        o = E.read(st, lv).f
        E.prove("%s tensor: free space plus, with a surface, the image" % k,
                And(*[a == b for a, b in zip(v.f["$m"].e, expected(fs, k.upper(), o0))]))
        E.prove("%s tensor: the geometry is not changed" % k, And(*[o[x] == o0[x] for x in ("x", "y", "z", "zA", "zB")]))
        E.prove("%s tensor: stored tensors stay those of the geometry" % k, invariant(E, fs, o))
        E.prove("%s tensor: no exception" % k, Not(st.mem["$exc"]))
    E.cover("a stored tensor", o0[flags(E)["dd"]])


@task("adding a surface", [TU], functions=[CL])
def t_surface(E):
    st = E.new_state()
    fs = contracts(E)
    lv = green(E, st)
    o0 = E.read(st, lv).f
    E.facts.append(invariant(E, fs, o0))
    d = z3.Real("d")
    E.run(st, CL + "::addSurface", lv, [d])
    o = E.read(st, lv).f
    ok = Not(st.mem["$exc"])
    h1, h2 = d - o0["z"] / 2, d + o0["z"] / 2
    E.prove("refused exactly if the atoms are out of the xz-plane or one of them is inside the plate",
            st.mem["$exc"] == Or(o0["y"] != 0, h1 < 0, h2 < 0))
    E.prove("the atoms are at d - z/2 and d + z/2",
            Implies(ok, Or(And(o["zA"] == h1, o["zB"] == h2), And(o["zA"] == h2, o["zB"] == h1))))
    E.prove("the separation is unchanged", And(*[o[x] == o0[x] for x in ("x", "y", "z")]))
    E.prove("no tensor of the old geometry survives", Implies(ok, invariant(E, fs, o)))
    E.cover("accepted", ok)
    s2 = E.new_state()
    x, y, z = z3.Reals("x y z")
    g = E.make(s2, CL, [x, y, z])
    o = (E.read(s2, g) if isinstance(g, LV) else g).f
    E.prove("a new tensor has the given separation and no surface",
            And(o["x"] == x, o["y"] == y, o["z"] == z, o["zA"] == MAXD))
    for k in KINDS:
        E.prove("a new object has no stored %s tensor" % k, Not(o[flags(E)[k]]))
