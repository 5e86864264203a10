"""Matrices as values of a sort of their own: products, adjoints, triangular views and multiples are uninterpreted, with the laws
of Eigen's documentation (a product is associative, the adjoint of a product is the product of the adjoints in reverse order)."""
from values import *  # noqa: F401,F403
from stdmodel import HANDLERS
import ctypes_ as ct
import z3

M = z3.DeclareSort("Matrix")
product = z3.Function("matrix_product", M, M, M)
adjoint = z3.Function("matrix_adjoint", M, M)
mirror = z3.Function("selfadjoint_from_lower", M, M)
upper = z3.Function("selfadjoint_from_upper", M, M)
scale = z3.Function("matrix_multiple", z3.RealSort(), z3.RealSort(), M, M)


def mul(x, y):
    """the product; a product of several factors is written with brackets to the right"""
    x = z3.simplify(x)
    if z3.is_app(x) and x.decl().eq(product):
        return product(x.arg(0), mul(x.arg(1), y))
    return product(x, y)


def adj(x):
    x = z3.simplify(x)
    if z3.is_app(x) and x.decl().eq(product):
        return mul(adj(x.arg(1)), adj(x.arg(0)))
    if z3.is_app(x) and x.decl().eq(adjoint):
        return x.arg(0)
    return adjoint(x)


def is_m(x):
    return isinstance(x, z3.ExprRef) and x.sort() == M


def times(c, m):
    c = cx(c)
    return scale(c.re, c.im, m)


def maps(E, r, name):
    """a member that maps keys to matrices: arbitrary"""
    f = [x for x in E.P.fields(r.type) if x["name"] == name][0]
    kt, vt = ct.parse(ct.strip_cvref(f["type"]))[1][:2]
    ks = E.keysort(kt)
    r.f[name] = Map(kt, vt, z3.Array(name + "_keys", ks, z3.BoolSort()), z3.Array(name, ks, M))
    return r.f[name]


def install(E):
    con = E.contracts

    def hook(op, x, y):
        if not (is_m(x) or is_m(y)):
            return None
        if op != "*":
            raise Unsupported("matrix operator " + op)
        if is_m(x) and is_m(y):
            return mul(x, y)
        return times(y, x) if is_m(x) else times(x, y)
    E.num_hook = hook

    def adjoint_(E, st, A):
        v = A.thisv_or_val()
        return adj(v) if is_m(v) else HANDLERS["Eigen::SparseMatrixBase::adjoint"](E, st, A)
    con["Eigen::SparseMatrixBase::adjoint"] = con["Eigen::MatrixBase::adjoint"] = adjoint_

    def view(E, st, A):
        v = A.thisv_or_val()
        t = A.e["t"].rstrip()
        if t.endswith(", 1>"):
            return mirror(v)
        if t.endswith(", 2>"):
            return upper(v)
        raise Unsupported("view " + t)
    con["Eigen::SparseMatrixBase::selfadjointView"] = view
