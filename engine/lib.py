"""Specification helpers shared by the property modules."""
from sym import *
from ir import Unsupported

C2 = Fraction(9 * 10 ** 16)
MU0 = Fraction(126, 10 ** 8)
EPS0 = Fraction(885, 10 ** 14)


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])),
            rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


def dot(a, b):
    return radd(radd(rmul(a[0], b[0]), rmul(a[1], b[1])), rmul(a[2], b[2]))


def vadd(a, b):
    return [radd(x, y) for x, y in zip(a, b)]


def vscale(k, a):
    return [rmul(k, x) for x in a]


def rets(outs):
    """normal outcomes; every other outcome must be a FATAL"""
    return [o for o in outs if o.kind == 'ret']


def written(st):
    return {(e.fam, e.leaf) for e in st.log if e.kind in ('w', 'inc')}


def value_post(ex, outs, fam, leaf, idx, sh=F64):
    """[(pc, value)] of a location over normal outcomes"""
    return [(o.st.pc, ex.value_at(o.st, fam, leaf, idx, sh=sh)) for o in rets(outs)]


def vec3_result(ex, st, ret, fn, tag='v3'):
    """write a returned vector3d<double> through the sret pointer"""
    d = ex.new_local(st, tag, 24)
    for i in range(3):
        ex.store_local(st, d.add(8 * i), fn(i), 8)
    for i, o in ((0, 0), (8, 24), (16, 24)):
        ex.store_local(st, ret.add(i), d.add(o), 8)


def field_contract(nm):
    """get_field_x(r, z): a pure function of position (its value is specified elsewhere)"""
    def h(ex, st, A):
        vec3_result(ex, st, A[0], lambda i: z3.Function(f'{nm}{i}', z3.RealSort(), z3.RealSort(), z3.RealSort())(R(A[2]), R(A[3])))
        return [(st, None)]
    return h


def k_gamma(ex, st, A):
    """lorenz_factor(v^2) = 1/sqrt(1 - v^2/c^2)   (precondition v^2 < c^2)"""
    return [(st, ex.fdiv(Fraction(1), ex.sqrt(rsub(Fraction(1), rdiv(A[0], C2)))))]


def k_gamma_inv(ex, st, A):
    """lorenz_factor_inv(u^2) = 1/sqrt(1 + u^2/c^2)"""
    return [(st, ex.fdiv(Fraction(1), ex.sqrt(radd(Fraction(1), rdiv(A[0], C2)))))]


def k_sqrt(ex, st, A):
    return [(st, ex.sqrt(A[0]))]


def index(sym, *fams):
    return z3.Int(sym)


def pc_of(ex, o):
    """path condition of an outcome, loads replaced by the values they denote"""
    return [c if isinstance(c, bool) else ex.expand(o.st, c) for c in o.st.pc]


def havoc2(ex, st, fam, fn):
    """contract effect: every cell (x, y) of a two-index family becomes fn(x, y)"""
    k1, k2 = fresh('h', 'i'), fresh('h', 'i')
    st.log.append(Ent('w', fam, '', (k1, k2), fn(k1, k2), loops=(LoopVar(k1, z3.BoolVal(True)), LoopVar(k2, z3.BoolVal(True))), meta={'havoc': True}))
