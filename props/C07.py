"""Relativistic kinematics helpers."""
from lib import *
from extract import config
from runner import Native
from C17 import vec, read

LEVEL = 'proof'
NS = 'phys::rel::'
SRC = ['src/phys/rel.cpp', 'src/algo/common.cpp']
KEEP = [NS + f for f in ('lorenz_factor', 'lorenz_factor_inv', 'energy', 'energy_m', 'momentum', 'momentum_0')] + ['algo::common::sq_rt']
M, v2, u2, p2 = z3.Reals('M v2 u2 p2')
VV = [z3.Real(f'v{c}') for c in 'xyz']
LIM2 = Fraction(5 * 10 ** 7) ** 2
ONE = Fraction(1)
C = Fraction(3 * 10 ** 8)
g = lambda lo, hi: (lambda r: r.uniform(lo, hi))
RNG = {'M': g(.5, 2), 'v2': lambda r: r.choice([1e14, 2e15, 3e15, 1e16, 8e16]) * r.uniform(.5, 1), 'u2': lambda r: r.choice([1e14, 1e16, 1e18]) * r.uniform(.5, 1),
       'p2': lambda r: r.choice([1e14, 1e16, 1e18]) * r.uniform(.1, 1), 'v*': lambda r: 1.6e8 * r.uniform(-1, 1)}


def load(ctx, own):
    m = ctx.load(config(), SRC, KEEP, ['phys/rel.hpp'], [])
    ex = m.exec()
    for f, k in ((NS + 'lorenz_factor', k_gamma), (NS + 'lorenz_factor_inv', k_gamma_inv), ('algo::common::sq_rt', k_sqrt)):
        if f != own and m.has(f):
            ex.contracts[m.sym(f)] = k
    return m, ex


def gam(ex, x):
    return rdiv(ONE, ex.sqrt(ONE - rdiv(x, C2)))


def scalar(fn, args, pre, want, what, post=None):
    def go(ctx):
        m, ex = load(ctx, fn)
        outs = ex.call_function(m.sym(fn), args, pc=pre)
        for o in rets(outs):
            ctx.p.eq(what, fn, ex.expand(o.st, R(o.val)), R(want(ex)), pre + pc_of(ex, o), ex.facts, ranges=RNG)
        ctx.p.fact_true('returns', fn, bool(rets(outs)))
        for o in outs:
            if o.kind != 'ret':
                ctx.p.holds('no refusal inside the precondition', fn, z3.BoolVal(False), pre + pc_of(ex, o), ex.facts, ranges=RNG)
    return go


def refuse(fn, args, pre, what):
    def go(ctx):
        m, ex = load(ctx, fn)
        st = State()
        a = [x if not isinstance(x, str) else vec(ex, st, VV, 'v') if x == 'v' else ex.new_local(st, 'ret', 24) for x in args]
        outs = ex.call_function(m.sym(fn), a, st=st, pc=pre)
        for o in rets(outs):
            ctx.p.holds(what, fn, z3.BoolVal(False), pre + pc_of(ex, o), ex.facts, ranges=RNG)
        ctx.p.fact_true(what + ' (a refusal exists)', fn, any(o.kind != 'ret' for o in outs))
    return go


def mom(ctx):
    fn = NS + 'momentum'
    m, ex = load(ctx, fn)
    st = State()
    h, ret = vec(ex, st, VV, 'v'), ex.new_local(st, 'ret', 24)
    pre = [M > 0, dot(VV, VV) < R(C2)]
    outs = ex.call_function(m.sym(fn), [ret, M, h], st=st, pc=pre)
    for o in rets(outs):
        got = read(ex, o.st, ret)
        for i in range(3):
            ctx.p.eq(f'momentum is gamma m v, component {i}', fn, got[i], R(rmul(rmul(gam(ex, dot(VV, VV)), M), VV[i])), pre + pc_of(ex, o), ex.facts, ranges=RNG)
    ctx.p.fact_true('returns', fn, bool(rets(outs)))
    fn = NS + 'momentum_0'
    m, ex = load(ctx, fn)
    st = State()
    h = vec(ex, st, VV, 'v')
    outs = ex.call_function(m.sym(fn), [M, h], st=st, pc=pre)
    for o in rets(outs):
        ctx.p.eq('time component of the four-momentum is gamma m c', fn, ex.expand(o.st, R(o.val)), R(rmul(rmul(gam(ex, dot(VV, VV)), M), C)), pre + pc_of(ex, o), ex.facts, ranges=RNG)
    ctx.p.fact_true('returns', fn, bool(rets(outs)))


def lemmas(ctx):
    m, ex = load(ctx, None)
    p = ctx.p
    ga = gam(ex, v2)
    hy = [v2 >= 0, v2 < R(C2), M > 0]
    p.holds('lemma: the Lorentz factor is at least one', 'lemma', R(ga) >= 1, hy, ex.facts)
    p.eq('lemma: mass shell (gamma m c)^2 - (gamma m v)^2 = (m c)^2', 'lemma', R(ga) * R(ga) * M * M * (R(C2) - v2), M * M * R(C2), hy, ex.facts, ranges=RNG)
    g2 = rdiv(ONE, ex.sqrt(ONE + rdiv(u2, C2)))
    p.holds('lemma: the inverse factor never exceeds one and the velocity never reaches light speed', 'lemma', z3.And(R(g2) <= 1, R(g2) > 0), [u2 >= 0], ex.facts)
    p.holds('lemma: u -> v stays below light speed', 'lemma', u2 / (1 + u2 / R(C2)) < R(C2), [u2 >= 0])


def sections(tier):
    E = NS + 'energy'
    er = lambda: rmul(M, C2)
    return [('lemmas', lemmas), ('momentum', mom),
            ('lorentz factor', scalar(NS + 'lorenz_factor', [v2], [v2 >= 0, v2 < R(C2)], lambda ex: gam(ex, v2), 'gamma = 1/sqrt(1 - v^2/c^2)')),
            ('inverse lorentz factor', scalar(NS + 'lorenz_factor_inv', [u2], [u2 >= 0], lambda ex: rdiv(ONE, ex.sqrt(ONE + rdiv(u2, C2))), '1/gamma = 1/sqrt(1 + u^2/c^2)')),
            ('energy', scalar(E, [M, v2], [M > 0, v2 >= 0, v2 < R(C2)], lambda ex: ite(v2 > R(LIM2), rmul(rsub(gam(ex, v2), ONE), er()), v2 * M / 2), 'kinetic energy from velocity')),
            ('energy from momentum', scalar(E + '_m', [M, p2], [M > 0, p2 >= 0],
                                            lambda ex: ite(p2 > R(LIM2) * M * M, rsub(ex.sqrt(radd(rmul(p2, C2), rmul(er(), er()))), er()), p2 / (2 * M)), 'kinetic energy from momentum')),
            ('square root', scalar('algo::common::sq_rt', [u2], [u2 >= 0], lambda ex: ex.sqrt(u2), 'square root')),
            ('superluminal', refuse(NS + 'lorenz_factor', [v2], [v2 > R(C2)], 'a velocity above light speed is refused')),
            ('massless momentum', refuse(NS + 'momentum', ['ret', Fraction(0), 'v'], [dot(VV, VV) < R(C2)], 'zero mass is refused')),
            ('massless momentum 0', refuse(NS + 'momentum_0', [Fraction(0), 'v'], [dot(VV, VV) < R(C2)], 'zero mass is refused'))]


def natives(tier):
    return [Native('kinematics', 'c07.cpp', SRC, config(), n=(4000, 400000)),
            Native('kinematics, AVX build', 'c07.cpp', SRC, config(), flags=['-mavx', '-O0'], n=(1000, 20000))]
