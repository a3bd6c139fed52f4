"""Momentum, energy and temperature maps of a species."""
import specielib as sl
from specielib import *
from runner import Native

LEVEL = 'proof'
a, b = z3.Ints('a b')
NR, NZ = z3.Ints('NR NZ')
LIM2 = Fraction(5 * 10 ** 7) ** 2
EV = Fraction(0)


def mom(comp):
    def f(ex, j):
        v = [PT('vel_' + c)(j) for c in ('r', 'phi', 'z')]
        v2 = dot(v, v)
        ga = rdiv(Fraction(1), ex.sqrt(rsub(Fraction(1), rdiv(v2, C2))))
        base = z3.Real('this.mass') * PT('weight')(j)
        q = v[comp] if comp is not None else ex.sqrt(v2)
        return ite(v2 > R(LIM2), rmul(rmul(base, q), ga), rmul(base, q))
    return f


def sec_w(ctx):
    fn = 'SpecieP::calc_momentum_w'
    m, ex = load(ctx, [fn, W] + GOPS)
    deposits(ctx, m, ex, fn, {f'momentum_map_w.{c}_component': mom(n) for n, c in enumerate(('r', 'phi', 'z'))})


def sec_abs(ctx):
    fn = 'SpecieP::calc_momentum_abs_w'
    m, ex = load(ctx, [fn, W] + GOPS)
    deposits(ctx, m, ex, fn, {'momentum_abs_map_w': mom(None)})


MAPS = {'SpecieP::calc_density': ['density_map'], 'SpecieP::calc_momentum_abs_w': ['momentum_abs_map_w'],
        'SpecieP::calc_momentum_w': [f'momentum_map_w.{c}_component' for c in ('r', 'phi', 'z')]}


def refresh(name, maps):
    """contract: the map holds the deposit of the current particles (a fresh function of the cell)"""
    def h(ex, st, A):
        for q in maps:
            havoc2(ex, st, f'this.{q}.grid->->', z3.Function('now ' + q, z3.IntSort(), z3.IntSort(), z3.RealSort()))
        return [(st, None)]
    return h


def grid(f):
    g = z3.Function('now ' + f, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return g(a, b)


def derived(fn, need, targets, spec):
    def go(ctx):
        subs = ['SpecieP::calc_density', 'SpecieP::calc_momentum_w', 'SpecieP::calc_momentum_abs_w']
        EM = 'phys::rel::energy_m'
        m, ex = load(ctx, [fn, EM] + subs)
        for s in subs:
            if m.has(s):
                ex.contracts[m.sym(s)] = refresh(s, MAPS[s])
        if m.has(EM):
            f = z3.Function('energy_m', z3.RealSort(), z3.RealSort(), z3.RealSort())
            ex.contracts[m.sym(EM)] = lambda ex, st, A: [(st, f(R(A[0]), R(A[1])))]
        for g in ('density_map', 'temperature_map', 'energy_map', 'momentum_abs_map_w') + tuple(f'{x}.{c}_component' for x in ('momentum_map_w', 'momentum_map') for c in ('r', 'phi', 'z')):
            for q, v in (('.o_s', 2), ('.x_size', NR), ('.y_size', NZ), ('.x_real_size', iadd(NR, 4)), ('.y_real_size', iadd(NZ, 4))):
                ex.pins[('this', '.' + g + q)] = v
        vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
        pre = [NR >= 1, NZ >= 1]
        for q in pre:
            ex.fact(q)
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SpecieP'))])
        p = ctx.p
        dom = [a >= 2, a < NR + 2, b >= 2, b < NZ + 2]
        cells = [a >= 0, a < NR + 4, b >= 0, b < NZ + 4]
        for o in rets(outs):
            pc = pc_of(ex, o)
            fams = {f'this.{t}.grid->->': t for t in targets}
            p.fact_true('frame: only its own map is written', fn, {e.fam for e in o.st.log if e.kind != 'op' and not e.meta.get('havoc')} <= set(fams), str(written(o.st)))
            for fam, t in fams.items():
                v = ex.value_at(o.st, fam, '', (a, b))
                p.eq(f'{t}: every inner cell has the specified value', fn, v, spec(ex, t), pre + dom + pc, ex.facts, ranges=RNG2)
                p.eq(f'{t}: halo is zero', fn, v, z3.RealVal(0), pre + cells + [z3.Not(z3.And(*dom))] + pc, ex.facts, ranges=RNG2)
        p.fact_true('returns', fn, bool(rets(outs)))
    return go


RNG2 = dict(RNG)
RNG2['now density_map*'] = lambda g: g.choice([0, g.uniform(.5, 2)])
EVINV = None


def sp_energy(ex, t):
    n = grid('density_map')
    pa = grid('momentum_abs_map_w')
    em = z3.Function('energy_m', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return z3.If(n == 0, z3.RealVal(0), em(z3.Real('this.mass'), pa * pa / (n * n)) * evinv(ex))


def sp_temp(ex, t):
    n = grid('density_map')
    pa = grid('momentum_abs_map_w')
    pv = [grid(f'momentum_map_w.{c}_component') for c in ('r', 'phi', 'z')]
    em = z3.Function('energy_m', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return z3.If(n == 0, z3.RealVal(0), em(z3.Real('this.mass'), (pa * pa - dot(pv, pv)) / (n * n)) * evinv(ex))


def evinv(ex):
    return R(Fraction(10 ** 19 * 5, 8))      # 1 / 1.6e-19


def sp_mom(ex, t):
    c = t.split('.')[1]
    n = grid('density_map')
    return z3.If(n == 0, z3.RealVal(0), grid(f'momentum_map_w.{c}') / n)


def energy_m(ctx):
    """kinetic energy from momentum: sqrt(p^2 c^2 + m^2 c^4) - m c^2, or p^2/2m below the relativistic limit"""
    fn = 'phys::rel::energy_m'
    m, ex = load(ctx, [fn])
    M, p2 = z3.Reals('M p2')
    outs = ex.call_function(m.sym(fn), [M, p2])
    pre = [M > 0, p2 >= 0]
    er = rmul(M, C2)
    want = ite(p2 > R(LIM2) * M * M, rsub(ex.sqrt(radd(rmul(p2, C2), rmul(er, er))), er), p2 / (2 * M))
    for o in rets(outs):
        ctx.p.eq('kinetic energy from momentum', fn, ex.expand(o.st, o.val), want, pre + pc_of(ex, o), ex.facts,
                 ranges={'M': lambda g: g.uniform(.5, 2), 'p2': lambda g: g.choice([1e14, 1e16, 1e17]) * g.uniform(.1, 1)})
    ctx.p.fact_true('returns', fn, bool(rets(outs)))


def sections(tier):
    S = 'SpecieP::'
    return [('momentum deposit', sec_w), ('absolute momentum deposit', sec_abs), ('energy from momentum', energy_m),
            ('energy map', derived(S + 'calc_energy', {S + 'calc_density', S + 'calc_momentum_abs_w'}, ['energy_map'], sp_energy)),
            ('temperature map', derived(S + 'calc_temperature', {S + 'calc_density', S + 'calc_momentum_abs_w', S + 'calc_momentum_w'}, ['temperature_map'], sp_temp)),
            ('momentum map', derived(S + 'calc_momentum', {S + 'calc_density', S + 'calc_momentum_w'}, [f'momentum_map.{c}_component' for c in ('r', 'phi', 'z')], sp_mom))]


def natives(tier):
    return [Native('moments', 'c18.cpp', NSRC, config(), n=(600, 60000))]
