"""Density deposition: weight conservation, locality, ring-overlap shares."""
from yeelib import *
from gridlib import TPL
from runner import Native

LEVEL = 'proof'
FN = 'weight_cylindrical<double>'
r, z, w = z3.Reals('r z w')
a, b = z3.Ints('a b')
I, K = z3.ToInt(r / dr), z3.ToInt(z / dz)
PI = None
RNG10 = dict(RNG, r=lambda g: g.uniform(0.01, 8), z=lambda g: g.uniform(0, 8), w=lambda g: g.uniform(.5, 2))
half = R(Fraction(1, 2))
AXIS, NEAR, BULK = r <= dr / 2, z3.And(r > dr / 2, r < dr), r >= dr


def shares(case):
    """(radial shares of node i, i+1); axial shares of node k, k+1"""
    i = z3.ToReal(I)
    cut = (i + half) * dr
    lo, hi = r - dr / 2, r + dr / 2
    if case == 'axis':
        t = 2 * r * r + dr * dr / 2
        wr = [(dr * dr / 2 - r * dr + r * r) / t, (hi * hi - dr * dr / 4) / t]
    else:
        wr = [(cut * cut - lo * lo) / (2 * r * dr), (hi * hi - cut * cut) / (2 * r * dr)]
    k = z3.ToReal(K)
    return wr, [k + 1 - z / dz, z / dz - k]


def go(case):
    def run(ctx):
        hyp = {'axis': [r > 0, AXIS, I == 0], 'near': [NEAR, I == 0], 'bulk': [BULK, I >= 1]}[case]
        m = ctx.load(config(), [TPL], [FN], ['algo/grid.hpp', 'algo/grid3d.hpp', 'geometry.hpp', 'timeSim.hpp', 'specieP.hpp'], ['Grid', 'Grid3D', 'Geometry'])
        ex = m.exec()
        for f, v in (('.o_s', S), ('.x_size', NR), ('.y_size', NZ), ('.x_real_size', iadd(NR, 2 * S)), ('.y_real_size', iadd(NZ, 2 * S))):
            ex.pins[('g', f)] = v
        geom_pins(ex)
        pre = INV + hyp + [z3.Real('PI') > 3, z >= 0, I >= C0, I < C0 + NR, K >= C1, K < C1 + NZ]
        for f in pre:
            ex.fact(f)
        outs = ex.call_function(m.sym(FN), [ex.root('geometry', STRUCT('Geometry')), ex.root('g', STRUCT('Grid')), r, z, w])
        p = ctx.p
        p.fact_true('returns', FN, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        g = z3.Function('g.grid->->', z3.IntSort(), z3.IntSort(), z3.RealSort())
        pi = z3.Real('PI')
        V = lambda j: pi * dz * dr * dr * (2 * z3.ToReal(j) + 1)
        wr, wz = shares(case)
        p.satisfiable('deposition precondition', FN, INV + [I == 0 if case != 'bulk' else I == 2, K == 1, C0 == 0, C1 == 0, dr == 1, dz == 1, z == R(Fraction(3, 2)), {'axis': r == R(Fraction(1, 4)), 'near': r == R(Fraction(3, 4)), 'bulk': r == R(Fraction(5, 2))}[case]])
        for o in rets(outs):
            pc = pc_of(ex, o)
            p.fact_true('frame: only the grid is written', FN, written(o.st) <= {('g.grid->->', '')}, str(written(o.st)))
            F = ex.value_at(o.st, 'g.grid->->', '', (a, b))
            i0, k0 = I - C0 + S, K - C1 + S
            tot = None
            for al in (0, 1):
                for be in (0, 1):
                    f = canon(ex.value_at(o.st, 'g.grid->->', '', (i0 + al, k0 + be)))
                    d = f - g(i0 + al, k0 + be)
                    p.eq(f'node (i+{al}, k+{be}) receives its ring-overlap share divided by its cell volume', FN, f,
                         g(i0 + al, k0 + be) + w * wr[al] * wz[be] / V(I + al), pre + pc, ex.facts, ranges=RNG10)
            p.eq('no other cell changes', FN, canon(F), g(a, b), pre + pc + [z3.Or(a < i0, a > i0 + 1, b < k0, b > k0 + 1)], ex.facts, ranges=RNG10)
        p.eq('lemma: radial shares sum to one', FN, wr[0] + wr[1], z3.RealVal(1), pre, [], ranges=RNG10)
        p.eq('lemma: axial shares sum to one', FN, wz[0] + wz[1], z3.RealVal(1), pre, [], ranges=RNG10)
    return run


def canon(v):
    """floors of equal rational functions are written the same way"""
    from norm import Norm
    v = R(v)
    fl, seen, todo = {}, set(), [v]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT:
            fl[x.get_id()] = x
        todo += list(x.children())
    pairs = []
    for x in fl.values():
        for c in (I, K):
            if not x.eq(c) and Norm().is_zero_term(x.children()[0] - c.children()[0]):
                pairs.append((x, c))
    return z3.substitute(v, *pairs) if pairs else v


def density(ctx):
    import specielib as sl
    fn = 'SpecieP::calc_density'
    m, ex = sl.load(ctx, [fn, sl.W] + sl.GOPS)
    sl.deposits(ctx, m, ex, fn, {'density_map': lambda ex, j: sl.PT('weight')(j)})


def sections(tier):
    return [(f'deposit {c}', go(c)) for c in ('axis', 'near', 'bulk')] + [('density map', density)]


def natives(tier):
    import specielib as sl
    return [Native('density', 'c10.cpp', sl.NSRC, config(), n=(600, 60000))]
