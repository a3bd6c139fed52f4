"""Magnetic half of the field step: discrete Faraday law."""
from yeelib import *
from runner import Native

LEVEL = 'proof'
FN = 'MaxwellSolverYee::calc_field_h'
TARGET = [('field_h', c) for c in COMP] + [('field_h_at_et', c) for c in COMP]
i, k, a, b = z3.Ints('i k a b')


def curl_e(c, i, k):
    """minus the curl of E at the position of H_c (i, k), as an integral-form circulation divided by the face area"""
    e = [cell('field_e', x) for x in COMP]
    r = lambda n: z3.ToReal(n + C0) * dr
    if c == 'r':
        return (e[1](i, k + 1) - e[1](i, k)) / dz
    if c == 'phi':
        return (e[2](i + 1, k) - e[2](i, k)) / dr - (e[0](i, k + 1) - e[0](i, k)) / dz
    return -(r(i + 1) * e[1](i + 1, k) - r(i) * e[1](i, k)) / (dr * (r(i) + dr / 2))


def sec(walls):
    def go(ctx):
        m, ex = setup(ctx, [FN], walls=walls)
        outs = ex.call_function(m.sym(FN), [ex.root('this', STRUCT('MSY'))])
        p = ctx.p
        p.fact_true('terminates without a fatal error', FN, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        dom = [i >= 0, i < NR, k >= 0, k < NZ]
        halo = [a >= 0, a < NR + 2 * S, b >= 0, b < NZ + 2 * S, z3.Or(a < S, a >= NR + S, b < S, b >= NZ + S)]
        p.satisfiable('field step precondition', FN, INV + dom)
        for o in rets(outs):
            p.fact_true('frame: only the two magnetic grids are written', FN, written(o.st) <= {(famof(f, c), '') for f, c in TARGET}, str(written(o.st)))
            new = {}
            for f, c in TARGET:
                v = ex.value_at(o.st, famof(f, c), '', (iadd(i, S), iadd(k, S)))
                h = cell('field_h_at_et', c)(i, k)
                g = curl_e(c, i, k) * dt / R(MU0)
                want = h + (g if f == 'field_h_at_et' else g / 2)
                new[f, c] = v
                p.eq(f'{f}[{c}] is advanced by one {"whole" if f == "field_h_at_et" else "half"} step of Faraday\'s law', FN, v, want, INV + dom + pc_of(ex, o), ex.facts, ranges=RNG)
                p.eq(f'{f}[{c}] halo is cleared', FN, ex.value_at(o.st, famof(f, c), '', (a, b)), z3.RealVal(0), INV + halo + pc_of(ex, o), ex.facts, ranges=RNG)
    return go


def lemma(ctx):
    """div B: the flux of the contract's update through every ring cell vanishes"""
    r = lambda n: z3.ToReal(n + C0) * dr
    d = lambda c, ii, kk: curl_e(c, ii, kk) * dt / R(MU0)
    flux = r(i + 1) * dz * d('r', i + 1, k) - r(i) * dz * d('r', i, k) + (r(i + 1) * r(i + 1) - r(i) * r(i)) / 2 * (d('z', i, k + 1) - d('z', i, k))
    ctx.p.eq('lemma: the net magnetic flux out of every ring cell is unchanged', FN, flux, z3.RealVal(0), INV + [i >= 0, k >= 0], [], ranges=RNG)


def sections(tier):
    return [('lemma div B', lemma)] + [(f'walls {"".join(map(str, w))}', sec(w)) for w in product((0, 1), repeat=4)]


def natives(tier):
    return [Native('faraday', 'c12.cpp', SRC, config(), n=(600, 60000))]
