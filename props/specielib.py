"""shared: SpecieP module"""
from extract import config
from lib import *
from shapes import G, T
from yeelib import vec_pin

SRC = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp']
NSRC = SRC + ['src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
P = 'this.particles[]->'
PT = lambda f: (lambda j: z3.Function(P + '.' + f, z3.IntSort(), z3.RealSort())(j))
NP = z3.Int('this.particles.size')
RNG = {'j': lambda g: g.randint(0, 3), 'this.particles.size': lambda g: 4, 'time.step': lambda g: g.uniform(.1, 1), 'dr': lambda g: g.uniform(.3, 2),
       'dz': lambda g: g.uniform(.3, 2), 'this.mass': lambda g: g.uniform(.5, 2), 'a': lambda g: g.randint(0, 11), 'b': lambda g: g.randint(0, 11),
       'NR': lambda g: g.randint(3, 7), 'NZ': lambda g: g.randint(3, 7), 'c0': lambda g: g.choice([0, 3]), 'c1': lambda g: g.choice([0, 3]),
       P + '.sin': lambda g: g.uniform(-.9, .9), P + '.vel_*': lambda g: g.choice([1e6, 1e7, 1e8]) * g.uniform(-1, 1)}
SPN = ['Particle', 'Grid', 'Grid3D', 'Geometry', 'TimeSim', 'SpecieP']
SQ = 'algo::common::sq_rt'


def load(ctx, keep, cfg=None, srcs=SRC):
    m = ctx.load(cfg or config(), srcs, list(keep) + [SQ, 'phys::rel::lorenz_factor', 'phys::rel::lorenz_factor_inv'],
                 ['specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], SPN)
    ex = m.exec()
    ex.contracts[m.sym(SQ)] = k_sqrt
    if m.has('phys::rel::lorenz_factor'):
        ex.contracts[m.sym('phys::rel::lorenz_factor')] = k_gamma
    if m.has('phys::rel::lorenz_factor_inv'):
        ex.contracts[m.sym('phys::rel::lorenz_factor_inv')] = k_gamma_inv
    return m, ex


def logop(name, ret=None):
    def h(ex, st, A):
        st.log.append(Ent('op', name, '', (), None, meta={'a': list(A)}))
        return [(st, ret)]
    return h


W = 'weight_cylindrical<double>'
GOPS = ['Grid<double>::operator=', 'Grid<double>::overlay_set']


def deposits(ctx, m, ex, fn, maps):
    """run fn (a per-particle deposition routine) against weight_cylindrical's contract.
    maps: field path -> spec(j) of the total weight particle j must deposit there"""
    ex.contracts[m.sym(W)] = logop(W)
    for g in GOPS:
        for sy in m.inv.get(g, []):
            if '(double)' in m.dem[sy]:
                ex.contracts[sy] = logop(g)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SpecieP'))])
    p = ctx.p
    j = z3.Int('j')
    dom = [j >= 0, j < NP]
    off = {}
    for path in maps:
        o = 0
        sh = 'SpecieP'
        for part in path.split('.'):
            d, s2 = ex.lay.offset(sh, part)
            o += d
            sh = s2.a
        off[o] = path
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        pc = pc_of(ex, o)
        if written(o.st):
            p.fact_true('frame: nothing but the maps is written', fn, False, str(written(o.st)))
        acc = {q: Fraction(0) for q in off}
        clr = {q: set() for q in off}
        started = set()
        for e in o.st.log:
            if e.kind != 'op':
                continue
            A = e.meta['a']
            tgt = A[1] if e.fam == W else A[0]
            if tgt.fam.name != 'this' or not isinstance(tgt.off, int):
                raise Unsupported('deposit target')
            if tgt.off not in off:
                p.fact_true('no other map is touched', fn, False, f'{e.fam} on offset {tgt.off}', refuted=False)
                continue
            if e.fam in GOPS:
                if tgt.off in started or e.loops or e.guard is not True or A[1] != 0:
                    raise Unsupported('map cleared in an unexpected way')
                clr[tgt.off].add(e.fam)
                continue
            started.add(tgt.off)
            if len(e.loops) != 1:
                raise Unsupported('deposit loop nest')
            l = e.loops[0]
            s1 = [(l.k, j)]
            sub = lambda x: x if is_c(x) or isinstance(x, bool) else z3.substitute(ex.expand(o.st, x), *s1)
            g = band(sub(e.guard), sub(l.dom))
            if A[0].fam.name != 'geometry':
                raise Unsupported('geometry argument')
            gl = [] if g is True else [g]
            p.eq(f'{off[tgt.off]}: particle deposits at its own radius', fn, sub(A[2]), PT('pos_r')(j), dom + pc + gl, ex.facts, ranges=RNG)
            p.eq(f'{off[tgt.off]}: particle deposits at its own longitude', fn, sub(A[3]), PT('pos_z')(j), dom + pc + gl, ex.facts, ranges=RNG)
            acc[tgt.off] = radd(acc[tgt.off], ite(g, sub(A[4]), Fraction(0)) if g is not True else sub(A[4]))
        for q, path in off.items():
            p.fact_true(f'{path} is cleared, halo included, before it is filled', fn, clr[q] == set(GOPS), str(clr[q]), refuted=False)
            p.eq(f'{path}: every particle contributes its value exactly once', fn, acc[q], maps[path](ex, j), dom + pc + [PRE(j)], ex.facts, ranges=RNG)
    return outs


def PRE(j):
    v2 = sum(PT('vel_' + c)(j) * PT('vel_' + c)(j) for c in ('r', 'phi', 'z'))
    return v2 < R(C2)
