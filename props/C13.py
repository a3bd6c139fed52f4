"""Electric half of the field step: discrete Ampere-Maxwell law, wall cells, Gauss law."""
from yeelib import *
from runner import Native

LEVEL = 'proof'
FN = 'MaxwellSolverYee::calc_field_e'
i, k, a, b = z3.Ints('i k a b')
r = lambda n: z3.ToReal(n + C0) * dr
h = lambda c: cell('field_h_at_et', c)


def curl_h(c, i, k, axis=False):
    """curl H at the position of E_c (i, k)"""
    if c == 'r':
        return -(h('phi')(i, k) - h('phi')(i, k - 1)) / dz
    if c == 'phi':
        return (h('r')(i, k) - h('r')(i, k - 1)) / dz - (h('z')(i, k) - h('z')(i - 1, k)) / dr
    if axis:      # loop of radius dr/2 around the axis
        return 4 * h('phi')(i, k) / dr
    return ((r(i) + dr / 2) * h('phi')(i, k) - (r(i) - dr / 2) * h('phi')(i - 1, k)) / (dr * r(i))


def step(c, i, k, pml, axis=False):
    """(eps/dt + sigma/2) E' = (eps/dt - sigma/2) E + curl H - J"""
    eps, sg = scal('epsilon')(i, k), (scal('sigma')(i, k) if pml else z3.RealVal(0))
    J = cell('current', c, 'current')(i, k)
    return ((eps / dt - sg / 2) * cell('field_e', c)(i, k) + curl_h(c, i, k, axis) - J) / (eps / dt + sg / 2)


def sec(walls, pml):
    w0, w1, w2, w3 = walls

    def go(ctx):
        m, ex = setup(ctx, [FN], pml=pml, walls=walls)
        # class invariant established by the constructor (checked in section 'constructor')
        r0, z0, r1, z1 = (1 if w0 else 0), (1 if w1 else 0), isub(NR, 1 if w2 else 0), isub(NZ, 1 if w3 else 0)
        for f, v in (('.r_begin', r0), ('.z_begin', z0), ('.r_end', r1), ('.z_end', z1)):
            ex.pins[('this', f)] = v
        pre = list(INV) + ([C0 == 0] if w0 else [C0 >= 1])
        for f in pre:
            ex.fact(f)
        outs = ex.call_function(m.sym(FN), [ex.root('this', STRUCT('MSY'))])
        p = ctx.p
        p.fact_true('returns', FN, bool(rets(outs)), str([o.kind for o in outs]))
        halo = [a >= 0, a < NR + 2 * S, b >= 0, b < NZ + 2 * S, z3.Or(a < S, a >= NR + S, b < S, b >= NZ + S)]
        dom = [i >= 0, i < NR, k >= 0, k < NZ]
        inner = [i >= r0, i < r1, k >= z0, k < z1]
        medium = [scal('epsilon')(i, k) > 0] + ([scal('sigma')(i, k) >= 0] if pml else [])
        axis = [i == 0, k >= z0, k < z1]
        left = [k == 0, i >= r0, i < r1]
        p.satisfiable('field step precondition', FN, pre + dom + inner)
        for o in rets(outs):
            pc = pc_of(ex, o)
            p.fact_true('frame: only the electric grid is written', FN, written(o.st) <= {(famof('field_e', c), '') for c in COMP}, str(written(o.st)))
            for c in COMP:
                v = ex.value_at(o.st, famof('field_e', c), '', (iadd(i, S), iadd(k, S)))
                q = lambda name, want, hy: p.eq(f'E_{c} {name}', FN, v, want, pre + dom + medium + hy + pc, ex.facts, ranges=RNG)
                q('inside obeys the discrete Ampere-Maxwell law', step(c, i, k, pml), inner)
                rest = [z3.Not(z3.And(*inner))]
                if w0 and c != 'phi':
                    q('next to the axis obeys the Ampere-Maxwell law', step(c, i, k, pml, c == 'z'), axis)
                if w0:
                    rest.append(z3.Not(z3.And(*axis)) if c != 'phi' else z3.BoolVal(True))
                if w1 and c == 'z':
                    q('next to the z=0 wall obeys the Ampere-Maxwell law', step(c, i, k, pml), left)
                    rest.append(z3.Not(z3.And(*left)))
                if w0 and w1 and c == 'z':
                    rest.append(z3.Not(z3.And(i == 0, k == 0)))
                if any(walls):
                    q('on the conducting walls keeps its value', cell('field_e', c)(i, k), rest)
                p.eq(f'E_{c} halo is cleared', FN, ex.value_at(o.st, famof('field_e', c), '', (a, b)), z3.RealVal(0), pre + halo + pc, ex.facts, ranges=RNG)
    return go


def ctor(ctx):
    """the constructor establishes the wall bounds assumed by the step sections"""
    fn = 'MaxwellSolverYee::MaxwellSolverYee'
    g3, g1 = 'Grid3D<double>::', 'Grid<double>::'
    skip = ['MaxwellSolver::MaxwellSolver', 'MaxwellSolverYee::set_pml', g3 + 'Grid3D', g3 + 'operator=', g3 + 'overlay_set', g1 + 'Grid', g1 + 'operator=']
    for walls in product((0, 1), repeat=4):
        m, ex = setup(ctx, [fn] + skip, walls=walls)
        for n in skip:
            for sy in m.inv.get(n, []):
                ex.contracts[sy] = lambda ex, st, A: [(st, A[0])]
        outs = ex.call_function(m.sym(fn, pick='(Geometry*'), [ex.root('this', STRUCT('MSY')), ex.root('geometry', STRUCT('Geometry')),
                                                               ex.root('time', STRUCT('TimeSim')), ex.root('current', STRUCT('Current'))])
        want = {'.r_begin': 1 if walls[0] else 0, '.z_begin': 1 if walls[1] else 0, '.r_end': NR - 1 if walls[2] else NR, '.z_end': NZ - 1 if walls[3] else NZ}
        for o in rets(outs):
            for f, w in want.items():
                v = ex.value_at(o.st, 'this', f, (), sh=U32)
                ctx.p.holds(f'walls {walls}: {f[1:]} bounds the non-wall cells', fn, to_z(v) == to_z(w), INV + pc_of(ex, o), ex.facts, ranges=RNG)
        ctx.p.fact_true('returns', fn, bool(rets(outs)))


def lemma(ctx):
    """div curl H = 0 with the contract's stencils, so eps div E changes by -dt div J only (uniform eps, no losses)"""
    d = lambda c, ii, kk: curl_h(c, ii, kk)
    flux = (r(i) + dr / 2) * dz * d('r', i, k) - (r(i) - dr / 2) * dz * d('r', i - 1, k) + r(i) * dr * (d('z', i, k) - d('z', i, k - 1))
    ctx.p.eq('lemma: the electric flux out of every cell around an inner node is changed by the current only', FN, flux, z3.RealVal(0),
             INV + [i >= 1, k >= 1], [], ranges=RNG)
    # node on the axis: cylinder of radius dr/2
    fa = (dr / 2) * dz * d('r', i, k) + dr * dr / 8 * (curl_h('z', i, k, True) - curl_h('z', i, k - 1, True))
    ctx.p.eq('lemma: same for the cylinder around an axis node', FN, fa, z3.RealVal(0), INV + [i == 0, C0 == 0, k >= 1], [], ranges=RNG)


def sections(tier):
    return [('lemma div E', lemma), ('constructor', ctor)] + [(f'walls {"".join(map(str, w))} pml', sec(w, True)) for w in product((0, 1), repeat=4)] + \
        [(f'walls {"".join(map(str, w))} no pml', sec(w, False)) for w in ((0, 0, 0, 0), (1, 1, 1, 1))]


def natives(tier):
    cfg = config()
    out = [Native('ampere', 'c13.cpp', SRC, cfg, n=(600, 60000))]
    c2 = dict(cfg)
    if c2.pop('ENABLE_PML', None):
        out.append(Native('ampere-no-pml', 'c13.cpp', SRC, c2, n=(600, 60000)))
    return out
