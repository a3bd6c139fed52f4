"""Initial state of fields and absorbing layers."""
from yeelib import *
from runner import Native
from extract import config, swap
from smblib import NSRC
import ir

LEVEL = 'proof'
FN = 'MaxwellSolverYee::set_pml'
GR, GZ, P1, P2, P3 = z3.Ints('GR GZ pml1 pml2 pml3')
S0, S1 = z3.Reals('sigma0 sigma1')
i, k, a, b = z3.Ints('i k a b')
rl = z3.ToReal
PINV = [GR >= C0 + NR, GZ >= C1 + NZ, P1 >= 0, P2 >= 0, P3 >= 0, P1 <= GZ, P2 <= GR, P3 <= GZ, S0 >= 0, S1 >= S0]
RG = dict(RNG, GR=lambda g: g.randint(4, 22), GZ=lambda g: g.randint(4, 14), pml1=lambda g: g.randint(0, 4), pml2=lambda g: g.randint(0, 4), pml3=lambda g: g.randint(0, 4),
          sigma0=lambda g: g.uniform(0, 1), sigma1=lambda g: g.uniform(1, 4))


def profile(depth, n):
    """conductivity of a cell whose outer edge is `depth` cells deep in a layer of n cells"""
    q = rl(depth) / rl(n)
    return S0 + (S1 - S0) * q * q


def want(gi, gk):
    """depends on the cell of the whole space only, not on the domain"""
    z = z3.RealVal(0)
    # number of layer cells up to and including the cell, counted from the inner edge of the layer
    d2, d1, d3 = gi - (GR - P2) + 1, P1 - gk, gk - (GZ - P3) + 1
    return z3.If(d2 >= 1, profile(d2, P2), z) + z3.If(d1 >= 1, profile(d1, P1), z) + z3.If(d3 >= 1, profile(d3, P3), z)


def pml(flags):
    """set_pml adds the layer profile to every cell; flags: which layers exist"""
    def go(ctx):
        m, ex = setup(ctx, [FN, 'Geometry::dist_x_to_end', 'Geometry::dist_y_to_end'])
        ps = [0] + [p if f else 0 for p, f in zip((P1, P2, P3), flags)]
        vec_pin(ex, 'geometry', '.pml_size', ps)
        vec_pin(ex, 'geometry', '.pml_sigma', [S0, S1])
        vec_pin(ex, 'geometry', '.global_cell_amount', [GR, GZ])
        vec_pin(ex, 'geometry', '.global_size', [rl(GR) * dr, rl(GZ) * dz])
        pre = PINV + [p >= 1 if f else p == 0 for p, f in zip((P1, P2, P3), flags)]
        for f in pre:
            ex.fact(f)
        outs = ex.call_function(m.sym(FN), [ex.root('this', STRUCT('MSY'))])
        p = ctx.p
        p.fact_true('terminates without a fatal error', FN, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        p.satisfiable('precondition', FN, INV + pre)
        sg = z3.Function('this.sigma.grid->->', z3.IntSort(), z3.IntSort(), z3.RealSort())
        dom = [i >= 0, i < NR, k >= 0, k < NZ]
        halo = [a >= 0, a < NR + 2 * S, b >= 0, b < NZ + 2 * S, z3.Or(a < S, a >= NR + S, b < S, b >= NZ + S)]
        for o in rets(outs):
            p.fact_true('frame: only the conductivity is written', FN, written(o.st) <= {('this.sigma.grid->->', '')}, str(written(o.st)))
            if not any(flags):
                p.fact_true('nothing is written without layers', FN, not written(o.st), str(written(o.st)))
                continue
            v = ex.value_at(o.st, 'this.sigma.grid->->', '', (iadd(i, S), iadd(k, S)))
            sub = [(x, z3.IntVal(0)) for x, f in zip((P1, P2, P3), flags) if not f]
            w = z3.substitute(want(i + C0, k + C1), *sub) if sub else want(i + C0, k + C1)
            # cases of the layers that exist, so that both sides are plain rational terms
            cs = [(f, q) for f, q in zip(flags, (k + C1 < P1, i + C0 >= GR - P2, k + C1 >= GZ - P3))]
            for case in product(*[((True, False) if f else (None,)) for f in flags]):
                hy = [q if c else z3.Not(q) for c, (_, q) in zip(case, cs) if c is not None]
                terms = [pr for c, pr in zip(case, (profile(P1 - (k + C1), P1), profile(i + C0 - (GR - P2) + 1, P2), profile(k + C1 - (GZ - P3) + 1, P3))) if c]
                e = z3.RealVal(0)
                for t in terms:
                    e = e + t
                p.eq('the cell gets the sum of the profiles of exactly the layers it lies in', FN, v - sg(i + S, k + S), e, INV + pre + dom + hy + pc_of(ex, o), ex.facts, ranges=RG)
            p.eq('halo is not touched', FN, ex.value_at(o.st, 'this.sigma.grid->->', '', (a, b)), sg(a, b), INV + pre + halo + pc_of(ex, o), ex.facts, ranges=RG)
    return go


def dist(ctx):
    """distance from the inner edge of a cell to the far end of the space"""
    p = ctx.p
    for fn, n, h, c, N in (('Geometry::dist_x_to_end', 0, dr, C0, GR), ('Geometry::dist_y_to_end', 1, dz, C1, GZ)):
        m, ex = setup(ctx, [FN, fn])
        vec_pin(ex, 'geometry', '.global_cell_amount', [GR, GZ])
        for f in PINV:
            ex.fact(f)
        outs = ex.call_function(m.sym(fn), [ex.root('geometry', STRUCT('Geometry')), i])
        for o in rets(outs):
            p.fact_true('frame: nothing is written', fn, not written(o.st), str(written(o.st)))
            p.eq('distance from the inner edge of the cell to the end of the space', fn, o.val, rl(N - c - i) * h, INV + PINV + [i >= 0, i < (NR, NZ)[n]] + pc_of(ex, o), ex.facts, ranges=RG)


def lemma(ctx):
    p = ctx.p
    d, n = z3.Ints('d n')
    q = rl(d) / rl(n)
    hy = [d >= 1, d <= n, S0 >= 0, S1 >= S0]
    x = z3.Real('x')
    p.holds('lemma: conductivity of a layer lies between the configured bounds', 'lemma', z3.And(S0 + (S1 - S0) * x * x >= S0, S0 + (S1 - S0) * x * x <= S1), [x >= 0, x <= 1, S1 >= S0])
    p.eq('lemma: the outermost cell has the upper bound', 'lemma', profile(n, n), S1, [n >= 1])
    p.eq('lemma: far and near layers of equal width mirror each other', 'lemma', rl((GZ - 1 - k) - (GZ - P1) + 1), rl(P1 - k), [])


class Box:
    """abstract content of a freshly made grid: sizes, value of inner cells, value of the halo"""
    def __init__(s, x, y, h, inner=None, halo=None):
        s.x, s.y, s.h, s.inner, s.halo = x, y, h, inner, halo

    def but(s, **kw):
        return Box(**dict(dict(x=s.x, y=s.y, h=s.h, inner=s.inner, halo=s.halo), **kw))


W64 = ir.Ty('int', 64)


def grid_contracts(ex, m):
    """Grid / Grid3D operations by their contracts (C01) on whole grids; the mark travels with the object"""
    def box(st, q):
        v = ex.load(st, q, W64)
        if not isinstance(v, Box):
            raise Unsupported('grid content')
        return v

    def ctor(ex, st, A):
        if len(A) == 4:
            ex.store(st, A[0], Box(A[1], A[2], A[3]), W64)
        elif len(A) == 2:
            ex.store(st, A[0], box(st, A[1]), W64)
        return [(st, None)]

    def fill(**kw):
        def h(ex, st, A):
            ex.store(st, A[0], box(st, A[0]).but(**{f: A[n] for f, n in kw.items()}), W64)
            return [(st, A[0])]
        return h

    def asg(ex, st, A):
        ex.store(st, A[0], box(st, A[1]), W64)
        return [(st, A[0])]
    for g in ('Grid<double>', 'Grid3D<double>'):
        c = g.split('<')[0]
        for sy in m.inv.get(f'{g}::{c}', []):
            ex.contracts[sy] = ctor
        for sy in m.inv.get(f'{g}::overlay_set', []):
            ex.contracts[sy] = fill(halo=1)
        for sy in m.inv.get(f'{g}::operator=', []):
            ex.contracts[sy] = fill(inner=1) if '(double' in m.dem[sy].split('operator=')[1] else asg


GOPS = [f'{g}::{q}' for g in ('Grid<double>', 'Grid3D<double>') for q in ('operator=', 'overlay_set')] + ['Grid<double>::Grid', 'Grid3D<double>::Grid3D']


def content(ctx, ex, m, st, fn, this, strct, f, value, text, hy):
    p = ctx.p
    v = ex.load(st, this.add(m.lay.offset(strct, f)[0]), W64)
    p.fact_true(f'{f} is created', fn, isinstance(v, Box), str(v), refuted=False)
    if not isinstance(v, Box):
        return
    tr = lambda t: Fraction(t) if isinstance(t, int) else rl(t)
    for nm, x, w in (('radial cells', v.x, NR), ('longitudinal cells', v.y, NZ), ('halo', v.h, S)):
        p.eq(f'{f}: {nm}', fn, tr(x), tr(w), hy, ex.facts, ranges=RG)
    for nm, x in (('every inner cell', v.inner), ('every halo cell', v.halo)):
        if x is None:
            p.fact_true(f'{f}: {nm} is {text}', fn, False, 'left uninitialised')
        else:
            p.eq(f'{f}: {nm} is {text}', fn, x if not isinstance(x, int) else Fraction(x), value, hy, ex.facts, ranges=RG)


def ctor(withpml):
    """MaxwellSolverYee: zero fields, vacuum permittivity, zero conductivity but for layers; range of the electric update set by the walls"""
    def go(ctx):
        fn = 'MaxwellSolverYee::MaxwellSolverYee'
        m = load(ctx, [fn, FN] + GOPS, pml=withpml)
        for walls in product((0, 1), repeat=4):
            ex = m.exec()
            geom_pins(ex, walls)
            for f in INV:
                ex.fact(f)
            grid_contracts(ex, m)
            called = []

            def layers(ex, st, A):
                v = ex.load(st, A[0].add(m.lay.offset('MSY', 'sigma')[0]), W64)
                called.append((st, v))
                st.log.append(Ent('op', 'set_pml', '', (), None, meta=dict(this=A[0], sigma=v)))
                return [(st, None)]
            for sy in m.inv.get(FN, []):
                ex.contracts[sy] = layers
            st = State()
            this = ex.new_local(st, 'solver', m.lay.size(STRUCT('MSY')))
            fs = [sy for sy in m.inv[fn] if 'Current' in m.dem[sy] and 'C2' in sy]
            if len(fs) != 1:
                raise Unsupported('constructor')
            ctx.funcs.add(fn)
            ga, ta, cu = ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim')), ex.root('current', STRUCT('Current'))
            outs = ex.call_function(fs[0], [this, ga, ta, cu], st)
            p = ctx.p
            p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
            for o in rets(outs):
                hy = INV + pc_of(ex, o)
                p.fact_true('frame: only the solver itself is written', fn, not written(o.st), str(written(o.st)))
                for f in ('field_e', 'field_h', 'field_h_at_et'):
                    content(ctx, ex, m, o.st, fn, this, 'MSY', f, Fraction(0), 'zero', hy)
                content(ctx, ex, m, o.st, fn, this, 'MSY', 'epsilon', EPS0, 'the permittivity of vacuum', hy)
                content(ctx, ex, m, o.st, fn, this, 'MSY', 'sigma', Fraction(0), 'zero before layers are added', hy)
                lay = [e for e in o.st.log if e.kind == 'op']
                if withpml:
                    p.fact_true('layers are added exactly once', fn, len(lay) == 1 and not lay[0].loops and lay[0].guard is True, str(len(lay)))
                    for e in lay:
                        x = e.meta['sigma']
                        p.fact_true('and after the conductivity is cleared', fn, isinstance(x, Box) and x.inner is not None and x.halo is not None, str(x))
                else:
                    p.fact_true('no layers without support for them', fn, not lay)
                for f, v in (('r_begin', walls[0]), ('z_begin', walls[1]), ('r_end', NR - walls[2]), ('z_end', NZ - walls[3])):
                    x = ex.load(o.st, this.add(m.lay.offset('MSY', f)[0]), ir.Ty('int', 32))
                    p.eq(f'{f} leaves out exactly the cells of a wall', fn, Fraction(x) if isinstance(x, int) else rl(x), Fraction(v) if isinstance(v, int) else rl(v), hy, ex.facts, ranges=RG)
                for f, x in (('geometry', ga), ('time', ta), ('current', cu)):
                    q = ex.load(o.st, this.add(m.lay.offset('MSY', f)[0]), ir.PTR)
                    p.fact_true(f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam is x.fam and q.off == x.off, str(q))
    return go


def cur(cls):
    """Current: zero density everywhere"""
    def go(ctx):
        fn = f'{cls}::{cls}'
        VS = 'std::vector<SpecieP*, std::allocator<SpecieP*>>'
        m = ctx.load(swap(config(), 'SWITCH_CCS', {'CurrentVB': 'SWITCH_CCS_VB', 'CurrentZigZag': 'SWITCH_CCS_ZIGZAG'}[cls]), ['src/domain.cpp'],
                     [fn, 'Domain::Domain'] + GOPS + [VS + '::' + q for q in ('vector', '~vector', 'operator=')], ['domain.hpp', f'current/c{cls[1:]}.hpp'], ['Geometry', 'TimeSim', 'Grid', 'Grid3D'],
                     {'Cur': (cls, dict(current=STRUCT('Grid3D'), geometry=G(), time=T(), species_p=ARR(U64, 3)))})
        ex = m.exec()
        geom_pins(ex)
        for f in INV:
            ex.fact(f)
        grid_contracts(ex, m)

        def hand(ex, st, A):
            if len(A) > 1 and isinstance(A[1], Ptr):
                ex.store(st, A[0], A[1], ir.PTR)
            return [(st, A[0])]
        for q in ('vector', '~vector', 'operator='):
            for sy in m.inv.get(VS + '::' + q, []):
                ex.contracts[sy] = hand
        st = State()
        this = ex.new_local(st, 'current', m.lay.size(STRUCT('Cur')))
        sp = ex.new_local(st, 'species', 24)
        fs = [sy for sy in m.inv[fn] if 'Geometry*' in m.dem[sy] and 'C2' in sy]
        if len(fs) != 1:
            raise Unsupported('constructor')
        ctx.funcs.add(fn)
        outs = ex.call_function(fs[0], [this, ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim')), sp], st)
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            p.fact_true('frame: only the object itself is written', fn, not written(o.st), str(written(o.st)))
            content(ctx, ex, m, o.st, fn, this, 'Cur', 'current', Fraction(0), 'zero', INV + pc_of(ex, o))
            for f in ('geometry', 'time'):
                q = ex.load(o.st, this.add(m.lay.offset('Cur', f)[0]), ir.PTR)
                p.fact_true(f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam.name == f, str(q))
    return go


def sections(tier):
    return [('lemma', lemma), ('distance', dist)] + [(f'layers {"".join(map(str, f))}', pml(f)) for f in product((0, 1), repeat=3)] + \
        [('solver', ctor(True)), ('solver without layers', ctor(False)), ('current CurrentVB', cur('CurrentVB')), ('current CurrentZigZag', cur('CurrentZigZag'))]


def natives(tier):
    d = Native('initial state', 'c19.cpp', NSRC, config(), n=(300, 20000), flags=['-fno-access-control'])
    d.env = {'MALLOC_PERTURB_': '165'}
    return [d]
