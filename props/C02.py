"""Halo exchange between two neighbouring grids."""
from gridlib import *
from runner import Native

LEVEL = 'proof'


def pair(ex, same):
    s, nx, ny = z3.Ints('s nx ny')
    mx, my = (nx if 'x' in same else z3.Int('mx')), (ny if 'y' in same else z3.Int('my'))
    sizes(ex, 'lo', nx, ny, s)
    sizes(ex, 'hi', mx, my, s)
    pre = [s >= 0, nx >= s, ny >= s, mx >= s, my >= s]
    for f in pre:
        ex.fact(f)
    return s, nx, ny, mx, my, pre


RNG = {'s': lambda g: g.randint(1, 3), 'nx': lambda g: g.randint(3, 8), 'ny': lambda g: g.randint(3, 8), 'mx': lambda g: g.randint(3, 8),
       'my': lambda g: g.randint(3, 8), 'a': lambda g: g.randint(0, 12), 'b': lambda g: g.randint(0, 12)}


def spec(kind, s, NX, NY, MX, MY, lo, hi, a, b):
    """final contents of lo and hi at raw cell (a, b)"""
    def tot_lo(d):      # pairing on one axis: lo cell L-2s+d <-> hi cell d,  lo cell L-1-d <-> hi cell 2s-1-d
        return d
    # lo raw index p in [L-2s, L) corresponds to hi raw index p-(L-2s) in [0, 2s)
    if kind == 'y':
        inlo = z3.And(a >= s, a < NX - s, b >= NY - 2 * s, b < NY)
        vlo = z3.If(inlo, lo(a, b) + hi(a, b - (NY - 2 * s)), lo(a, b))
        inhi = z3.And(a >= s, a < MX - s, b >= 0, b < 2 * s)
        vhi = z3.If(inhi, hi(a, b) + lo(a, b + NY - 2 * s), hi(a, b))
    elif kind == 'x':
        inlo = z3.And(b >= s, b < NY - s, a >= NX - 2 * s, a < NX)
        vlo = z3.If(inlo, lo(a, b) + hi(a - (NX - 2 * s), b), lo(a, b))
        inhi = z3.And(b >= s, b < MY - s, a >= 0, a < 2 * s)
        vhi = z3.If(inhi, hi(a, b) + lo(a + NX - 2 * s, b), hi(a, b))
    else:
        pass
    return vlo, vhi


def sec(kind):
    fn = f'Grid<double>::overlay_{kind}'

    def go(ctx):
        m = load(ctx, [fn])
        ex = m.exec()
        same = {'y': 'x', 'x': 'y', 'xy': 'xy', 'yx': 'xy'}[kind]
        s, nx, ny, mx, my, pre = pair(ex, same)
        outs = ex.call_function(m.sym(fn), [ex.root('lo', STRUCT('Grid')), ex.root('hi', STRUCT('Grid'))])
        p = ctx.p
        rr = rets(outs)
        p.fact_true('returns normally for grids of matching size', fn, bool(rr) and len(outs) == len(rr), str([o.kind for o in outs]))
        NX, NY, MX, MY = nx + 2 * s, ny + 2 * s, mx + 2 * s, my + 2 * s
        a, b = z3.Ints('a b')
        I2 = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.RealSort())
        lo, hi = I2(CELL('lo')), I2(CELL('hi'))
        p.satisfiable('halo precondition', fn, pre + [s == 2])
        for o in rr:
            p.fact_true('frame: only grid cells are written', fn, written(o.st) <= {(CELL('lo'), ''), (CELL('hi'), '')}, str(written(o.st)))
            fl = ex.value_at(o.st, CELL('lo'), '', (a, b))
            fh = ex.value_at(o.st, CELL('hi'), '', (a, b))
            if kind in ('x', 'y'):
                vlo, vhi = spec(kind, s, NX, NY, MX, MY, lo, hi, a, b)
                dl = [a >= 0, a < NX, b >= 0, b < NY]
                dh = [a >= 0, a < MX, b >= 0, b < MY]
                p.eq('lower grid: shared strip holds the sum of both, everything else is untouched', fn, fl, vlo, pre + dl + pc_of(ex, o), ex.facts, ranges=RNG)
                p.eq('upper grid: shared strip holds the sum of both, everything else is untouched', fn, fh, vhi, pre + dh + pc_of(ex, o), ex.facts, ranges=RNG)
            elif kind == 'yx':
                # lower x of lo meets upper x of hi, upper y of lo meets lower y of hi
                dl = [a >= 0, a < NX, b >= 0, b < NY]
                q1 = z3.And(a >= 0, a < s, b >= NY - s, b < NY)
                q2 = z3.And(a >= s, a < 2 * s, b >= NY - 2 * s, b < NY - s)
                vlo = z3.If(z3.Or(q1, q2), lo(a, b) + hi(a + MX - 2 * s, b - (NY - 2 * s)), lo(a, b))
                r1 = z3.And(a >= MX - 2 * s, a < MX - s, b >= s, b < 2 * s)
                r2 = z3.And(a >= MX - s, a < MX, b >= 0, b < s)
                vhi = z3.If(z3.Or(r1, r2), hi(a, b) + lo(a - (MX - 2 * s), b + NY - 2 * s), hi(a, b))
                p.eq('lower right grid: shared corner holds the sum of both, everything else is untouched', fn, fl, vlo, pre + dl + pc_of(ex, o), ex.facts, ranges=RNG)
                p.eq('upper left grid: shared corner holds the sum of both, everything else is untouched', fn, fh, vhi, pre + dl + pc_of(ex, o), ex.facts, ranges=RNG)
            else:
                # corner blocks: [N-2s, N-s)^2 and [N-s, N)^2 of lo with [0, s)^2 and [s, 2s)^2 of hi
                dl = [a >= 0, a < NX, b >= 0, b < NY]
                q1 = z3.And(a >= NX - 2 * s, a < NX - s, b >= NY - 2 * s, b < NY - s)
                q2 = z3.And(a >= NX - s, a < NX, b >= NY - s, b < NY)
                vlo = z3.If(z3.Or(q1, q2), lo(a, b) + hi(a - (NX - 2 * s), b - (NY - 2 * s)), lo(a, b))
                r1 = z3.And(a >= 0, a < s, b >= 0, b < s)
                r2 = z3.And(a >= s, a < 2 * s, b >= s, b < 2 * s)
                vhi = z3.If(z3.Or(r1, r2), hi(a, b) + lo(a + NX - 2 * s, b + NY - 2 * s), hi(a, b))
                p.eq('lower grid: shared corner holds the sum of both, everything else is untouched', fn, fl, vlo, pre + dl + pc_of(ex, o), ex.facts, ranges=RNG)
                p.eq('upper grid: shared corner holds the sum of both, everything else is untouched', fn, fh, vhi, pre + dl + pc_of(ex, o), ex.facts, ranges=RNG)
    return go


def sec_mismatch(kind):
    fn = f'Grid<double>::overlay_{kind}'

    def go(ctx):
        m = load(ctx, [fn])
        ex = m.exec()
        s, nx, ny, mx, my, pre = pair(ex, '')
        ne = {'y': nx != mx, 'x': ny != my, 'xy': z3.Or(nx != mx, ny != my), 'yx': z3.Or(nx != mx, ny != my)}[kind]
        outs = ex.call_function(m.sym(fn), [ex.root('lo', STRUCT('Grid')), ex.root('hi', STRUCT('Grid'))], pc=[ne])
        bad = [o for o in outs if o.kind not in ('fatal', 'unreach')]
        ctx.p.fact_true('grids of different size are refused', fn, not bad, str([o.kind for o in outs]))
    return go


def sec3(kind):
    fn = f'Grid3D<double>::overlay_{kind}'
    g = f'Grid<double>::overlay_{kind}'

    def go(ctx):
        m = load(ctx, [fn, g])
        ex = m.exec()
        calls = []

        def k(ex, st, A):
            st.log.append(Ent('op', g, '', (), None, meta={'a': A[0], 'b': A[1]}))
            return [(st, None)]
        if m.has(g):
            ex.contracts[m.sym(g)] = k
        outs = ex.call_function(m.sym(fn), [ex.root('lo', STRUCT('Grid3D')), ex.root('hi', STRUCT('Grid3D'))])
        want = sorted(('lo', 'hi', ex.lay.offset('Grid3D', c)[0]) for c in ('r_component', 'phi_component', 'z_component'))
        for o in rets(outs):
            got = []
            for e in o.st.log:
                if e.kind != 'op':
                    got.append(('write', e.fam, e.leaf))
                    continue
                A, B = e.meta['a'], e.meta['b']
                if B.fam.local:
                    # by-value copy: identify it through the copied cell pointer
                    gp = ex.load_local(o.st, B, Ty('ptr'))
                    for c in ('r', 'phi', 'z'):
                        if gp.fam.name == f'hi.{c}_component.grid->':
                            B = Ptr(ex.fams['hi'], (), ex.lay.offset('Grid3D', c + '_component')[0])
                if B.fam.local or not isinstance(A.off, int):
                    raise Unsupported('component identity')
                if A.off != B.off:
                    got.append(('mixed', A.fam.name, A.off, B.fam.name, B.off))
                else:
                    got.append((A.fam.name, B.fam.name, A.off))
            ctx.p.fact_true('every component is exchanged once with the same component of the neighbour', fn, sorted(got) == want, f'{got} / {want}')
        ctx.p.fact_true('returns', fn, bool(rets(outs)))
    return go


def sections(tier):
    out = []
    for k in ('x', 'y', 'xy', 'yx'):
        out += [(f'Grid.overlay_{k}', sec(k)), (f'Grid.overlay_{k} mismatch', sec_mismatch(k)), (f'Grid3D.overlay_{k}', sec3(k))]
    return out


def natives(tier):
    return [Native('halo', 'c02.cpp', [], config(), n=(2000, 200000))]
