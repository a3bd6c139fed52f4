"""Grid / Grid3D: every element operation acts on exactly the addressed cell, every bulk operation on exactly its cell set."""
from gridlib import *
from runner import Native

LEVEL = 'proof'
RNG = {'s': lambda g: g.randint(0, 3), 'nx': lambda g: g.randint(1, 6), 'ny': lambda g: g.randint(1, 6), 'a': lambda g: g.randint(0, 11),
       'b': lambda g: g.randint(0, 11), 'x': lambda g: g.randint(0, 5), 'y': lambda g: g.randint(0, 5), 'v': lambda g: g.uniform(-3, 3)}
s, nx, ny, a, b, x, y = z3.Ints('s nx ny a b x y')
v = z3.Real('v')
F2 = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.RealSort())
XY = [x >= 0, x < nx, y >= 0, y < ny]
INV = [s >= 0, nx >= 1, ny >= 1]
CELLS = [a >= 0, a < nx + 2 * s, b >= 0, b < ny + 2 * s]


def setup(ctx, fn, other=False):
    m = load(ctx, [fn])
    ex = m.exec()
    sizes(ex, 'g', nx, ny, s)
    if other:
        sizes(ex, 'h', nx, ny, s)
    for f in INV:
        ex.fact(f)
    return m, ex


def check_cells(ctx, ex, fn, outs, pre, want):
    p = ctx.p
    p.fact_true('terminates without a fatal error', fn, all(o.kind == 'ret' for o in outs) and outs, str([o.kind for o in outs]))
    for o in rets(outs):
        p.fact_true('frame: nothing but grid cells is written', fn, written(o.st) <= {(CELL('g'), '')}, str(written(o.st)))
        p.eq('every cell of the grid, halo included, has the specified value', fn, ex.value_at(o.st, CELL('g'), '', (a, b)), want,
             INV + CELLS + pre + pc_of(ex, o), ex.facts, ranges=RNG)


def elem(name, f):
    fn = f'Grid<double>::{name}'

    def go(ctx):
        m, ex = setup(ctx, fn)
        pre = [x >= 0, x < nx, y >= 0, y < ny] + ([v != 0] if name == 'd_a' else [])
        for q in pre:
            ex.fact(q)
        outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid')), x, y, v])
        g = F2(CELL('g'))
        check_cells(ctx, ex, fn, outs, pre, z3.If(z3.And(a == x + s, b == y + s), R(f(g(a, b), v)), g(a, b)))
    return (f'Grid.{name}', go)


def bulk(name, f):
    fn = f'Grid<double>::{name}'

    def go(ctx):
        m, ex = setup(ctx, fn)
        pre = [v != 0] if name == 'operator/=' else []
        for q in pre:
            ex.fact(q)
        sy = m.sym(fn, pick='(double)')
        outs = ex.call_function(sy, [ex.root('g', STRUCT('Grid')), v])
        g = F2(CELL('g'))
        check_cells(ctx, ex, fn, outs, pre, z3.If(z3.And(a >= s, a < s + nx, b >= s, b < s + ny), R(f(g(a, b), v)), g(a, b)))
        for o in rets(outs):
            ctx.p.fact_true('returns the grid itself', fn, isinstance(o.val, Ptr) and o.val.fam.name == 'g' and o.val.off == 0, str(o.val))
    return (f'Grid.{name}', go)


def halo(ctx):
    fn = 'Grid<double>::overlay_set'
    m, ex = setup(ctx, fn)
    outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid')), v])
    g = F2(CELL('g'))
    check_cells(ctx, ex, fn, outs, [], z3.If(z3.And(a >= s, a < s + nx, b >= s, b < s + ny), g(a, b), v))


def copy(ctx):
    fn = 'Grid<double>::copy'
    m, ex = setup(ctx, fn, True)
    outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid')), ex.root('h', STRUCT('Grid'))])
    check_cells(ctx, ex, fn, outs, [], F2(CELL('h'))(a, b))


def copy_bad(ctx):
    fn = 'Grid<double>::copy'
    m = load(ctx, [fn])
    ex = m.exec()
    mx, my = z3.Ints('mx my')
    sizes(ex, 'g', nx, ny, s)
    sizes(ex, 'h', mx, my, s)
    for f in INV + [mx >= 1, my >= 1]:
        ex.fact(f)
    outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid')), ex.root('h', STRUCT('Grid'))], pc=[z3.Or(mx != nx, my != ny)])
    ctx.p.fact_true('grids of different size are refused', fn, not rets(outs), str([o.kind for o in outs]))


def ref(ctx):
    fn = 'Grid<double>::operator()'
    m, ex = setup(ctx, fn)
    outs = ex.call_function(m.sym(fn, pick='(unsigned int, unsigned int)'), [ex.root('g', STRUCT('Grid')), x, y])
    g = F2(CELL('g'))
    for o in rets(outs):
        ctx.p.fact_true('frame: reading writes nothing', fn, not written(o.st), str(written(o.st)))
        r = o.val
        if not (isinstance(r, Ptr) and r.fam.name == CELL('g')):
            raise Unsupported(f'operator() result {r}')
        val = ex.load(o.st, r, Ty('double'))
        ctx.p.eq('denotes interior cell (x, y)', fn, ex.expand(o.st, val), g(x + s, y + s), INV + XY, ex.facts, ranges=RNG)
    ctx.p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs))


def comp(ctx):
    fn = 'Grid3D<double>::operator[]'
    m = load(ctx, [fn])
    for i, c in enumerate(('r', 'phi', 'z')):
        ex = m.exec()
        outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid3D')), i])
        off = ex.lay.offset('Grid3D', c + '_component')[0]
        ctx.p.fact_true(f'component {i} is {c}', fn, bool(outs) and all(o.kind == 'ret' and o.val.fam.name == 'g' and o.val.off == off for o in outs),
                        str([(o.kind, o.val) for o in outs]))
    ex = m.exec()
    i = z3.Int('i')
    outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid3D')), i], pc=[i > 2])
    ctx.p.fact_true('a component number above 2 is refused', fn, not rets(outs), str([o.kind for o in outs]))


def comp_val(ctx):
    fn = 'Grid3D<double>::operator()'
    m = load(ctx, [fn])
    for i, c in enumerate(('r', 'phi', 'z')):
        ex = m.exec()
        for cc in ('r', 'phi', 'z'):
            grid_sizes_in(ex, 'g', f'.{cc}_component', nx, ny, s)
        for f in INV:
            ex.fact(f)
        outs = ex.call_function(m.sym(fn), [ex.root('g', STRUCT('Grid3D')), i, x, y])
        for o in rets(outs):
            ctx.p.eq(f'reads cell (x, y) of component {c}', fn, ex.expand(o.st, o.val), F2(f'g.{c}_component.grid->->')(x + s, y + s), INV + XY, ex.facts, ranges=RNG)
        ctx.p.fact_true(f'component {i} is readable', fn, bool(rets(outs)) and len(rets(outs)) == len(outs))


def all3(name, arg):
    """Grid3D bulk operations apply the Grid operation to each component once"""
    fn = f'Grid3D<double>::{name}'
    gn = f'Grid<double>::{name}'

    def go(ctx):
        m = load(ctx, [fn, gn])
        ex = m.exec()
        val = z3.Real('v')

        def k(ex, st, A):
            st.log.append(Ent('op', gn, '', (), None, meta={'a': A[0], 'v': A[1]}))
            return [(st, A[0])]
        if m.has(gn):
            ex.contracts[m.sym(gn, pick='(double)')] = k
        outs = ex.call_function(m.sym(fn, pick='(double)'), [ex.root('g', STRUCT('Grid3D')), val])
        for o in rets(outs):
            ops = [e for e in o.st.log if e.kind == 'op']
            if len(ops) != 3 or any(not isinstance(e.meta['a'], Ptr) for e in ops):
                if not ops or len(ops) != len(o.st.log):
                    raise Unsupported('component calls')
            got = sorted(e.meta['a'].off for e in ops)
            ctx.p.fact_true('each component is set exactly once, with the given value', fn,
                            got == sorted(ex.lay.offset('Grid3D', c + '_component')[0] for c in ('r', 'phi', 'z')) and
                            all(e.meta['v'] is val or (hasattr(e.meta['v'], 'eq') and e.meta['v'].eq(val)) for e in ops), str(got), refuted=False)
    return (f'Grid3D.{name}', go)


def sections(tier):
    return [elem('set', lambda o, w: w), elem('inc', radd), elem('dec', rsub), elem('m_a', rmul), elem('d_a', lambda o, w: o / w),
            bulk('operator=', lambda o, w: w), bulk('operator+=', radd), bulk('operator-=', rsub), bulk('operator*=', rmul),
            bulk('operator/=', lambda o, w: o / w), ('Grid.overlay_set', halo), ('Grid.copy', copy), ('Grid.copy mismatch', copy_bad),
            ('Grid.operator()', ref), ('Grid3D.operator[]', comp), ('Grid3D.operator()', comp_val), all3('operator=', None), all3('overlay_set', None)]


def natives(tier):
    return [Native('grid', 'c01.cpp', [], config(), n=(3000, 300000))]
