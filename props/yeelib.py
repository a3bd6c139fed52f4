"""shared: MaxwellSolverYee module, representation invariant, specification terms"""
from extract import config
from lib import *
from shapes import G, T
from itertools import product

SRC = ['src/maxwellSolver/maxwellSolverYee.cpp']
NR, NZ, C0, C1 = z3.Ints('NR NZ c0 c1')
S = 2
dr, dz, dt = z3.Reals('dr dz dt')
COMP = ('r', 'phi', 'z')
INV = [NR >= 3, NZ >= 3, C0 >= 0, C1 >= 0, dr > 0, dz > 0, dt > 0]
RNG = {'NR': lambda g: g.randint(3, 7), 'NZ': lambda g: g.randint(3, 7), 'c0': lambda g: g.choice([0, 0, 4, 9]), 'c1': lambda g: g.choice([0, 3]),
       'dr': lambda g: g.uniform(.3, 2), 'dz': lambda g: g.uniform(.3, 2), 'dt': lambda g: g.uniform(.1, 1), 'i': lambda g: g.randint(0, 6),
       'k': lambda g: g.randint(0, 6), 'a': lambda g: g.randint(0, 11), 'b': lambda g: g.randint(0, 11),
       'this.epsilon*': lambda g: g.uniform(.5, 2), 'this.sigma*': lambda g: g.uniform(0, 1)}


def grid_pins(ex, fam, path):
    for f, v in (('.o_s', S), ('.x_size', NR), ('.y_size', NZ), ('.x_real_size', iadd(NR, 2 * S)), ('.y_real_size', iadd(NZ, 2 * S))):
        ex.pins[(fam, path + f)] = v


def load(ctx, keep, pml=True, srcs=SRC):
    cfg = config()
    if not pml:
        cfg.pop('ENABLE_PML', None)
    ms = dict(__vptr=VPTR('@_ZTV16MaxwellSolverYee'), field_e=STRUCT('Grid3D'), field_h=STRUCT('Grid3D'), geometry=G(), time=T(),
              epsilon=STRUCT('Grid'), sigma=STRUCT('Grid'), current=PTR(STRUCT('Current'), 'current'), field_h_at_et=STRUCT('Grid3D'),
              r_begin=U32, z_begin=U32, r_end=U32, z_end=U32)
    m = ctx.load(cfg, srcs, keep, ['maxwellSolver/maxwellSolverYee.hpp', 'current.hpp'], ['Grid', 'Grid3D', 'Geometry', 'TimeSim'],
                 {'MSY': ('MaxwellSolverYee', ms), 'Current': ('Current', dict(current=STRUCT('Grid3D')))})
    return m


def setup(ctx, keep, pml=True, walls=(0, 0, 0, 0), srcs=SRC):
    m = load(ctx, keep, pml, srcs)
    ex = m.exec()
    for f in ('field_e', 'field_h', 'field_h_at_et'):
        for c in COMP:
            grid_pins(ex, 'this', f'.{f}.{c}_component')
    for c in COMP:
        grid_pins(ex, 'current', f'.current.{c}_component')
    for f in ('epsilon', 'sigma'):
        grid_pins(ex, 'this', '.' + f)
    geom_pins(ex, walls)
    ex.pins[('time', '.step')] = dt
    for f in INV:
        ex.fact(f)
    return m, ex


def vec_pin(ex, fam, leaf, vals):
    """std::vector field with known elements"""
    ex.pins[(fam, leaf)] = len(vals)

    def at(idx):
        k = idx[-1]
        k = k if isinstance(k, int) else (z3.simplify(k).as_long() if z3.is_int_value(z3.simplify(k)) else None)
        if k is None or not 0 <= k < len(vals) or vals[k] is None:
            raise Unsupported(f'{fam}{leaf}[{idx}]')
        return vals[k]
    ex.pins[(fam + leaf + '[]', '')] = at


def geom_pins(ex, walls=(0, 0, 0, 0), g='geometry'):
    vec_pin(ex, g, '.cell_size', [dr, dz])
    vec_pin(ex, g, '.cell_amount', [NR, NZ])
    vec_pin(ex, g, '.cell_dims', [C0, C1, iadd(C0, NR), iadd(C1, NZ)])
    ex.pins[(g + '.walls.bits', '')] = sum(1 << n for n, w in enumerate(walls) if w)


def cell(f, comp, base='this'):
    g = z3.Function(f'{base}.{f}.{comp}_component.grid->->', z3.IntSort(), z3.IntSort(), z3.RealSort())
    return lambda i, k: g(i + S, k + S)


def scal(f):
    g = z3.Function(f'this.{f}.grid->->', z3.IntSort(), z3.IntSort(), z3.RealSort())
    return lambda i, k: g(i + S, k + S)


def famof(f, comp, base='this'):
    return f'{base}.{f}.{comp}_component.grid->->'
