"""shared: Grid<double> module and contracts"""
from extract import config
from lib import *
TPL = '/verif/harness/templates.cpp'
import os
from extract import VERIF
TPL = os.path.join(VERIF, 'harness', 'templates.cpp')
CELL = lambda g: g + '.grid->->'


def load(ctx, keep=()):
    return ctx.load(config(), [TPL], list(keep), ['algo/grid.hpp', 'algo/grid3d.hpp', 'geometry.hpp', 'timeSim.hpp', 'specieP.hpp'],
                    ['Grid', 'Grid3D'])


def sizes(ex, g, nx, ny, s):
    """representation invariant of Grid: real = size + 2*halo"""
    for f, v in (('.o_s', s), ('.x_size', nx), ('.y_size', ny), ('.x_real_size', iadd(nx, imul(2, s))), ('.y_real_size', iadd(ny, imul(2, s)))):
        ex.pins[(g, f)] = v


def grid_sizes_in(ex, fam, path, nx, ny, s):
    for f, v in (('.o_s', s), ('.x_size', nx), ('.y_size', ny), ('.x_real_size', iadd(nx, imul(2, s))), ('.y_real_size', iadd(ny, imul(2, s)))):
        ex.pins[(fam, path + f)] = v
