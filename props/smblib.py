"""shared: SMB module (domain decomposition, exchange schedule)"""
from extract import config
from lib import *
from shapes import G, T

SRC = ['src/SMB.cpp']
NSRC = SRC + ['src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
              'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
RD, ZD = z3.Ints('RD ZD')
SMBF = dict(domains=STRUCT('GridD'), r_domains=U32, z_domains=U32, geometry=G(), cfg=PTR(STRUCT('Cfg'), 'cfg'), time=T(), world_rank=I32, world_size=I32)
GRIDD = dict(grid=PTR(DYN(PTR(DYN(PTR(STRUCT('Domain')))))), o_s=U32, x_real_size=U32, y_real_size=U32, x_size=U32, y_size=U32)
MSY = dict(field_e=STRUCT('Grid3D'), field_h=STRUCT('Grid3D'), field_h_at_et=STRUCT('Grid3D'))
DOM = dict(species_p=VEC(PTR(STRUCT('SpecieP'))), current=PTR(STRUCT('Current')), maxwell_solver=PTR(STRUCT('MSY')), geometry=STRUCT('Geometry'), time=T())
CFGF = dict()
HDR = ['SMB.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp']
SPN = ['Particle', 'Grid', 'Grid3D', 'Geometry', 'TimeSim', 'SpecieP']
DD = 'this.domains.grid->->->'


def load(ctx, keep, cfg=None, srcs=SRC, dom=None, extra=None):
    m = ctx.load(cfg or config(), srcs, keep, HDR, SPN,
                 {'SMB': ('SMB', SMBF), 'GridD': ('Grid<Domain*>', GRIDD), 'Domain': ('Domain', dict(DOM, **(dom or {}))),
                  'MSY': ('MaxwellSolverYee', MSY), 'Current': ('Current', dict(current=STRUCT('Grid3D'))), 'Cfg': ('Cfg', CFGF), **(extra or {})})
    ex = m.exec()
    for f, v in (('.o_s', 0), ('.x_size', RD), ('.y_size', ZD), ('.x_real_size', RD), ('.y_real_size', ZD)):
        ex.pins[('this', '.domains' + f)] = v
    ex.pins[('this', '.r_domains')] = RD
    ex.pins[('this', '.z_domains')] = ZD
    ex.pins[('geometry', '.domains_amount[]')] = None
    del ex.pins[('geometry', '.domains_amount[]')]
    ex.fact(RD >= 1)
    ex.fact(ZD >= 1)
    return m, ex


def nodes_of(ex, fam, comp=''):
    return fam


def parallel(m, l):
    """number of concurrent loop levels opened at loop l (0: serial)"""
    at = m.mod.loc(l.line)
    if not at or not at[0].endswith('.cpp'):
        return 0
    import os
    import re
    from extract import REPO
    p = at[0] if os.path.isabs(at[0]) else os.path.join(REPO, at[0])
    try:
        src = open(p).read().split('\n')
    except OSError:
        return 0
    n = at[1] - 2
    while n >= 0 and not src[n].strip():
        n -= 1
    t = src[n].strip()
    if not t.startswith('#pragma omp parallel for'):
        return 0
    c = re.search(r'collapse\s*\(\s*(\d+)', t)
    return int(c.group(1)) if c else 1


class Op:
    """one recorded exchange: kind, field, lower-left domain as a function of the loop variables"""

    def __init__(self, kind, field, at, touched, ent):
        self.kind, self.field, self.at, self.touched, self.ent = kind, field, at, touched, ent


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def has_var(t, k):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        todo += x.children()
    return False


def occurs(o, *IJ):
    """condition that op o happens at indices IJ (domain, ...), loops eliminated (affine index)"""
    g = [] if o.ent.guard is True else [o.ent.guard]
    g += [l.dom for l in o.ent.loops]
    sub = []
    eqs = []
    used = set()
    for e, X in zip(o.at, IJ):
        e = zi(e)
        ks = [l.k for l in o.ent.loops if has_var(e, l.k)]
        if not ks:
            eqs.append(e == X)
            continue
        if len(ks) != 1 or ks[0].get_id() in used:
            raise Unsupported('domain index')
        k = ks[0]
        used.add(k.get_id())
        c0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
        s = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))) - c0)
        if not z3.is_int_value(s) or s.as_long() == 0 or not z3.is_true(z3.simplify(e == c0 + s * k)):
            raise Unsupported('domain index is not affine')
        sub.append((k, (X - c0) / s))
        eqs.append(c0 + s * ((X - c0) / s) == X)
    if len(used) != len(o.ent.loops):
        raise Unsupported('loop without effect on the domain index')
    return z3.And(*[z3.substitute(t, *sub) if sub else t for t in g if t is not True], *eqs)
