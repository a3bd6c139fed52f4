"""Decomposition: the domains tile the block, each gets its own slice of the geometry, species and walls."""
from extract import config, swap, VERIF, REPO
from lib import *
from shapes import G, T
from yeelib import vec_pin
from smblib import NSRC, Op, occurs, zi, has_var
from runner import Native
import ir

LEVEL = 'proof'
RD, ZD, I, J, S = z3.Ints('RD ZD I J S')
NR, NZ, C0, C1, GR, GZ = z3.Ints('NR NZ c0 c1 gr gz')
P1, P2, P3 = z3.Ints('pml1 pml2 pml3')
W = [z3.Bool(f'wall{n}') for n in range(4)]
HR, HZ, LR, LZ, GLR, GLZ = z3.Reals('dr dz len_r len_z glen_r glen_z')
SRC = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp']
VD = 'std::vector<double, std::allocator<double>>'
VU = 'std::vector<unsigned long, std::allocator<unsigned long>>'
VB = 'std::vector<bool, std::allocator<bool>>'
VS = 'std::vector<SpecieP*, std::allocator<SpecieP*>>'
STRC = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
SPF = dict(id=U32, name=STR, mass=U32, charge=I32, macro_amount=F64, left_density=F64, right_density=F64, temperature=F64)
BMF = dict(SPF, velocity=F64, density=F64, bunches_amount=I32, start_time=F64, bunches_distance=F64, bunch_length=F64, bunch_radius=F64)
def toreal(x):
    return Fraction(x) if isinstance(x, int) else z3.ToReal(x)


GF = ['size', 'global_size', 'cell_size', 'cell_dims', 'cell_amount', 'global_cell_amount', 'domains_amount', 'walls', 'pml_size', 'pml_sigma']


def darr(ex, st, vals, w):
    """a fresh block holding vals (elements of w bytes)"""
    d = ex.new_local(st, 'vec', max(1, w * len(vals)))
    for n, v in enumerate(vals):
        ex.store_local(st, d.add(n * w), v, w)
    return d


def il_vec(w, key):
    """std::vector(initializer_list): the elements are those of the list"""
    def h(ex, st, A):
        if not isinstance(A[2], int):
            raise Unsupported('initializer list length')
        ty = ir.Ty('double') if key == 'd' else ir.Ty('int', 8 * w)
        d = darr(ex, st, [ex.load(st, A[1].add(n * w), ty) for n in range(A[2])], w)
        put_vec(ex, st, A[0], d, A[2] * w)
        return [(st, None)]
    return h


def ilassign(w, key):
    """vector::operator=(initializer_list)"""
    h = il_vec(w, key)

    def f(ex, st, A):
        h(ex, st, A)
        return [(st, A[0])]
    return f


def put_vec(ex, st, v, d, n):
    ex.store(st, v, d, ir.Ty('ptr'))
    ex.store(st, v.add(8), d.add(n), ir.Ty('ptr'))
    ex.store(st, v.add(16), d.add(n), ir.Ty('ptr'))


def get_vec(ex, st, v, w, key):
    b = ex.load(st, v, ir.Ty('ptr'))
    e = ex.load(st, v.add(8), ir.Ty('ptr'))
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.fam is not e.fam:
        raise Unsupported('vector contents')
    n = isub(e.off, b.off)
    if not isinstance(n, int):
        raise Unsupported('vector length')
    ty = ir.Ty('double') if key == 'd' else ir.Ty('int', 8 * w)
    return [ex.load(st, b.add(k * w), ty) for k in range(n // w)]


def copy_vec(ex, st, A):
    """vector(const vector &): same elements (the source stays alive and unchanged while the copy is an argument)"""
    for o in (0, 8, 16):
        ex.store(st, A[0].add(o), ex.load(st, A[1].add(o), ir.Ty('ptr')), ir.Ty('ptr'))
    return [(st, None)]


def vec_contracts(ex, m):
    for ty, w, key in ((VD, 8, 'd'), (VU, 8, 'i'), (VB, 1, 'b')):
        for sy in m.inv.get(ty + '::vector', []):
            a = m.dem[sy]
            if 'initializer_list' in a:
                ex.contracts[sy] = il_vec(w, key)
            elif f'({ty} const&)' in a:
                ex.contracts[sy] = copy_vec
        for sy in m.inv.get(ty + '::~vector', []):
            ex.contracts[sy] = lambda ex, st, A: [(st, None)]
    for nm in ('basic_string', '~basic_string'):
        for sy in m.inv.get(STRC + '::' + nm, []):
            if nm[0] == '~' or 'const&)' in m.dem[sy]:
                ex.contracts[sy] = lambda ex, st, A: [(st, None)]


def op(name, **kw):
    return Ent('op', name, '', (), None, meta=kw)


def geom_ctor(m):
    """contract of Geometry::Geometry(...) (proved in section geometry): sizes, extents and walls as given, cell size = size / cells"""
    def h(ex, st, A):
        sz, gs, cd, ps, sg, wl = A[1:7]
        sz, gs, cd = get_vec(ex, st, sz, 8, 'd'), get_vec(ex, st, gs, 8, 'd'), get_vec(ex, st, cd, 8, 'i')
        ps, wl = get_vec(ex, st, ps, 8, 'i'), get_vec(ex, st, wl, 1, 'b')
        sb = ex.load(st, sg, ir.Ty('ptr'))
        if len(sz) != 2 or len(gs) != 2 or len(cd) != 4 or len(ps) != 4 or len(wl) != 4:
            raise Unsupported('geometry arguments')
        ca = [isub(cd[2], cd[0]), isub(cd[3], cd[1])]
        cs = [rdiv(a, toreal(b)) for a, b in zip(sz, ca)]
        for f, v in (('size', sz), ('global_size', gs), ('cell_size', cs), ('cell_dims', cd), ('cell_amount', ca), ('pml_size', ps)):
            put_vec(ex, st, A[0].add(m.lay.offset('Geometry', f)[0]), darr(ex, st, v, 8), 8 * len(v))
        st.log.append(op('Geometry', obj=A[0], size=sz, global_size=gs, cell_dims=cd, pml_size=ps, walls=wl, sigma=sb))
        return [(st, None)]
    return h


def hand_over(ex, st, A):
    """copy of an argument object: remembers which object it copies"""
    ex.store(st, A[0], A[1], ir.Ty('ptr'))
    return [(st, None)]


def rec(name, **kw):
    def h(ex, st, A):
        st.log.append(op(name, **{k: (v(ex, st, A) if callable(v) else A[v]) for k, v in kw.items()}))
        return [(st, None)]
    return h


def grid_ctor(ex, st, A):
    st.log.append(op('Grid', grid=A[0], x=A[1], y=A[2], halo=A[3]))
    ex.store(st, A[0], ex.new_local(st, 'rows', 8), ir.PTR)
    return [(st, None)]


def deref(n):
    return lambda ex, st, A: ex.load(st, A[n], ir.Ty('ptr'))


def strs(*ns):
    import strlib
    return lambda ex, st, A: [strlib.tok(ex, st, A[n]) for n in ns]


def smb(pml=True, ext=False):
    def go(ctx):
        fn = 'SMB::SMB'
        keep = ['SMB::SMB', 'Geometry::Geometry', 'Geometry::~Geometry', 'SpecieP::SpecieP', 'BeamP::BeamP', 'Domain::Domain', 'Grid<Domain*>::Grid', 'Grid<Domain*>::set',
                STRC + '::basic_string', STRC + '::~basic_string'] + [t + '::' + q for t in (VD, VU, VB, VS) for q in ('vector', '~vector', 'push_back', 'clear')]
        cfg = config(**({} if pml else dict(ENABLE_PML=None)), **(dict(ENABLE_EXTERNAL_FIELDS='true') if ext else {}))
        m = ctx.load(cfg, SRC, keep, ['SMB.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Geometry', 'TimeSim'],
                     {'SMB': ('SMB', dict(domains=ARR(U64, 5), r_domains=U32, z_domains=U32, geometry=G(), cfg=PTR(STRUCT('Cfg'), 'cfg'), time=T(), world_rank=I32, world_size=I32)),
                      'Cfg': ('Cfg', dict(particle_species=VEC(STRUCT('Specie')), particle_beams=VEC(STRUCT('Beam')), external_fields=VEC(STRUCT('ExtF')))),
                      'ExtF': ('external_field', dict(name=STR, formfactor=STR, params=VEC(F64))), 'Specie': ('particle_specie', SPF), 'Beam': ('particle_beam', BMF)})
        ex = m.exec()
        vec_pin(ex, 'geometry', '.size', [LR, LZ])
        vec_pin(ex, 'geometry', '.global_size', [GLR, GLZ])
        vec_pin(ex, 'geometry', '.cell_size', [HR, HZ])
        vec_pin(ex, 'geometry', '.cell_dims', [C0, C1, C0 + NR, C1 + NZ])
        vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
        vec_pin(ex, 'geometry', '.global_cell_amount', [GR, GZ])
        vec_pin(ex, 'geometry', '.domains_amount', [RD, ZD])
        vec_pin(ex, 'geometry', '.pml_size', [0, P1, P2, P3])
        ex.pins[('geometry.walls.bits', '')] = z3.Sum([z3.If(w, 1 << n, 0) for n, w in enumerate(W)])
        for f in (RD >= 1, ZD >= 1, NR >= RD, NZ >= ZD, C0 >= 0, C1 >= 0, GR >= C0 + NR, GZ >= C1 + NZ, P1 >= 0, P2 >= 0, P3 >= 0, HR > 0, HZ > 0, LZ > 0, LR > 0):
            ex.fact(f)
        vec_contracts(ex, m)
        for sy in m.inv['Geometry::Geometry']:
            if 'Geometry const&' in m.dem[sy]:
                ex.contracts[sy] = hand_over
            elif m.dem[sy].count('vector<') == 6:
                ex.contracts[sy] = geom_ctor(m)
        for sy in m.inv.get('Geometry::~Geometry', []) + m.inv.get(VS + '::~vector', []):
            ex.contracts[sy] = lambda ex, st, A: [(st, None)]
        for sy in m.inv['SpecieP::SpecieP']:
            ex.contracts[sy] = rec('SpecieP', obj=0, id=1, charge=3, mass=4, macro=5, left=6, right=7, temp=8, geom=9, time=10)
        for sy in m.inv['BeamP::BeamP']:
            ex.contracts[sy] = rec('BeamP', obj=0, id=1, charge=3, mass=4, macro=5, start=6, radius=7, density=8, bunches=9, length=10, distance=11, velocity=12, geom=13, time=14)
        for sy in m.inv['Domain::Domain']:
            ex.contracts[sy] = rec('Domain', obj=0, geom=deref(1), species=deref(2), time=3, **(dict(names=strs(4, 5), par0=deref(6), par1=deref(7)) if ext else {}))
        for sy in m.inv['Grid<Domain*>::set']:
            ex.contracts[sy] = rec('set', grid=0, x=1, y=2, val=3)
        for sy in m.inv['Grid<Domain*>::Grid']:
            ex.contracts[sy] = grid_ctor if 'unsigned' in m.dem[sy] else (lambda ex, st, A: [(st, None)])
        for sy in m.inv.get(VS + '::vector', []):
            ex.contracts[sy] = hand_over if 'const&' in m.dem[sy] else rec('newvec', vec=0)
        for sy in m.inv.get(VS + '::push_back', []):
            ex.contracts[sy] = rec('push', vec=0, val=deref(1))
        for sy in m.inv.get(VS + '::clear', []):
            ex.contracts[sy] = rec('newvec', vec=0)
        for sy in m.inv.get(VU + '::push_back', []):
            ex.contracts[sy] = rec('pushul', vec=0, val=lambda ex, st, A: ex.load(st, A[1], ir.Ty('int', 64)))
        if ext:
            import strlib
            strlib.strings(ctx, m, ex)
        st = State()
        this = ex.new_local(st, 'smb', m.lay.size(STRUCT('SMB')))
        outs = ex.call_function(m.sym(fn), [this, ex.root('cfg', STRUCT('Cfg')), ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim')), 0, 1], st)
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            check_block(ctx, m, ex, o, this, pml, fn, ext)
    return go


def check_block(ctx, m, ex, o, this, pml, fn, ext=False):
    p = ctx.p
    pc = pc_of(ex, o)
    p.fact_true('frame: nothing but the block and the objects it creates is written', fn, not written(o.st), str(written(o.st)))
    for f, v in (('r_domains', RD), ('z_domains', ZD)):
        p.eq(f'{f} is the configured amount', fn, toreal(ld(ex, o.st, this, m, 'SMB', f, ir.Ty('int', 32))), toreal(v), pc, ex.facts)
    for f in ('geometry', 'cfg', 'time'):
        q = ld(ex, o.st, this, m, 'SMB', f, ir.PTR)
        p.fact_true(f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam.name == f, str(q), refuted=False)
    ops = [(n, e) for n, e in enumerate(o.st.log) if e.kind == 'op']
    E = lambda x: x if is_c(x) or isinstance(x, (bool, int, Ptr)) else ex.expand(o.st, x)

    def named(nm, seg=None, **kw):
        return [(n, e) for n, e in ops if e.fam == nm and (seg is None or seg[0] < n <= seg[1]) and all(same(e.meta.get(k), v) for k, v in kw.items())]

    def one(nm, seg, **kw):
        r = named(nm, seg, **kw)
        if len(r) != 1:
            raise Unsupported(f'{len(r)} calls {nm} for one domain')
        return r[0]
    gr = named('Grid')
    p.fact_true('the grid of domains is created', fn, len(gr) == 1 and not gr[0][1].loops and gr[0][1].guard is True, '', refuted=False)
    p.eq('grid rows', fn, toreal(E(gr[0][1].meta['x'])), toreal(RD), pc, ex.facts)
    p.eq('grid columns', fn, toreal(E(gr[0][1].meta['y'])), toreal(ZD), pc, ex.facts)
    p.eq('grid halo', fn, toreal(gr[0][1].meta['halo']), Fraction(0), pc, ex.facts)
    q = ld(ex, o.st, this, m, 'SMB', 'domains', ir.PTR)
    p.fact_true('it becomes the grid of the block', fn, isinstance(q, Ptr) and (q.fam.name, 'rows') in [(q.fam.name, q.fam.name.split('#')[0])], str(q), refuted=False)
    ch = []
    last = -1
    for n, e in named('set'):
        # the operations of one path through the loop body are consecutive and end with set()
        seg = (last, n)
        last = n
        A = e.meta
        if A['grid'].fam is not this.fam or A['grid'].off != m.lay.offset('SMB', 'domains')[0]:
            raise Unsupported('domain put elsewhere')
        nd, d = one('Domain', seg, obj=A['val'])
        ng, g = one('Geometry', seg, obj=d.meta['geom'])
        nv, v = one('newvec', seg, vec=d.meta['species'])
        if not nv < nd < n or not ng < nd:
            raise Unsupported('order of construction')
        for x in (d, g, v):
            if [l.k for l in x.loops] != [l.k for l in e.loops]:
                raise Unsupported('objects shared between domains')
        ch.append((n, e, nd, d, ng, g, nv, v, seg))
    at = lambda e: [zi(E(e.meta['x'])), zi(E(e.meta['y']))]
    inside = z3.And(I >= 0, I < RD, J >= 0, J < ZD)
    occ = [z3.simplify(occurs(Op('set', '', at(c[1]), [], c[1]), I, J)) for c in ch]
    p.holds('exactly one domain is created for every grid place', fn, z3.Sum([z3.If(x, 1, 0) for x in occ] + [z3.IntVal(0)]) == z3.If(inside, 1, 0), pc, ex.facts, ranges=RG)
    seen = {}

    def once_each(name, mk):
        """obligations are the same for chains that only differ in their guard: state each term once"""
        for c in ch:
            n, e, nd, d, ng, g, nv, v, seg = c
            hy = cond(e)
            lo, hi = [E(g.meta['cell_dims'][0]), E(g.meta['cell_dims'][1])], [E(g.meta['cell_dims'][2]), E(g.meta['cell_dims'][3])]
            for nm, a, b in mk(c, at(e), lo, hi, hy):
                key = (nm, str(a), str(b), '' if nm in NEEDG else 'g')
                hh = [x for x in hy if nm in NEEDG or x is not e.guard]
                if key in seen and nm not in NEEDG:
                    continue
                seen[key] = 1
                p.eq(nm, fn, a, b, pc + hh, ex.facts, ranges=RG)
    NEEDG = {'wall r=0', 'wall z=0', 'wall r=R', 'wall z=L'}
    b2r = lambda t: z3.If(t, z3.RealVal(1), z3.RealVal(0))

    def geo(c, xy, lo, hi, hy):
        g = c[5].meta
        x, y = xy
        for n, (h, t) in enumerate(((HR, 'radial'), (HZ, 'longitudinal'))):
            yield f'{t} size is the cell range times the cell size of the block', E(g['size'][n]), h * toreal(hi[n] - lo[n])
        wl = [truth(E(w)) for w in g['walls']]
        for n, (nm, at_) in enumerate((('wall r=0', x == 0), ('wall z=0', y == 0), ('wall r=R', x == RD - 1), ('wall z=L', y == ZD - 1))):
            yield nm, b2r(wl[n]), b2r(z3.And(at_, W[n]))
        if pml:
            # only the absorbing layers use it
            yield 'global size radial', E(g['global_size'][0]), GLR
            yield 'global size longitudinal', E(g['global_size'][1]), GLZ
            ps = [toreal(E(t)) for t in g['pml_size']]
            yield 'no layer at the axis', ps[0], Fraction(0)
            yield 'layer z=0 reaches exactly the domains it overlaps', ps[1], z3.If(lo[1] < P1, toreal(P1), z3.RealVal(0))
            yield 'layer r=R reaches exactly the domains it overlaps', ps[2], z3.If(hi[0] > GR - P2, toreal(P2), z3.RealVal(0))
            yield 'layer z=L reaches exactly the domains it overlaps', ps[3], z3.If(hi[1] > GZ - P3, toreal(P3), z3.RealVal(0))
        else:
            for t in g['pml_size']:
                yield 'no layer', toreal(E(t)), Fraction(0)
    once_each('geometry', geo)
    if pml:
        for c in ch:
            sg = c[5].meta['sigma']
            p.fact_true('layer conductivities are those of the block', fn, isinstance(sg, Ptr) and sg.fam.name.startswith('geometry.pml_sigma'), str(sg), refuted=False) if c is ch[0] or not (isinstance(sg, Ptr) and sg.fam.name.startswith('geometry.pml_sigma')) else None
    told = set()
    for c in ch if ext else []:
        # external fields of the domain are those of the configuration, the electric one first
        q = c[3].meta
        key = str([E(x) for x in q['names']] + [q['par0'], q['par1']])
        if key in told:
            continue
        told.add(key)
        for n, nm in enumerate(('electric', 'magnetic')):
            want = z3.Function('text:cfg.external_fields[].formfactor', z3.IntSort(), z3.IntSort())(n)
            p.holds(f'{nm} external field: profile as configured', fn, zi(q['names'][n]) == want, pc, ex.facts)
            b = q[f'par{n}']
            ok = isinstance(b, Ptr) and b.fam is not None and b.off == 0 and b.fam.name == 'cfg.external_fields[].params[]'
            p.fact_true(f'{nm} external field: parameters come from the configuration', fn, ok, str(b), refuted=False)
            if ok:
                p.holds(f'{nm} external field: parameters as configured', fn, zi(b.idx[0]) == n, pc, ex.facts)
    if ext:
        return      # everything else does not depend on the flag: sections smb
    # tiling
    M = lambda f, i, j: pick([(z3.substitute(x, (I, i), (J, j)), subst_at(f(c), c, at(c[1]), i, j)) for x, c in zip(occ, ch)])
    cd = lambda n: (lambda c: zi(E(c[5].meta['cell_dims'][n])))
    J2 = z3.Int('J2')
    hy = pc + [inside, J2 >= 0, J2 < ZD]
    tile(p, fn, ex, 'radial', lambda i, j: M(cd(0), i, j), lambda i, j: M(cd(2), i, j), hy, C0, NR, RD, I, lambda t: (t, J), lambda t: (t, J2))
    I2 = z3.Int('I2')
    hy = pc + [inside, I2 >= 0, I2 < RD]
    tile(p, fn, ex, 'longitudinal', lambda i, j: M(cd(1), i, j), lambda i, j: M(cd(3), i, j), hy, C1, NZ, ZD, J, lambda t: (I, t), lambda t: (I2, t))
    # species
    for kind, coll, flds in (('SpecieP', 'cfg.particle_species', ('id', 'charge', 'mass', 'temp')), ('BeamP', 'cfg.particle_beams', BEAM)):
        cnt = []
        for c in ch:
            n, e, nd, d, ng, g, nv, v, seg = c
            for npu, pu in named('push', seg, vec=d.meta['species']):
                if not nv < npu < nd:
                    raise Unsupported('species pushed after the domain is created')
                mk = [(k, x) for nm in ('SpecieP', 'BeamP') for k, x in named(nm, seg, obj=pu.meta['val'])]
                if len(mk) != 1 or [l.k for l in mk[0][1].loops] != [l.k for l in pu.loops]:
                    raise Unsupported('what is pushed')
                if mk[0][1].fam != kind:
                    continue
                cnt.append((c, pu, mk[0][1]))
        N = z3.Int(coll + '.size')
        need = z3.And(S >= 0, S < N)
        F = lambda f, s: z3.Function(f'{coll}[].{f}', z3.IntSort(), z3.IntSort() if f in ('id', 'mass', 'charge', 'bunches_amount') else z3.RealSort())(s)
        if kind == 'BeamP':
            need = z3.And(need, F('bunches_amount', S) > 0)
        tot = []
        for c, pu, sp in cnt:
            l = pu.loops[-1]
            xs = [x for x in occ_at(c, at(c[1]), pu, S)]
            tot.append((z3.And(*[z3.substitute(x, *xs) for x in cond(pu)], *[a == b for a, b in zip(at(c[1]), (I, J))][:0]), xs))
        p.holds(f'{kind}: one object per configured entry in every domain', fn,
                z3.Sum([z3.If(t, 1, 0) for t, _ in tot] + [z3.IntVal(0)]) == z3.If(need, 1, 0), pc + [inside], ex.facts, ranges=RG)
        done = set()
        for c, pu, sp in cnt:
            n, e, nd, d, ng, g, nv, v, seg = c
            A = sp.meta
            p.fact_true(f'{kind}: bound to the geometry of its own domain', fn, same(A['geom'], g.meta['obj']), refuted=False) if not same(A['geom'], g.meta['obj']) or not done else None
            k = pu.loops[-1].k
            hy = cond(pu)[1:] if len(pu.loops) else []
            lo, hi = E(g.meta['cell_dims'][1]), E(g.meta['cell_dims'][3])
            Z = lambda t: toreal(E(t)) if not (isinstance(t, z3.ExprRef) and z3.is_real(t)) and not isinstance(t, Fraction) else E(t)
            sp_ = []
            if kind == 'SpecieP':
                sl = (F('right_density', k) - F('left_density', k)) / LZ
                q = F('macro_amount', k) / (toreal(RD) * toreal(ZD))
                sp_ = [('id', Z(A['id']), toreal(F('id', k))), ('charge', Z(A['charge']), toreal(F('charge', k))), ('mass', Z(A['mass']), toreal(F('mass', k))),
                       ('temperature', Z(A['temp']), F('temperature', k)),
                       ('density at the left edge continues the profile of the block', Z(A['left']), F('left_density', k) + sl * HZ * toreal(lo)),
                       ('density at the right edge continues the profile of the block', Z(A['right']), F('left_density', k) + sl * HZ * toreal(hi))]
                p_m = ('equal share of macroparticles', E(A['macro']), q)
                if ('m', str(p_m[1])) not in done:
                    done.add(('m', str(p_m[1])))
                    mm = toreal(p_m[1])
                    p.holds(f'{kind}: share of macroparticles is the equal part, rounded down', fn, z3.And(mm <= q, q - 1 < mm), pc + hy + [F('macro_amount', k) >= 0], ex.facts, ranges=RG)
            else:
                sp_ = [(b, Z(A[a]), toreal(F(b, k)) if b in ('id', 'mass', 'charge', 'bunches_amount') else F(b, k)) for a, b in BEAM]
                mm = toreal(E(A['macro']))
                if ('m', str(mm)) not in done:
                    done.add(('m', str(mm)))
                    p.holds('BeamP: macroparticles as configured, rounded down', fn, z3.And(mm <= F('macro_amount', k), F('macro_amount', k) - 1 < mm), pc + hy + [F('macro_amount', k) >= 0], ex.facts, ranges=RG)
            for nm, a, b in sp_:
                if (nm, str(a), str(b)) in done:
                    continue
                done.add((nm, str(a), str(b)))
                p.eq(f'{kind}: {nm}', fn, a, b, pc + hy, ex.facts, ranges=RG)
            if not same(A['time'], d.meta['time']) or A['time'].fam.name != 'time':
                raise Unsupported('clock of a species')


BEAM = (('id', 'id'), ('charge', 'charge'), ('mass', 'mass'), ('start', 'start_time'), ('radius', 'bunch_radius'), ('density', 'density'), ('bunches', 'bunches_amount'),
        ('length', 'bunch_length'), ('distance', 'bunches_distance'), ('velocity', 'velocity'))
RG = {'I*': lambda g: g.randint(-1, 4), 'J*': lambda g: g.randint(-1, 4), 'RD': lambda g: g.randint(1, 4), 'ZD': lambda g: g.randint(1, 4), 'NR': lambda g: g.randint(4, 13),
      'NZ': lambda g: g.randint(4, 13), 'c0': lambda g: g.choice([0, 0, 5]), 'c1': lambda g: g.choice([0, 0, 5]), 'gr': lambda g: g.randint(4, 24), 'gz': lambda g: g.randint(4, 24),
      'pml*': lambda g: g.randint(0, 5), 'S': lambda g: g.randint(-1, 3), '*size': lambda g: g.randint(0, 3), 'k!*': lambda g: g.randint(0, 3), '*macro_amount': lambda g: g.uniform(0, 40),
      'd?': lambda g: g.uniform(.3, 2), 'len*': lambda g: g.uniform(1, 5)}


def cond(e):
    return ([] if e.guard is True else [e.guard]) + [l.dom for l in e.loops]


def same(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.fam is b.fam and a.off == b.off


def truth(w):
    if isinstance(w, int):
        return z3.BoolVal(bool(w))
    return w if z3.is_bool(w) else w != 0


def ld(ex, st, this, m, s, f, ty):
    return ex.load(st, this.add(m.lay.offset(s, f)[0]), ty)


def pick(alts):
    r = alts[-1][1]
    for g, v in reversed(alts[:-1]):
        r = z3.If(g, v, r)
    return r


def occ_at(c, xy, ent, s):
    """loop variables of ent in terms of the domain indices and the species index"""
    sub = []
    for e, X in zip(xy, (I, J)):
        sub.append((lv_of(e, ent), X - (z3.simplify(z3.substitute(e, (lv_of(e, ent), z3.IntVal(0)))))))
    sub.append((ent.loops[-1].k, s))
    return sub


def lv_of(e, ent):
    ks = [l.k for l in ent.loops if has_var(e, l.k)]
    if len(ks) != 1 or not z3.is_int_value(z3.simplify(e - ks[0])):
        raise Unsupported('domain index')
    return ks[0]


def subst_at(t, c, xy, i, j):
    sub = []
    for e, X in zip(xy, (i, j)):
        k = lv_of(e, c[1])
        sub.append((k, X - z3.simplify(e - k)))
    return z3.substitute(t, *sub)


def tile(p, fn, ex, nm, lo, hi, hy, c, n, r, X, a, b):
    """domains along one axis are consecutive non-empty ranges that cover [c, c+n), the same in every row"""
    H = lambda *x: hy + list(x)
    q = lambda f, t, g: f(*g(t))
    z0 = z3.IntVal(0)
    p.holds(f'{nm}: the first domain begins where the block begins', fn, q(lo, z0, a) == c, H(X == 0), ex.facts, ranges=RG)
    p.holds(f'{nm}: the last domain ends where the block ends', fn, q(hi, X, a) == c + n, H(X == r - 1), ex.facts, ranges=RG)
    p.holds(f'{nm}: the next domain begins where this one ends', fn, q(hi, X, a) == q(lo, X + 1, a), H(X + 1 < r), ex.facts, ranges=RG)
    p.holds(f'{nm}: ranges do not depend on the other axis (begin)', fn, q(lo, X, a) == q(lo, X, b), hy, ex.facts, ranges=RG)
    p.holds(f'{nm}: ranges do not depend on the other axis (end)', fn, q(hi, X, a) == q(hi, X, b), hy, ex.facts, ranges=RG)
    p.holds(f'{nm}: no domain is empty', fn, q(lo, X, a) < q(hi, X, a), hy, ex.facts, ranges=RG)


def empty_vec(ex, st, A):
    for o in (0, 8, 16):
        ex.store(st, A[0].add(o), NULL, ir.PTR)
    return [(st, None)]


def push(w, key):
    def h(ex, st, A):
        ty = ir.Ty('double') if key == 'd' else ir.Ty('int', 8 * w)
        b = ex.load(st, A[0], ir.PTR)
        old = [] if b is NULL or b.fam is None else get_vec(ex, st, A[0], w, key)
        new = old + [ex.load(st, A[1], ty)]
        put_vec(ex, st, A[0], darr(ex, st, new, w), w * len(new))
        return [(st, None)]
    return h


def assign(ex, st, A):
    copy_vec(ex, st, A)
    return [(st, A[0])]


def geometry(ctx):
    fn = 'Geometry::Geometry'
    m = ctx.load(config(), SRC, ['SMB::SMB', fn] + [t + '::' + q for t in (VD, VU, VB) for q in ('vector', '~vector', 'push_back', 'operator=')],
                 ['SMB.hpp', 'geometry.hpp'], ['Geometry'], {})
    ex = m.exec()
    vec_contracts(ex, m)
    for ty, w, key in ((VD, 8, 'd'), (VU, 8, 'i'), (VB, 1, 'b')):
        for sy in m.inv.get(ty + '::vector', []):
            if m.dem[sy].endswith('::vector()'):
                ex.contracts[sy] = empty_vec
        for sy in m.inv.get(ty + '::push_back', []):
            ex.contracts[sy] = push(w, key)
        for sy in m.inv.get(ty + '::operator=', []):
            ex.contracts[sy] = ilassign(w, key) if 'initializer_list' in m.dem[sy] else assign
    st = State()
    sz = z3.Reals('size_r size_z')
    gs = z3.Reals('gsize_r gsize_z')
    cd = z3.Ints('b l t r')
    ps = z3.Ints('p0 p1 p2 p3')
    sg = z3.Reals('s0 s1')
    wl = [z3.If(w, z3.IntVal(1), z3.IntVal(0)) for w in W]
    args = []
    for v, w in ((sz, 8), (gs, 8), (cd, 8), (ps, 8), (sg, 8), (wl, 1)):
        a = ex.new_local(st, 'arg', 40)
        put_vec(ex, st, a, darr(ex, st, v, w), w * len(v))
        args.append(a)
    for f in (cd[0] >= 0, cd[1] >= 0, cd[2] > cd[0], cd[3] > cd[1], sz[0] > 0, sz[1] > 0, gs[0] > 0, gs[1] > 0, *[x >= 0 for x in ps]):
        ex.fact(f)
    this = ex.new_local(st, 'geom', m.lay.size(STRUCT('Geometry')))
    fs = [sy for sy in m.inv[fn] if m.dem[sy].count('vector<') == 6 and 'C2' in sy]
    if len(fs) != 1:
        raise Unsupported('constructor')
    ctx.funcs.add(fn)
    outs = ex.call_function(fs[0], [this] + args, st)
    p = ctx.p
    p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    rg = {'size*': lambda g: g.uniform(.5, 3), 'gsize*': lambda g: g.uniform(3, 9), 'b': lambda g: g.randint(0, 4), 'l': lambda g: g.randint(0, 4), 't': lambda g: g.randint(5, 9), 'r': lambda g: g.randint(5, 9)}
    for o in rets(outs):
        pc = pc_of(ex, o)
        p.fact_true('frame', fn, not written(o.st), str(written(o.st)))
        V = lambda f, w, k: get_vec(ex, o.st, this.add(m.lay.offset('Geometry', f)[0]), w, k)
        for f, w, k, spec in (('size', 8, 'd', sz), ('global_size', 8, 'd', gs), ('cell_dims', 8, 'i', cd), ('cell_amount', 8, 'i', [cd[2] - cd[0], cd[3] - cd[1]]),
                              ('cell_size', 8, 'd', [sz[0] / toreal(cd[2] - cd[0]), sz[1] / toreal(cd[3] - cd[1])]), ('pml_size', 8, 'i', ps), ('pml_sigma', 8, 'd', sg), ('walls', 1, 'b', wl)):
            v = V(f, w, k)
            p.fact_true(f'{f}: number of elements', fn, len(v) == len(spec), str(len(v)))
            for n, (a, b) in enumerate(zip(v, spec)):
                p.eq(f'{f}[{n}]', fn, a if k == 'd' else toreal(a), b if k == 'd' else toreal(b), pc, ex.facts, ranges=rg)
        v = V('global_cell_amount', 8, 'i')
        p.fact_true('global_cell_amount: number of elements', fn, len(v) == 2, str(len(v)))
        for n, a in enumerate(v):
            # generalised over the quotient: every division of the global size found in the result must be the one by the cell size
            ca = zi(a)
            q = z3.Real('quotient')
            for d in divisions(ca):
                if d.arg(0).eq(gs[n]):
                    p.eq(f'global_cell_amount[{n}] counts cells of the cell size', fn, d, gs[n] / (sz[n] / toreal([cd[2] - cd[0], cd[3] - cd[1]][n])), pc, ex.facts, ranges=rg)
                    ca = z3.substitute(ca, (d, q))
            ca = z3.simplify(z3.substitute(ca, (q >= 0, z3.BoolVal(True))))    # q > 0 is a hypothesis
            p.holds(f'global_cell_amount[{n}] is the nearest whole number of cells', fn, z3.And(toreal(ca) - q <= R(Fraction(1, 2)), q - toreal(ca) <= R(Fraction(1, 2))), [q > 0])


PARTS = {'CurrentVB': 'SWITCH_CCS_VB', 'CurrentZigZag': 'SWITCH_CCS_ZIGZAG', 'PusherBoris': 'SWITCH_PUSHER_BORIS_ADAPTIVE', 'PusherVay': 'SWITCH_PUSHER_VAY', 'PusherHC': 'SWITCH_PUSHER_HC'}


def domain(cur, pus, ext=False):
    """Domain::Domain: solver, current and pusher work on the geometry, species and clock of their own domain"""
    def go(ctx):
        fn = 'Domain::Domain'
        cfg = swap(swap(config(), 'SWITCH_CCS', PARTS[cur]), 'SWITCH_PUSHER', PARTS[pus])
        parts = [cur, 'MaxwellSolverYee', pus] + (['ExternalFields'] if ext else [])
        if ext:
            cfg['ENABLE_EXTERNAL_FIELDS'] = 'true'
        m = ctx.load(cfg, ['src/domain.cpp'], [fn, 'Geometry::Geometry'] + [f'{c}::{c}' for c in parts] + [VS + '::' + q for q in ('vector', '~vector', 'operator=')] + ([VD + '::' + q for q in ('vector', '~vector')] + [STRC + '::basic_string', STRC + '::~basic_string'] if ext else []),
                     ['domain.hpp', 'geometry.hpp'], ['Geometry'], {'Domain': ('Domain', dict(species_p=VEC(U64), current=U64, pusher=U64, maxwell_solver=U64, geometry=STRUCT('Geometry'), time=U64, **(dict(external_fields=U64) if ext else {})))})
        ex = m.exec()
        for sy in m.inv.get('Geometry::Geometry', []):
            ex.contracts[sy] = hand_over
        for sy in m.inv.get(VS + '::vector', []):
            ex.contracts[sy] = hand_over if 'const&' in m.dem[sy] else (lambda ex, st, A: [(st, None)])
        for sy in m.inv.get(VS + '::~vector', []):
            ex.contracts[sy] = lambda ex, st, A: [(st, None)]

        def asg(ex, st, A):
            ex.store(st, A[0], A[1], ir.PTR)
            return [(st, A[0])]
        for sy in m.inv.get(VS + '::operator=', []):
            ex.contracts[sy] = asg

        def made(name):
            def h(ex, st, A):
                st.log.append(op(name, a=list(A), v=[(ex.load(st, q, ir.PTR) if isinstance(q, Ptr) and q.fam is not None and q.fam.local and 0 in st.loc.get(q.fam.name, {}) else None) for q in A]))
                return [(st, None)]
            return h
        if ext:
            import strlib
            vec_contracts(ex, m)
            strlib.strings(ctx, m, ex)

            def fields(ex, st, A):
                st.log.append(op('ExternalFields', a=list(A), v=[None] * len(A), names=[strlib.tok(ex, st, q) for q in A[3:5]], pars=[get_vec(ex, st, q, 8, 'd') for q in A[5:7]]))
                return [(st, None)]
        # constructors of the parts: the compiled module holds declarations or bodies
        for nm, dm in list(m.dem.items()) + [(c, d) for c, d in ctx.work.demangle(sorted(m.mod.decls)).items()]:
            for c in parts:
                if dm.startswith(f'{c}::{c}('):
                    ex.contracts[nm] = made(c) if c != 'ExternalFields' else fields
        st = State()
        this = ex.new_local(st, 'domain', m.lay.size(STRUCT('Domain')))
        ga, sa, ta = ex.new_local(st, 'geometry', 256), ex.new_local(st, 'species', 24), ex.root('time', STRUCT('Geometry'))
        ctx.funcs.add(fn)
        more = []
        if ext:
            names, pars = z3.Ints('electric_name magnetic_name'), [z3.Reals('ep0 ep1'), z3.Reals('mp0 mp1 mp2')]
            for t in names:
                more.append(ex.new_local(st, 'name', 32))
                strlib.put(ex, st, more[-1], t)
            for v in pars:
                more.append(ex.new_local(st, 'params', 24))
                put_vec(ex, st, more[-1], darr(ex, st, list(v), 8), 8 * len(v))
        outs = ex.call_function(m.sym(fn), [this, ga, sa, ta] + more, st)
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            F = lambda f: this.add(m.lay.offset('Domain', f)[0])
            L = lambda q: ex.load(o.st, q, ir.PTR)
            p.fact_true('frame', fn, not written(o.st), str(written(o.st)))

            def src(q):
                for _ in range(5):
                    if same(q, ga) or same(q, sa):
                        return q
                    try:
                        q = L(q)
                    except (Unsupported, AttributeError):
                        return None
                    if not isinstance(q, Ptr):
                        return None
                return None
            p.fact_true('geometry is the one passed', fn, same(src(F('geometry')), ga))
            p.fact_true('species are those passed', fn, same(src(F('species_p')), sa))
            p.fact_true('clock is the one passed', fn, same(L(F('time')), ta))
            mk = {c: [e for e in o.st.log if e.kind == 'op' and e.fam == c] for c in parts}
            for c in parts:
                p.fact_true(f'one {c} is created', fn, len(mk[c]) == 1 and not mk[c][0].loops, str(len(mk[c])))
            if any(len(v) != 1 for v in mk.values()):
                continue
            A = {c: mk[c][0].meta for c in parts}
            gp = lambda c, n: p.fact_true(f'{c} works on the geometry of the domain', fn, same(A[c]['a'][n], F('geometry')), str(A[c]['a'][n]))
            tp = lambda c, n: p.fact_true(f'{c} follows the clock of the domain', fn, same(A[c]['a'][n], ta), str(A[c]['a'][n]))
            spc = lambda c, n: p.fact_true(f'{c} acts on the species of the domain', fn, same(src(A[c]['v'][n]), sa) or same(A[c]['v'][n], F('species_p')), str(A[c]['v'][n]))
            gp(cur, 1), tp(cur, 2), spc(cur, 3)
            gp('MaxwellSolverYee', 1), tp('MaxwellSolverYee', 2)
            p.fact_true('the solver is driven by the current of the domain', fn, same(A['MaxwellSolverYee']['a'][3], A[cur]['a'][0]))
            p.fact_true('the pusher uses the fields of the domain', fn, same(A[pus]['a'][1], A['MaxwellSolverYee']['a'][0]))
            n = 1 if ext else 0
            spc(pus, 2 + n), tp(pus, 3 + n)
            if ext:
                X = mk['ExternalFields'][0].meta
                gp('ExternalFields', 1), tp('ExternalFields', 2)
                for k, nm in enumerate(('electric', 'magnetic')):
                    p.fact_true(f'{nm} profile of the external fields is the one passed', fn, z3.is_expr(X['names'][k]) and X['names'][k].eq(names[k]), str(X['names'][k]))
                    p.fact_true(f'{nm} parameters of the external fields are those passed', fn, len(X['pars'][k]) == len(pars[k]) and all(z3.is_expr(x) and x.eq(y) for x, y in zip(X['pars'][k], pars[k])), str(X['pars'][k]))
                p.fact_true('the pusher adds the external fields of the domain', fn, same(A[pus]['a'][2], X['a'][0]))
                p.fact_true('external_fields of the domain are those created', fn, same(L(F('external_fields')), X['a'][0]))
            for f, c in (('current', cur), ('maxwell_solver', 'MaxwellSolverYee'), ('pusher', pus)):
                p.fact_true(f'{f} of the domain is the {c} created', fn, same(L(F(f)), A[c]['a'][0]))
    return go


MAPS = ('density_map', 'temperature_map', 'energy_map', 'momentum_abs_map_w')
MAPS3 = ('momentum_map_w', 'momentum_map')


def specie(ctx):
    """SpecieP::SpecieP, BeamP::BeamP: what a species keeps of its configuration; its maps have the cells of the domain and two halo layers"""
    p = ctx.p
    q, ma, dl, dr_, te, st0, ra, de, le, di, ve = z3.Reals('q m dl dr te start radius density length distance velocity')
    nb = z3.Int('bunches')
    bn = toreal(nb)
    i_, mac = z3.Ints('id macro')
    EL, EM = Fraction('1.6') / 10 ** 19, Fraction('9.1') / 10 ** 31
    for fn, beam in (('SpecieP::SpecieP', False), ('BeamP::BeamP', True)):
        m = ctx.load(config(), ['src/specieP.cpp', 'src/beamP.cpp'], ['SpecieP::SpecieP', 'BeamP::BeamP', 'Grid<double>::Grid', 'Grid3D<double>::Grid3D', STRC + '::basic_string', STRC + '::~basic_string', STRC + '::operator='],
                     ['beamP.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Geometry', 'TimeSim'],
                     {'Sp': ('BeamP' if beam else 'SpecieP', dict(id=U16, name=STR, macro_amount=U32, charge=F64, mass=F64, particles=VEC(U64), geometry=G(), time=T(), temperature=F64,
                                                                 **{x: U64 for x in MAPS + MAPS3}, **(BEAMF if beam else {'density': ARR(F64, 2)}))),
                      **({'Base': ('SpecieP', {'density': ARR(F64, 2)})} if beam else {})})
        ex = m.exec()
        vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
        vec_pin(ex, 'geometry', '.cell_size', [HR, HZ])
        vec_pin(ex, 'geometry', '.size', [HR * toreal(NR), HZ * toreal(NZ)])
        vec_pin(ex, 'geometry', '.cell_dims', [C0, C1, C0 + NR, C1 + NZ])

        def grid(ex, st, A):
            if len(A) == 4:
                # the object is marked with its sizes; the mark moves with the copy into the member
                ex.store(st, A[0], ('grid', A[1], A[2], A[3]), ir.Ty('int', 64))
            return [(st, None)]
        for sy in m.inv.get('Grid<double>::Grid', []) + m.inv.get('Grid3D<double>::Grid3D', []):
            ex.contracts[sy] = grid
        for nm in ('basic_string', '~basic_string', 'operator='):
            for sy in m.inv.get(STRC + '::' + nm, []):
                ex.contracts[sy] = lambda ex, st, A: [(st, A[0])]
        for sy in m.mod.decls:
            if '__cxx11' in sy:
                ex.contracts[sy] = lambda ex, st, A: [(st, A[0] if A else None)]
        st = State()
        this = ex.new_local(st, 'specie', m.lay.size(STRUCT('Sp')))
        nmp = ex.new_local(st, 'name', 32)
        ga, ta = ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim'))
        for f in (NR >= 1, NZ >= 1, HR > 0, HZ > 0, i_ >= 0, i_ < 65536, mac >= 0, C0 >= 0, C1 >= 0, le > 0, ve > 0, ra > 0, nb > 0):
            ex.fact(f)
        args = [this, i_, nmp, q, ma, mac] + ([st0, ra, de, bn, le, di, ve] if beam else [dl, dr_, te]) + [ga, ta]
        outs = ex.call_function(m.sym(fn), args, st)
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            pc = pc_of(ex, o)
            p.fact_true('frame: only the object itself is written', fn, not written(o.st), str(written(o.st)))
            L = lambda f, ty, s='Sp', d=0: ex.load(o.st, this.add(m.lay.offset(s, f)[0] + d), ty)
            D = ir.Ty('double')
            p.eq('charge in elementary charges', fn, L('charge', D), rmul(q, EL), pc, ex.facts)
            p.eq('mass in electron masses', fn, L('mass', D), rmul(ma, EM), pc, ex.facts)
            p.eq('id', fn, toreal(L('id', ir.Ty('int', 16))), toreal(i_), pc, ex.facts)
            p.eq('amount of macroparticles', fn, toreal(L('macro_amount', ir.Ty('int', 32))), toreal(mac), pc, ex.facts)
            p.eq('temperature', fn, L('temperature', D), Fraction(0) if beam else te, pc, ex.facts)
            sd = 'Base' if beam else 'Sp'
            p.eq('density at the left edge', fn, L('density', D, sd), de if beam else dl, pc, ex.facts)
            p.eq('density at the right edge', fn, L('density', D, sd, 8), de if beam else dr_, pc, ex.facts)
            for f, x in (('geometry', ga), ('time', ta)):
                p.fact_true(f'{f} is the one passed', fn, same(L(f, ir.PTR), x))
            if beam:
                for f, v in (('radius', ra), ('density', de), ('velocity', ve), ('start_time', st0), ('bunch_length', le), ('bunches_distance', di)):
                    p.eq(f, fn, L(f, D), v, pc, ex.facts)
                p.eq('amount of bunches', fn, toreal(L('bunches_amount', ir.Ty('int', 32))), bn, pc, ex.facts)
            for f in MAPS + MAPS3:
                mp = L(f, ir.Ty('int', 64))
                ok = isinstance(mp, tuple) and mp[0] == 'grid'
                p.fact_true(f'{f} is created', fn, ok, str(mp), refuted=False)
                if ok:
                    for n, (a, b) in enumerate(zip(mp[1:], (NR, NZ, 2))):
                        p.eq(f'{f}: ' + ('radial cells', 'longitudinal cells', 'halo')[n], fn, toreal(a), toreal(b), pc, ex.facts)
    return


BEAMF = dict(bunches_amount=U32, radius=F64, density=F64, velocity=F64, start_time=F64, bunch_length=F64, bunches_distance=F64)


def divisions(t):
    seen, todo, r = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV:
            r.append(x)
        todo += x.children()
    return r


def lemma(ctx):
    """the contracts of SMB::SMB and Geometry::Geometry compose to equal cells everywhere"""
    p = ctx.p
    n = z3.Int('n')
    h, s = z3.Reals('h s')
    p.eq('cell size of a domain is the cell size of the block', 'lemma', h * toreal(n) / toreal(n), h, [n > 0])
    a, b = z3.Reals('ld rd')
    x = z3.Int('x')
    p.eq('density at the far edge of one domain is that at the near edge of the next', 'lemma', a + (b - a) / LZ * HZ * toreal(x), a + (b - a) * (HZ * toreal(x)) / LZ, [LZ > 0])


def sections(tier):
    return [('smb', smb()), ('smb without layers', smb(False)),  ('geometry', geometry)] + [(f'domain {c} {q}', domain(c, q)) for c, q in (('CurrentVB', 'PusherBoris'), ('CurrentZigZag', 'PusherVay'), ('CurrentVB', 'PusherHC'))] + [('species', specie), ('lemma cells', lemma)]


def natives(tier):
    d = Native('block', 'c04.cpp', NSRC, config(), n=(300, 20000), flags=['-fno-access-control'])
    return [d]
