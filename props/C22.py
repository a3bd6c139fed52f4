"""Beams: when, where, how many and how heavy the injected macroparticles are; bunch counting; reflection at the axis."""
from specielib import *
from C21 import draws, ranged, made, uses, tr, PB
from C04 import same, STRC
from shapes import SPECIE
from runner import Native
import ir

LEVEL = 'proof'
j = z3.Int('j')
dr, dz = z3.Reals('dr dz')
D = z3.Ints('c0 c1 c2 c3')
ST, LEN, GAP, VEL, RAD, DEN, MPS, DRAD, NOW, STEP = z3.Reals('this.start_time this.bunch_length this.bunches_distance this.velocity this.radius this.density this.macro_per_step_to_inject this.domain_radius time.current time.step')
NB, CUR, M = z3.Ints('this.bunches_amount this.current_bunch_number this.macro_amount')
PI = z3.Real('PI')
BEAMF = dict(bunches_amount=U32, radius=F64, density=F64, velocity=F64, start_time=F64, bunch_length=F64, bunches_distance=F64, duration=F64, finish_time=F64, bunch_macro_amount=F64,
             macro_per_step_to_inject=F64, domain_radius=F64)
SHAPE = {**{k: v for k, v in SPECIE.items() if k not in ('count', '__vptr')}, **BEAMF}
GEO = [PI > 3, dr > 0, dz > 0, D[0] >= 0, D[1] >= 0, D[2] > D[0], D[3] > D[1], D[2] < 2 ** 31, D[3] < 2 ** 31, M >= 1, NB >= 1, NB < 2 ** 31, CUR >= 0, CUR < 2 ** 31, M < 2 ** 31, RAD > 0, LEN > 0, GAP >= 0, VEL > 0, STEP > 0, DRAD >= 0, MPS >= 0]
RN = dict(RNG)
RN.update({'this.bunches_amount': lambda g: g.randint(1, 5), 'this.current_bunch_number': lambda g: g.randint(0, 3), 'this.macro_amount': lambda g: g.randint(1, 50), 'it*': lambda g: g.randint(0, 3),
           'c2': lambda g: g.randint(4, 9), 'c3': lambda g: g.randint(4, 9)})
SRCB = ['src/beamP.cpp', 'src/specieP.cpp', 'src/algo/common.cpp']


def world(ctx, keep):
    m = ctx.load(config(), SRCB, keep + PB, ['beamP.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Particle', 'Grid', 'Grid3D', 'Geometry', 'TimeSim'], {'Beam': ('BeamP', SHAPE)})
    ex = m.exec()
    vec_pin(ex, 'geometry', '.cell_size', [dr, dz])
    vec_pin(ex, 'geometry', '.cell_dims', list(D))
    vec_pin(ex, 'geometry', '.size', [(tr(D[2]) - tr(D[0])) * dr, (tr(D[3]) - tr(D[1])) * dz])
    for q in GEO:
        ex.fact(q)
    return m, ex


def strip(v):
    """the value written, whatever path wrote it"""
    while z3.is_app_of(v, z3.Z3_OP_ITE):
        v = v.arg(1)
    return v


def injection(ctx):
    fn = 'BeamP::inject'
    m, ex = world(ctx, [fn])
    log = draws(ctx, ex, m)
    made(m, ex)
    this = ex.root('this', STRUCT('Beam'))
    outs = ex.call_function(m.sym(fn), [this])
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    cur = tr(CUR)
    start = ST + (LEN + GAP) / VEL * cur
    finish = start + LEN / VEL
    left = CUR < NB
    now = z3.And(left, tr(D[0]) * dr < RAD, NOW >= start, NOW < finish)
    for n, o in enumerate(rets(outs)):
        pc = pc_of(ex, o)
        hy = GEO + pc
        pu = [e for e in o.st.log if e.kind == 'op']
        w = {e.fam for e in o.st.log if e.kind in ('w', 'inc') and not e.fam.startswith('made')}
        wr = {(e.fam, e.leaf) for e in o.st.log if e.kind in ('w', 'inc') and not e.fam.startswith('made')}
        p.fact_true('frame: nothing but new particles and the number of the bunch is written', fn, wr <= {('this', '.current_bunch_number')}, str(wr))
        nxt = ex.value_at(o.st, 'this', '.current_bunch_number', (), sh=U32)
        p.holds('the next bunch comes when the time of this one is over, up to the last', fn, tr(nxt) == tr(CUR) + z3.If(z3.And(left, NOW > finish), 1, 0), hy, ex.facts)
        if not pu:
            p.holds('particles are injected all the time of the bunch', fn, z3.Or(z3.Not(now), MPS <= 0), hy, ex.facts)
            continue
        ok = all(len(e.loops) == 1 and e.meta['v'].fam.name.startswith('made') and e.meta['list'].fam is this.fam and e.meta['list'].off == m.lay.offset('Beam', 'particles')[0] for e in pu)
        p.fact_true('new particles are added to the list of the beam', fn, ok, str(pu), refuted=False)
        if not ok:
            continue
        e = pu[0]
        ok = all(same(x.meta['v'], e.meta['v']) and x.loops[0].k is e.loops[0].k for x in pu)
        p.fact_true('the same new particle in every case', fn, ok, str(pu), refuted=False)
        if not ok:
            continue
        l = e.loops[0]
        it = fresh('it', 'i')
        at_ = lambda q: q if q is True else z3.substitute(q, (l.k, it))
        dom = at_(l.dom)
        p.holds('particles are injected only at the time of the bunch and inside the radius of the beam', fn, z3.Implies(z3.And(dom, z3.Or(*[z3.BoolVal(True) if x.guard is True else at_(ex.expand(o.st, x.guard)) for x in pu])), now), hy, ex.facts)
        p.holds('as many as the beam gives per step', fn, z3.Implies(now, dom == z3.And(it >= 0, tr(it) < MPS)), hy, ex.facts)
        once = [ex.expand(o.st, x.guard) for x in pu]
        cnt = z3.Sum([z3.If(at_(ex.ended(x)), 1, 0) if x is not True else z3.IntVal(1) for x in once])
        rg = [at_(q) for q in ranged(log)]
        p.holds('one particle per turn', fn, z3.Implies(now, cnt == 1), hy + [dom] + rg, ex.facts)
        h2 = hy + [dom, now] + rg + ([z3.Or(*[at_(x) for x in once])] if all(x is not True for x in once) else [])
        fam = e.meta['v'].fam.name
        V = {f: ex.value_at(o.st, fam, '.' + f, (it,), sh=s) for f, s in (('pos_r', F64), ('pos_z', F64), ('pos_phi', F64), ('vel_r', F64), ('vel_phi', F64), ('vel_z', F64), ('weight', F64), ('specie_id', U16), ('cell_r', U64), ('cell_z', U64))}
        p.eq('the particle belongs to the beam', fn, tr(V['specie_id']), z3.ToReal(z3.Int('this.id')), h2, ex.facts, ranges=RN)
        for f in ('pos_phi', 'vel_r', 'vel_phi'):
            p.eq(f'{f} starts from zero', fn, V[f], Fraction(0), h2, ex.facts, ranges=RN)
        p.eq('the particle has the speed of the beam', fn, V['vel_z'], VEL, h2, ex.facts, ranges=RN)
        own = [[at_(v) for v, _, _ in log if uses(strip(R(V['pos_' + c])), at_(v))] for c in 'rz']
        ok = len(own[0]) == 1 and len(own[1]) == 1 and not own[0][0].eq(own[1][0])
        p.fact_true('each coordinate has its own random number', fn, ok, str(own), refuted=False)
        if ok:
            p.eq('radius: evenly over the part of the beam in the domain, behind half a cell', fn, V['pos_r'], tr(D[0]) * dr + dr / 2 + DRAD * own[0][0], h2, ex.facts, ranges=RN)
            p.eq('longitude: evenly over the way of one step, behind half a cell', fn, V['pos_z'], dz / 2 + VEL * STEP * own[1][0], h2, ex.facts, ranges=RN)
        share = 2 * R(V['pos_r']) / RAD
        p.eq('weight: real particles of all bunches per macroparticle, by ring volume', fn, rmul(R(V['weight']), tr(M)), rmul(PI, RAD * RAD * LEN * tr(NB) * DEN) * share, h2, ex.facts, ranges=RN)
        for c, d in (('r', dr), ('z', dz)):
            x = R(V['pos_' + c])
            cell = tr(V['cell_' + c])
            p.holds(f'{c}: cell number of the position', fn, z3.And(cell * d <= x, x < (cell + 1) * d), h2 + [x >= 0, x < 2 ** 31 * d], [at_(q) for q in ex.facts])


def reflection(wall):
    def go(ctx):
        fn = 'BeamP::reflect'
        m, ex = world(ctx, [fn])
        ex.pins[('geometry.walls.bits', '')] = wall
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Beam'))])
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        pr, vr = PT('pos_r')(j), PT('vel_r')(j)
        for o in rets(outs):
            hy = GEO + [j >= 0, j < NP] + pc_of(ex, o)
            w = written(o.st)
            p.fact_true('frame: only radii and radial velocities are written', fn, w <= {(P, '.pos_r'), (P, '.vel_r')}, str(w))
            x = pr - tr(D[0]) * dr
            hit = z3.And(x < dr / 2, z3.BoolVal(bool(wall)))
            p.eq('radius: mirrored at half a cell from the axis wall', fn, ex.value_at(o.st, P, '.pos_r', (j,)) if (P, '.pos_r') in w else pr, z3.If(hit, dr - x + tr(D[0]) * dr, pr), hy, ex.facts, ranges=RN)
            p.eq('radial velocity: turned at the axis wall', fn, ex.value_at(o.st, P, '.vel_r', (j,)) if (P, '.vel_r') in w else vr, z3.If(hit, -vr, vr), hy, ex.facts, ranges=RN)
    return go


def shares(ctx):
    """BeamP::BeamP: the part of the beam in a domain"""
    fn = 'BeamP::BeamP'
    p = ctx.p
    q, ma, st0, ra, de, le, di, ve, nb = z3.Reals('q m start radius density length distance velocity bunches')
    i_, mac = z3.Ints('id macro')
    n_ = z3.Int('n_bunches')
    m = ctx.load(config(), SRCB, [fn, 'SpecieP::SpecieP', 'Grid<double>::Grid', 'Grid3D<double>::Grid3D', STRC + '::basic_string', STRC + '::~basic_string', STRC + '::operator='],
                 ['beamP.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Particle', 'Grid', 'Grid3D', 'Geometry', 'TimeSim'], {'Beam': ('BeamP', SHAPE)})
    ex = m.exec()
    vec_pin(ex, 'geometry', '.cell_size', [dr, dz])
    vec_pin(ex, 'geometry', '.cell_dims', list(D))
    vec_pin(ex, 'geometry', '.size', [(tr(D[2]) - tr(D[0])) * dr, (tr(D[3]) - tr(D[1])) * dz])
    moff = m.lay.offset('Beam', 'macro_amount')[0]

    def base(ex, s, A):
        """SpecieP::SpecieP by its contract (C04)"""
        ex.store(s, A[0].add(moff), A[5], ir.Ty('int', 32))
        ex.store(s, A[0].add(m.lay.offset('Beam', 'geometry')[0]), A[9], ir.PTR)
        ex.store(s, A[0].add(m.lay.offset('Beam', 'time')[0]), A[10], ir.PTR)
        return [(s, None)]
    for sy in m.inv['SpecieP::SpecieP']:
        ex.contracts[sy] = base
    for nm in ('basic_string', '~basic_string', 'operator='):
        for sy in m.inv.get(STRC + '::' + nm, []):
            ex.contracts[sy] = lambda ex, st, A: [(st, A[0])]
    for sy in m.mod.decls:
        if '__cxx11' in sy:
            ex.contracts[sy] = lambda ex, st, A: [(st, A[0] if A else None)]
    st = State()
    this = ex.new_local(st, 'beam', m.lay.size(STRUCT('Beam')))
    nmp = ex.new_local(st, 'name', 32)
    hy = [q_ for q_ in GEO[:8]] + [mac >= 1, mac < 2 ** 31, n_ >= 1, n_ < 2 ** 31, nb == tr(n_), ra > 0, le > 0, di >= 0, ve > 0, STEP > 0]
    for f in hy:
        ex.fact(f)
    outs = ex.call_function(m.sym(fn), [this, i_, nmp, q, ma, mac, st0, ra, de, tr(n_), le, di, ve, ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim'))], st)
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    r0, r1 = tr(D[0]) * dr, tr(D[2]) * dr
    part = z3.If(D[1] > 0, R(0), z3.If(ra > r1, r1 - r0, z3.If(ra > r0, ra - r0, R(0))))
    for o in rets(outs):
        pc = pc_of(ex, o)
        L = lambda f, ty=ir.Ty('double'): ex.load(o.st, this.add(m.lay.offset('Beam', f)[0]), ty)
        p.eq('part of the radius in the domain, none behind the first domains along z', fn, L('domain_radius'), part, hy + pc, ex.facts, ranges=RN)
        bm = R(L('bunch_macro_amount'))
        p.eq('macroparticles of a bunch in the domain, by its part of the radius', fn, bm * tr(n_) * ra, tr(mac) * part, hy + pc, ex.facts, ranges=RN)
        p.eq('macroparticles per step, by the way of one step', fn, R(L('macro_per_step_to_inject')) * le, bm * ve * STEP, hy + pc, ex.facts, ranges=RN)
        p.eq('starts from the first bunch', fn, tr(L('current_bunch_number', ir.Ty('int', 32))), Fraction(0), hy + pc, ex.facts)
        p.eq('end of the last bunch', fn, R(L('finish_time')), st0 + (le * tr(n_) + di * (tr(n_) - 1)) / ve, hy + pc, ex.facts, ranges=RN)
    # domains in a row cover the radius: the parts of neighbours add up to the part of their union
    a, b, c = z3.Ints('a b c')
    cl = lambda x, y: z3.If(ra > tr(y) * dr, (tr(y) - tr(x)) * dr, z3.If(ra > tr(x) * dr, ra - tr(x) * dr, R(0)))
    p.holds('the parts of neighbouring domains add up', 'lemma', cl(a, b) + cl(b, c) == cl(a, c), [a >= 0, a < b, b < c, dr > 0, ra > 0], [])
    p.holds('the whole radius is the part of a block that holds it', 'lemma', cl(z3.IntVal(0), c) == ra, [c > 0, dr > 0, ra > 0, ra <= tr(c) * dr], [])


def sections(tier):
    return [('injection', injection), ('parts of a beam', shares)] + [(f'reflection, axis wall {w}', reflection(w)) for w in (0, 1)]


def natives(tier):
    return [Native('beam', 'c22.cpp', SRCB + ['src/phys/rel.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp'], config(), n=(400, 4000))]
