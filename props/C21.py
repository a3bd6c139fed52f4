"""Initial plasma: where the macroparticles of a species are, how many real particles each stands for, how fast they are."""
from specielib import *
from extract import swap
from C04 import same, put_vec
from runner import Native
import ir

LEVEL = 'proof'
j, i = z3.Ints('j i')
dr, dz = z3.Reals('dr dz')
D = z3.Ints('c0 c1 c2 c3')
A4 = z3.Ints('from_r to_r from_z to_z')
M = z3.Int('this.macro_amount')
NL, NRT = (z3.Real(f'this.density[{n}]') for n in (0, 1))
PI = z3.Real('PI')
MNZL = Fraction(1, 10 ** 15)
GEO = [PI > 3, dr > 0, dz > 0, D[0] >= 0, D[1] >= 0, D[2] > D[0] + 1, D[3] > D[1] + 1, D[2] < 2 ** 31, D[3] < 2 ** 31, M >= 1, M < 2 ** 31]
ARGS = [A4[0] >= 0, A4[2] >= 0, A4[1] > A4[0] + 1, A4[3] > A4[2] + 1, A4[1] < 2 ** 31, A4[3] < 2 ** 31]
RN = dict(RNG)
RN.update({'from_r': lambda g: g.randint(0, 3), 'to_r': lambda g: g.randint(6, 9), 'from_z': lambda g: g.randint(0, 3), 'to_z': lambda g: g.randint(6, 9), 'c2': lambda g: g.randint(6, 9),
           'c3': lambda g: g.randint(6, 9), 'this.macro_amount': lambda g: 4, 'i': lambda g: g.randint(0, 3), P + '.pos_r': lambda g: g.uniform(.1, 4), 'sum*': lambda g: g.uniform(1, 5),
           'this.density*': lambda g: g.uniform(1, 5), 'draw*': lambda g: g.uniform(0, 1), 'energy*': lambda g: g.uniform(1, 5)})
NEW = '_Znwm'
PLACE = {'RANDOM': 'random', 'FLAT': 'random', 'CENTERED': 'centered', 'REGULAR': 'regular'}


def tr(x):
    return Fraction(x) if isinstance(x, int) else z3.ToReal(x)


def world(ctx, keep, walls, cfg=None):
    m, ex = load(ctx, keep, cfg=cfg)
    vec_pin(ex, 'geometry', '.cell_size', [dr, dz])
    vec_pin(ex, 'geometry', '.cell_dims', list(D))
    ex.pins[('geometry.walls.bits', '')] = sum(1 << n for n, w in enumerate(walls) if w)
    ex.pins[('this', '.density[0]')] = NL
    ex.pins[('this', '.density[1]')] = NRT
    for q in GEO:
        ex.fact(q)
    return m, ex


def weights(walls):
    def go(ctx):
        fn = 'SpecieP::set_weight'
        m, ex = world(ctx, [fn], walls)
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SpecieP'))] + [D[n] for n in (0, 2, 1, 3)])
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        vol = lambda k: ite(PT('pos_r')(k) > dr / 2, rmul(2 * PI, PT('pos_r')(k)) * dr * dz, rmul(PI, PT('pos_r')(k)) * PT('pos_r')(k) * dz)
        top = tr(D[2]) - int(walls[2])
        total = rmul(rmul((NL + NRT) / 2, PI), dr * dr * (top * top - tr(D[0]) * tr(D[0])) * ((tr(D[3]) - tr(D[1])) * dz - (dz if walls[3] else 0)))
        for o in rets(outs):
            w = written(o.st)
            p.fact_true('frame: only the weights are written', fn, w == {(P, '.weight')}, str(w))
            val = ex.value_at(o.st, P, '.weight', (j,))
            at = {}
            atoms(val, at)
            su = [ex.sums[q] for q in at if q in ex.sums]
            if len(su) != 1:
                raise Unsupported(f'{len(su)} sums over the particles')
            sym, a, v0, acc, lv = su[0]
            pos = [PT('pos_r')(q) > 0 for q in (i, j)] + [i >= 0, j >= 0, i < NP, j < NP] + GEO[:3]
            term = Fraction(0)
            for g, nv in acc:
                x = ex.expand(o.st, nv)
                x0 = z3.substitute(x, (a, z3.RealVal(0)))
                gg = [] if g is True else [ex.expand(o.st, g)]
                p.eq('each particle adds to the sum', fn, rsub(x, x0), a, [lv.dom] + gg, ex.facts, ranges=RN)
                term = radd(term, ite(ex.expand(o.st, g) if gg else True, x0, Fraction(0)))
            T_ = lambda k: z3.substitute(term, (lv.k, k))
            p.fact_true('the sum starts from zero', fn, v0 == 0, str(v0), refuted=False)
            p.holds('the sum runs over all particles', fn, lv.dom == z3.And(lv.k >= 0, lv.k < NP), pc_of(ex, o), ex.facts)
            p.eq('shares are proportional to the ring volumes of the particles', fn, rmul(T_(j), vol(i)), rmul(T_(i), vol(j)), pos, ex.facts, ranges=RN)
            p.holds('shares are positive', fn, T_(j) > 0, pos, ex.facts)
            p.eq('weights are the shares of the number of real particles in the volume', fn, rmul(R(val), sym), rmul(total, T_(j)), pos + GEO + [sym > 0] + pc_of(ex, o), ex.facts, ranges=RN)
    return go


def uses(t, v):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() == v.get_id():
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            st.extend(x.children())
    return False


def draws(ctx, ex, m):
    """random numbers enter as arbitrary values of [0, 1) (uniform2: (-1, 1)), one function of the iteration per call site"""
    log = []

    def mk(lo, hi):
        def h(ex, st, A):
            n = st.ghost.get('draws', 0)
            st.ghost['draws'] = n + 1
            ks = ex.kstack or [z3.IntVal(0)]
            f = z3.Function(f'draw{n}', *[z3.IntSort()] * len(ks), z3.RealSort())
            v = f(*ks)
            if not any(x[0].eq(v) for x in log):
                log.append((v, lo, hi))
            return [(st, v)]
        return h
    for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith('math::random::'):
            ex.contracts[sy] = mk(*((-1, 1) if '::uniform2(' in d else (0, 1)))
    return log


def ranged(log):
    return [z3.And(v >= lo, v < hi) for v, lo, hi in log]


def made(m, ex):
    """every new Particle is its own object, named after the iteration that makes it"""
    size = m.lay.size(STRUCT('Particle'))
    old = ex.contracts.get('@' + NEW)

    def h(ex, st, A):
        if A[0] != size or not ex.kstack:
            return [(st, ex.new_local(st, 'new', A[0]))]
        n = st.ghost.get('made', 0)
        st.ghost['made'] = n + 1
        return [(st, Ptr(ex.fam(f'made{n}_{len(ex.kstack)}', STRUCT('Particle')), tuple(ex.kstack), 0))]
    ex.contracts['@' + NEW] = h
    for k in m.inv:
        if k.startswith('std::vector<Particle_struct*') and k.endswith('::push_back'):
            for sy in m.inv[k]:
                ex.contracts[sy] = lambda ex, st, A: (st.log.append(Ent('op', 'push', '', (), None, meta={'list': A[0], 'v': ex.load(st, A[1], ir.PTR)})), [(st, None)])[1]


PB = ['std::vector<Particle_struct*, std::allocator<Particle_struct*>>::push_back']


def place(scheme, walls):
    """placement: positions, number and identity of the new particles"""
    def go(ctx):
        fn = f'SpecieP::rectangular_{PLACE[scheme]}_placement'
        cfg = swap(config(), 'SWITCH_PLASMA_SPATIAL', 'SWITCH_PLASMA_SPATIAL_' + scheme)
        m, ex = world(ctx, [fn] + PB, walls, cfg)
        for q in ARGS:
            ex.fact(q)
        log = draws(ctx, ex, m)
        made(m, ex)
        this = ex.root('this', STRUCT('SpecieP'))
        outs = ex.call_function(m.sym(fn), [this] + [A4[n] for n in (0, 1, 2, 3)])
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        lo = [tr(A4[0]) * dr + dr / 2, tr(A4[2]) * dz + dz / 2]
        L = [(tr(A4[1]) - tr(A4[0]) - int(walls[2])) * dr, (tr(A4[3]) - tr(A4[2]) - int(walls[3])) * dz]
        for o in rets(outs):
            pc = pc_of(ex, o)
            pu = [e for e in o.st.log if e.kind == 'op']
            w = {e.fam for e in o.st.log if e.kind in ('w', 'inc')}
            p.fact_true('frame: nothing but new particles is written', fn, all(x.startswith('made') for x in w), str(w))
            ok = len(pu) >= 1 and all(e.loops and e.meta['v'].fam.name in w and e.meta['list'].fam is this.fam and e.meta['list'].off == m.lay.offset('SpecieP', 'particles')[0] for e in pu)
            p.fact_true('new particles are added to the list of the species', fn, ok, str(pu), refuted=False)
            if not ok:
                continue
            e = pu[0]
            l = e.loops[-1]
            p.fact_true('the same new particle in every case', fn, all(same(x.meta['v'], e.meta['v']) and [y.k for y in x.loops] == [y.k for y in e.loops] for x in pu), str(pu), refuted=False)
            here = [(q, fresh('it', 'i')) for q in e.meta['v'].idx]
            at_ = lambda q: z3.substitute(q, *here)
            dom = [at_(x.dom) for x in e.loops]
            if scheme in ('RANDOM', 'FLAT'):
                p.holds('as many particles as the species has', fn, z3.And(len(e.loops) == 1, l.dom == z3.And(l.k >= 0, l.k < M)), pc, ex.facts)
            fam, idx = e.meta['v'].fam.name, tuple(q for _, q in here)
            V = {f: ex.value_at(o.st, fam, '.' + f, idx, sh=s) for f, s in (('pos_r', F64), ('pos_z', F64), ('pos_phi', F64), ('vel_r', F64), ('vel_phi', F64), ('vel_z', F64), ('specie_id', U16))}
            once = [ex.expand(o.st, x.guard) for x in pu]
            push = [at_(x) for x in once if x is not True]
            push = [z3.Or(*push)] if len(push) == len(once) else []
            if all(x is not True for x in once):
                p.holds('one particle per iteration', fn, z3.Sum([z3.If(at_(ex.ended(x)), 1, 0) for x in once]) == 1, GEO + ARGS + dom + pc + [at_(q) for q in ranged(log)], ex.facts)
            else:
                p.fact_true('one particle per iteration', fn, len(pu) == 1, str(pu), refuted=False)
            hy = GEO + ARGS + dom + pc + push + [at_(q) for q in ranged(log)]
            p.eq('the particle belongs to the species', fn, tr(V['specie_id']), tr(ex.load(o.st, this.add(m.lay.offset('SpecieP', 'id')[0]), ir.Ty('int', 16))), hy, ex.facts, ranges=RN)
            for f in ('pos_phi', 'vel_r', 'vel_phi', 'vel_z'):
                p.eq(f'{f} starts from zero', fn, V[f], Fraction(0), hy, ex.facts, ranges=RN)
            if scheme in ('RANDOM', 'FLAT'):
                own = [[at_(v) for v, _, _ in log if uses(V['pos_' + c], at_(v))] for c in 'rz']
                p.fact_true('each coordinate has its own random number', fn, len(own[0]) == 1 and len(own[1]) == 1 and not own[0][0].eq(own[1][0]), str(own), refuted=False)
                if len(own[0]) != 1 or len(own[1]) != 1:
                    continue
                u = [ite(q[0] == 0, R(MNZL), q[0]) for q in own]
                p.eq('radius: evenly over the cells from first to last, behind half a cell', fn, V['pos_r'], lo[0] + u[0] * L[0], hy, ex.facts, ranges=RN)
                s = z3.Real('share')
                # the longitude divides the linear density profile in the drawn proportion
                share = (R(V['pos_z']) - lo[1]) / L[1]
                p.eq('longitude: the part of the density profile before it is the drawn part', fn, share * NL + share * share * (NRT - NL) / 2, u[1] * (NL + NRT) / 2,
                     hy + [NL > 0, NRT > 0], ex.facts, ranges=RN)
                p.holds('longitude: inside the cells from first to last, behind half a cell', fn, z3.And(share >= 0, share <= 1), hy + [NL > 0, NRT > 0, L[1] > 0] + [at_(q) for q in ex.facts], ex.facts)
            else:
                vals = {c: R(V['pos_' + c]) for c in 'rz'}
                for n, c in enumerate('rz'):
                    p.holds(f'{c}: inside the cells from first to last, behind half a cell', fn, z3.And(vals[c] > lo[n], vals[c] <= lo[n] + L[n] + R(MNZL)), hy, ex.facts)
                ls = {c: [q for q, x in enumerate(e.loops) if uses(ex.expand(o.st, ex.value_at(o.st, fam, '.pos_' + c, idx, sh=F64)), here[q][1]) or uses(vals[c], here[q][1])] for c in 'rz'}
                ls = {c: [q for q in ls[c] if not p_irrelevant(vals[c], here[q][1], push)] for c in 'rz'}
                rest = [q for q in range(len(e.loops)) if q not in ls['r'] + ls['z']]
                ok = len(ls['r']) == len(ls['z']) == 1 and ls['r'] != ls['z'] and len(rest) == (scheme == 'CENTERED')
                p.fact_true('rows, columns and, within a cell, particles are counted on their own', fn, ok, str(ls), refuted=False)
                if not ok:
                    continue
                k = {c: here[ls[c][0]][1] for c in 'rz'}
                N = [tr(A4[1]) - tr(A4[0]) - int(walls[2]), tr(A4[3]) - tr(A4[2]) - int(walls[3])]
                if scheme == 'CENTERED':
                    for n, (c, d) in enumerate((('r', dr), ('z', dz))):
                        p.eq(f'{c}: at the begin of the cell', fn, V['pos_' + c], lo[n] + tr(k[c]) * d + R(MNZL), hy, ex.facts, ranges=RN)
                        p.holds(f'{c}: every cell from first to last', fn, dom[ls[c][0]] == z3.And(k[c] >= 0, tr(k[c]) < N[n]), pc, ex.facts)
                    q = here[rest[0]][1]
                    p.holds('every cell has the same whole number of particles', fn, dom[rest[0]] == z3.And(q >= 0, q < z3.ToInt(tr(M) / (N[0] * N[1]))), GEO + ARGS + pc, ex.facts)
                else:
                    full = [(tr(A4[1]) - tr(A4[0])) * dr, (tr(A4[3]) - tr(A4[2])) * dz]
                    for n, c in enumerate('rz'):
                        gap = R(full[n]) / R(ex.sqrt(tr(M) * full[n] / full[1 - n]))
                        p.eq(f'{c}: equal distances, square cells for the particles', fn, V['pos_' + c], lo[n] + tr(k[c]) * gap + R(MNZL), hy, ex.facts, ranges=RN)
                        p.holds(f'{c}: as long as there is place', fn, dom[ls[c][0]] == z3.And(k[c] >= 0, R(MNZL) + tr(k[c]) * gap <= L[n] - gap), GEO + ARGS + pc, ex.facts)
    return go


def p_irrelevant(v, k, hy):
    """v does not depend on k where the hypotheses hold"""
    q = fresh('other', 'i')
    s = z3.Solver()
    s.set('timeout', 2000)
    body = v.arg(1) if z3.is_app_of(v, z3.Z3_OP_ITE) else v
    s.add(body != z3.substitute(body, (k, q)))
    return s.check() == z3.unsat


def arrange(scheme, fill):
    """a distribution is the placement of the configured kind, then the weights, over the same cells"""
    def go(ctx):
        fn = 'SpecieP::' + ('fullyfill' if fill else 'rectangular') + '_spatial_distribution'
        cfg = swap(config(), 'SWITCH_PLASMA_SPATIAL', 'SWITCH_PLASMA_SPATIAL_' + scheme)
        m, ex = world(ctx, [fn, 'SpecieP::set_weight', 'SpecieP::rectangular_spatial_distribution'] + [f'SpecieP::rectangular_{x}_placement' for x in ('random', 'regular', 'centered')],
                      (0, 0, 0, 0), cfg)
        for f in ['SpecieP::set_weight', 'SpecieP::rectangular_spatial_distribution'] + [f'SpecieP::rectangular_{x}_placement' for x in ('random', 'regular', 'centered')]:
            if f != fn and m.has(f):
                ex.contracts[m.sym(f)] = logop(f.split('::')[1])
        for sy, d in ctx.work.demangle(sorted(m.mod.decls)).items():
            if d.startswith('SpecieP::') and sy not in ex.contracts:
                ex.contracts[sy] = logop(d.split('(')[0].split('::')[1])
        this = ex.root('this', STRUCT('SpecieP'))
        outs = ex.call_function(m.sym(fn), [this] + ([] if fill else list(A4)))
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            ops = [(e.fam, e.meta['a']) for e in o.st.log if e.kind == 'op']
            want = ['rectangular_spatial_distribution'] if fill and ops and ops[0][0] == 'rectangular_spatial_distribution' else [f'rectangular_{PLACE[scheme]}_placement', 'set_weight']
            p.fact_true('placement as configured, then weights', fn, [x for x, _ in ops] == want and not written(o.st), str(ops))
            if [x for x, _ in ops] != want:
                continue
            cells = [D[0], D[2], D[1], D[3]] if fill else A4
            for x, a in ops:
                p.fact_true(f'{x}: of this species', fn, same(a[0], this), str(a[0]))
                for n, w in enumerate(('first row', 'last row', 'first column', 'last column')):
                    p.eq(f'{x}: {w}', fn, tr(a[1 + n]), tr(cells[n]), pc_of(ex, o), ex.facts, ranges=RN)
    return go


VEL = {'THERMAL': 'thermal', 'RECTANGULAR': 'rectangular', 'EIGEN': 'eigen'}
MASS, TEMP = z3.Reals('this.mass this.temperature')
QE, CL, LIM = Fraction(1.6e-19), Fraction(3.0e8), Fraction(5e7)
EN = z3.Function('energy', z3.IntSort(), z3.RealSort())


def velocity(scheme):
    """velocities: of the temperature or, for thermal ones, of the energies drawn for the particles; own random part in each direction"""
    def go(ctx):
        fn = f'SpecieP::{VEL[scheme]}_velocity_distribution'
        cfg = swap(config(), 'SWITCH_PLASMA_VELOCITY', 'SWITCH_PLASMA_VELOCITY_' + scheme)
        m, ex = world(ctx, [fn, 'std::vector<double, std::allocator<double>>::~vector'], (0, 0, 0, 0), cfg)
        log = draws(ctx, ex, m)
        this = ex.root('this', STRUCT('SpecieP'))
        asked = []

        def sample(ex, st, A):
            asked.append(A[1:])
            put_vec(ex, st, A[0], ex.root('energy', DYN(F64)), 8 * A[1])
            return [(st, None)]
        for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
            if d.startswith('math::maxwell_juettner::maxwellJuettner('):
                ex.contracts[sy] = sample
            if d.startswith('std::vector<double, std::allocator<double>>::~vector'):
                ex.contracts[sy] = lambda ex, st, A: [(st, None)]
        outs = ex.call_function(m.sym(fn), [this])
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        if scheme == 'THERMAL':
            p.fact_true('one set of energies is drawn', fn, len(asked) == 1, str(asked), refuted=False)
        for n, t in asked:
            p.eq('one energy for each particle', fn, tr(n), tr(M), GEO, ex.facts, ranges=RN)
            p.eq('energies of the temperature of the species', fn, t, TEMP, GEO, ex.facts, ranges=RN)
        for o in rets(outs):
            pc = pc_of(ex, o)
            w = written(o.st)
            p.fact_true('frame: only velocities are written', fn, w == {(P, '.vel_' + c) for c in ('r', 'phi', 'z')}, str(w))
            hy = GEO[:3] + [j >= 0, j < NP, NP == M, MASS > 0, TEMP > 0, EN(j) >= 0] + pc
            V = [R(ex.value_at(o.st, P, '.vel_' + c, (j,))) for c in ('r', 'phi', 'z')]
            E = EN(j) if scheme == 'THERMAL' else TEMP
            half = Fraction(1, 2) if scheme == 'THERMAL' else 1
            x = E * QE / (MASS * CL) * (1 if scheme == 'THERMAL' else 2)
            at = [z3.substitute(v, (q, j)) for v, _, _ in log for q in v.children()]
            own = [list({a.get_id(): a for a in at if uses(v, a)}.values()) for v in V]
            if scheme != 'EIGEN':
                ok = all(len(q) == 1 for q in own) and len({q[0].get_id() for q in own}) == 3
                p.fact_true('each direction has its own random number', fn, ok, str(own), refuted=False)
                if not ok:
                    continue
                hy += [z3.And(q[0] >= -1, q[0] < 1) for q in own]
            u = [q[0] if q else Fraction(1) for q in own]
            for n, c in enumerate(('r', 'phi', 'z')):
                sq, want = V[n] * V[n], u[n] * u[n] * half * 2 * E * QE / MASS
                ks = {x.k.get_id(): x.k for e in o.st.log for x in (e.loops or ())}
                fx = [z3.substitute(ex.expand(o.st, q), *[(x, j) for x in ks.values()]) for q in ex.facts]
                p.holds(f'{c}: speed of the energy', fn, z3.And(sq - want <= want * Fraction(1, 10 ** 9), want - sq <= want * Fraction(1, 10 ** 9)), hy + [x <= LIM * (1 - Fraction(1, 10 ** 9))], fx)
                p.holds(f'{c}: direction as drawn', fn, V[n] * u[n] >= 0, hy, fx)
                p.holds(f'{c}: below the speed of light', fn, z3.And(V[n] < CL, V[n] > -CL), hy, fx)
    return go

def sections(tier):
    from itertools import product
    W2 = [(0, 0, a, b) for a, b in product((0, 1), repeat=2)]
    out = [('weights, walls %d%d%d%d' % w, weights(w)) for w in W2]
    for s in ('RANDOM', 'FLAT'):
        out += [('%s placement, walls %d%d%d%d' % ((s.lower(),) + w), place(s, w)) for w in W2]
    for s in VEL:
        out += [(f'{s.lower()} velocities', velocity(s))]
    for s in PLACE:
        out += [(f'distribution, {s.lower()}, {"whole domain" if f else "some cells"}', arrange(s, f)) for f in (0, 1)]
    for s in ('CENTERED', 'REGULAR'):
        out += [('%s placement, walls %d%d%d%d' % ((s.lower(),) + w), place(s, w)) for w in W2]
    return out


def natives(tier):
    out = []
    for x, (s, v) in enumerate((('RANDOM', 'THERMAL'), ('FLAT', 'RECTANGULAR'), ('CENTERED', 'EIGEN'), ('REGULAR', 'THERMAL'))):
        cfg = swap(swap(config(), 'SWITCH_PLASMA_SPATIAL', 'SWITCH_PLASMA_SPATIAL_' + s), 'SWITCH_PLASMA_VELOCITY', 'SWITCH_PLASMA_VELOCITY_' + v)
        out.append(Native(f'{s.lower()}, {v.lower()}', 'c21.cpp', SRC + ['src/math/maxwellJuettner.cpp', 'src/math/rand.cpp'], cfg,
                          flags=[f'-DSCHEME={[0, 0, 1, 2][x]}', f'-DSPEED={list(VEL).index(v)}'], n=(300, 3000)))
    return out
