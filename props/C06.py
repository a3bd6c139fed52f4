"""Particle pushers: Lorentz-force update."""
from extract import config, swap
from lib import *
from runner import Native

LEVEL = 'proof'
SRC = ['src/phys/rel.cpp', 'src/algo/common.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp']
P = 'this.species_p[]->.particles[]->'
VEL = ('.vel_r', '.vel_phi', '.vel_z')


def by_receiver(n):
    a, b = field_contract(n), field_contract(n + 'ext')

    def h(ex, st, A):
        return (b if 'external' in A[1].fam.name else a)(ex, st, A)
    return h


def setup(ctx, cfgname, cls, ext):
    cfg = swap(config(), 'SWITCH_PUSHER', cfgname)
    if ext:
        cfg['ENABLE_EXTERNAL_FIELDS'] = 'true'
        cfg['SWITCH_EXTERNAL_FIELDS_CONST'] = 'true'
    kind = {'PusherBoris': 'pusherBoris', 'PusherVay': 'pusherVay', 'PusherHC': 'pusherHC'}[cls]
    srcs = [f'src/pusher/{kind}.cpp'] + SRC + (['src/maxwellSolver/externalFields.cpp'] if ext else [])
    keep = ['phys::rel::lorenz_factor', 'phys::rel::lorenz_factor_inv', 'algo::common::sq_rt', cls + '::operator()',
            'MaxwellSolver::get_field_e', 'MaxwellSolver::get_field_h', 'MaxwellSolverYee::get_field_e',
            'MaxwellSolverYee::get_field_h', 'ExternalFields::get_field_e', 'ExternalFields::get_field_h']
    fields = dict(maxwell_solver=PTR(STRUCT('MS')), time=PTR(STRUCT('TimeSim'), 'time'), species_p=VEC(PTR(STRUCT('SpecieP'))))
    extra = {'MS': ('MaxwellSolverYee', dict(__vptr=VPTR('@_ZTV16MaxwellSolverYee')))}
    if ext:
        fields['external_fields'] = PTR(STRUCT('EF'))
        extra['EF'] = ('ExternalFields', dict(__vptr=VPTR('@_ZTV14ExternalFields')))
    extra['Pusher'] = (cls, fields)
    m = ctx.load(cfg, srcs, keep, [f'pusher/{kind}.hpp', 'maxwellSolver/maxwellSolverYee.hpp'],
                 ['Particle', 'Grid', 'Grid3D', 'Geometry', 'TimeSim', 'SpecieP'], extra)
    ex = m.exec()
    for c, n in (('e', 'E'), ('h', 'H')):
        for base in ('MaxwellSolver', 'MaxwellSolverYee', 'ExternalFields'):
            if m.has(f'{base}::get_field_{c}'):
                ex.contracts[m.sym(f'{base}::get_field_{c}')] = by_receiver(n)
    ex.contracts[m.sym('phys::rel::lorenz_factor')] = k_gamma
    ex.contracts[m.sym('phys::rel::lorenz_factor_inv')] = k_gamma_inv
    if m.has('algo::common::sq_rt'):
        ex.contracts[m.sym('algo::common::sq_rt')] = k_sqrt
    return m, ex


def spec_state(ex, ext):
    i, j = z3.Ints('i j')
    f = lambda nm: ex.uf(P + nm, (i, j), 'r')
    v = [f(x) for x in VEL]
    r, z = f('.pos_r'), f('.pos_z')
    q, m = ex.uf('this.species_p[]->.charge', (i,), 'r'), ex.uf('this.species_p[]->.mass', (i,), 'r')
    dt = z3.Real('time.step')
    fn = lambda n, k: z3.Function(f'{n}{k}', z3.RealSort(), z3.RealSort(), z3.RealSort())(r, z)
    E = [fn('E', k) for k in range(3)]
    H = [fn('H', k) for k in range(3)]
    if ext:
        E = vadd(E, [fn('Eext', k) for k in range(3)])
        H = vadd(H, [fn('Hext', k) for k in range(3)])
    ns = z3.Int('this.species_p.size')
    npt = ex.uf('this.species_p[]->.particles.size', (i,), 'i')
    dom = [i >= 0, i < ns, j >= 0, j < npt]
    a = R(q) * dt / (2 * R(m))
    return i, j, v, E, H, a, dom, r, z


def gam(ex, v2):
    return rdiv(Fraction(1), ex.sqrt(Fraction(1) - rdiv(v2, C2)))


def igam(ex, u2):
    return rdiv(Fraction(1), ex.sqrt(Fraction(1) + rdiv(u2, C2)))


def rot(um, t):
    """Cayley rotation: the solution of u+ - u- = (u+ + u-) x t"""
    s = rdiv(Fraction(2), radd(Fraction(1), dot(t, t)))
    up = vadd(um, cross(um, t))
    return vadd(um, vscale(s, cross(up, t)))


RANGES = {'time.step': lambda g: g.uniform(.1, 1), 'this.species_p.size': lambda g: g.randint(1, 3), 'i': lambda g: 0, 'j': lambda g: 0,
          'this.species_p[]->.particles.size': lambda g: 2,
          'this.species_p[]->.mass': lambda g: g.uniform(.5, 2),
          'this.species_p[]->.charge': lambda g: g.uniform(-2, 2),
          P + '.vel_*': lambda g: g.choice([1e7, 1e8]) * g.uniform(-1, 1),
          'E0': lambda g: 1e8 * g.uniform(-1, 1), 'E1': lambda g: 1e8 * g.uniform(-1, 1), 'E2': lambda g: 1e8 * g.uniform(-1, 1),
          'Eext*': lambda g: 1e8 * g.uniform(-1, 1),
          'H*': lambda g: 1e6 * g.uniform(-1, 1)}


def section(cfgname, cls, kind, ext):
    def go(ctx):
        m, ex = setup(ctx, cfgname, cls, ext)
        fn = cls + '::operator()'
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Pusher'))])
        p = ctx.p
        i, j, v, E, H, a, dom, r, z = spec_state(ex, ext)
        v2 = dot(v, v)
        lim = Fraction(5 * 10 ** 7) ** 2
        pre = dom + [z3.Real('time.step') > 0, ex.uf('this.species_p[]->.mass', (i,), 'r') > 0, v2 < R(C2)]
        rr = rets(outs)
        p.fact_true('frame: a push writes particle velocities only', fn,
                    bool(rr) and all(x in {(P, l) for l in VEL} for o in rr for x in written(o.st)),
                    str({x for o in rr for x in written(o.st)}))
        p.satisfiable('pusher precondition', fn, pre, ex.facts)
        # specification
        ga = gam(ex, v2)
        t = vscale(rmul(a, MU0), H)
        def boris_rel():
            um = vadd(vscale(ga, v), vscale(a, E))
            g = igam(ex, dot(um, um))
            U = vadd(rot(um, vscale(g, t)), vscale(a, E))
            return U, um
        if kind == 'classic':
            cuts = []
            cases = [('', [], vadd(rot(vadd(v, vscale(a, E)), t), vscale(a, E)))]
        elif kind in ('rel', 'adaptive'):
            U, _ = boris_rel()
            cuts = []
            wr = vscale(igam(ex, dot(U, U)), U)
            cases = [('relativistic: ', [v2 > R(lim)] if kind == 'adaptive' else [], wr)]
            if kind == 'adaptive':
                cases.append(('classical: ', [v2 <= R(lim)], vadd(rot(vadd(v, vscale(a, E)), t), vscale(a, E))))
        elif kind == 'vay':
            u = vscale(ga, v)
            gi = igam(ex, dot(u, u))
            up = vadd(vadd(u, vscale(rmul(2, a), E)), vscale(gi, cross(u, t)))
            sg = rsub(radd(Fraction(1), rdiv(dot(up, up), C2)), dot(t, t))
            us = rdiv(rmul(dot(up, t), dot(up, t)), C2)
            g1 = ex.sqrt(rmul(Fraction(1, 2), radd(sg, ex.sqrt(radd(rmul(sg, sg), rmul(4, radd(dot(t, t), us)))))))
            tt = vscale(rdiv(Fraction(1), g1), t)
            s = rdiv(Fraction(1), radd(Fraction(1), dot(tt, tt)))
            U = vscale(s, vadd(vadd(up, vscale(dot(up, tt), tt)), cross(up, tt)))
            cuts = [a] + t + u + vscale(rmul(2, a), E) + [gi] + up + [sg, us, dot(t, t), g1, rdiv(Fraction(1), g1)] + tt + U
            cases = [('', [], vscale(igam(ex, dot(U, U)), U))]
        else:
            um = vadd(vscale(ga, v), vscale(a, E))
            sg = rsub(radd(Fraction(1), rdiv(dot(um, um), C2)), dot(t, t))
            us = rdiv(rmul(dot(um, t), dot(um, t)), C2)
            g1 = ex.sqrt(rmul(Fraction(1, 2), radd(sg, ex.sqrt(radd(rmul(sg, sg), rmul(4, radd(dot(t, t), us)))))))
            tt = vscale(rdiv(Fraction(1), g1), t)
            up = rot(um, tt)
            U = vadd(up, vscale(a, E))
            cuts = [a] + t + vscale(a, E) + vscale(ga, v) + um + [dot(um, um), sg, us, dot(t, t), g1, rdiv(Fraction(1), g1)] + tt + up + U
            cases = [('', [], vscale(igam(ex, dot(U, U)), U))]
        for o in rr:
            w = [ex.value_at(o.st, P, l, (i, j)) for l in VEL]
            for nm, hy, spec in cases:
                for k in range(3):
                    p.eq(f'{nm}new velocity component {k} is the {kind} update of the old one', fn, w[k], spec[k],
                         hyps=pre + hy, facts=ex.facts, ranges=RANGES, cuts=cuts)
    return go


def lemmas(ctx):
    """the contracts above imply the physical guarantees"""
    p = ctx.p
    ex = Exec(None, None)
    f = lambda n: [z3.Real(n + str(k)) for k in range(3)]
    um, t, u = f('um'), f('t'), f('u')
    up = rot(um, t)
    p.eq('lemma: the rotation preserves the momentum magnitude (B does no work)', 'lemma', dot(up, up), dot(um, um))
    lhs, rhs = [rsub(x, y) for x, y in zip(up, um)], cross(vadd(up, um), t)
    for k in range(3):
        p.eq(f'lemma: u+ - u- = (u+ + u-) x t, component {k}', 'lemma', lhs[k], rhs[k])
    z0 = [Fraction(0)] * 3
    q = rot(um, z0)
    for k in range(3):
        p.eq(f'lemma: no magnetic field, no rotation, component {k}', 'lemma', q[k], um[k])
    v = f('v')
    ga = gam(ex, dot(v, v))
    U = vscale(ga, v)
    w = vscale(igam(ex, dot(U, U)), U)
    hy = [dot(v, v) < R(C2)]
    p.holds('lemma: gamma(v) > 0', 'lemma', ga > 0, hy, ex.facts)
    g = z3.Real('g')
    # 1/sqrt(1 + g^2 v^2/c^2) with g = 1/sqrt(1 - v^2/c^2) equals 1/g
    V2 = z3.Real('V2')
    s1 = ex.sqrt(1 - V2 / R(C2))
    s2 = ex.sqrt(1 + V2 / R(C2) / (1 - V2 / R(C2)))
    p.holds('lemma: momentum -> velocity inverts velocity -> momentum', 'lemma', s1 * s2 == 1,
            [V2 >= 0, V2 < R(C2), s1 > 0, s1 * s1 == 1 - V2 / R(C2), s2 >= 0, s2 * s2 * (1 - V2 / R(C2)) == 1], [])
    # Vay / Higuera-Cary: g1 solves its defining quartic, so the rotated momentum has gamma g1
    sg, b2, us = z3.Reals('sg b2 us')
    s = ex.sqrt(sg * sg + 4 * (b2 + us))
    g1 = ex.sqrt(Fraction(1, 2) * (sg + s))
    p.eq('lemma: g1^4 - sigma g1^2 - (tau^2 + u*^2) = 0', 'lemma', g1 * g1 * g1 * g1 - sg * g1 * g1, b2 + us)


VARIANTS = [('SWITCH_PUSHER_BORIS', 'PusherBoris', 'classic'), ('SWITCH_PUSHER_BORIS_RELATIVISTIC', 'PusherBoris', 'rel'),
            ('SWITCH_PUSHER_BORIS_ADAPTIVE', 'PusherBoris', 'adaptive'), ('SWITCH_PUSHER_VAY', 'PusherVay', 'vay'),
            ('SWITCH_PUSHER_HC', 'PusherHC', 'hc')]


def built(cfgname, cls, ext):
    """constructor: the pusher keeps the solver, the external fields, the species and the clock it is given"""
    def go(ctx):
        import ir
        fn = f'{cls}::{cls}'
        VS = 'std::vector<SpecieP*, std::allocator<SpecieP*>>'
        cfg = swap(config(), 'SWITCH_PUSHER', cfgname)
        if ext:
            cfg['ENABLE_EXTERNAL_FIELDS'] = 'true'
        kind = {'PusherBoris': 'pusherBoris', 'PusherVay': 'pusherVay', 'PusherHC': 'pusherHC'}[cls]
        fields = dict(maxwell_solver=U64, time=U64, species_p=VEC(U64), **(dict(external_fields=U64) if ext else {}))
        m = ctx.load(cfg, ['src/domain.cpp'], [fn] + [VS + '::' + q for q in ('vector', '~vector', 'operator=')], [f'pusher/{kind}.hpp', 'maxwellSolver/maxwellSolverYee.hpp'],
                     ['Geometry', 'TimeSim'], {'Pusher': (cls, fields)})
        ex = m.exec()
        for sy in m.inv.get(VS + '::vector', []):
            def vec(ex, st, A):
                if len(A) > 1:
                    ex.store(st, A[0], ex.load(st, A[1], ir.PTR), ir.PTR)
                return [(st, None)]
            ex.contracts[sy] = vec
        for sy in m.inv.get(VS + '::~vector', []):
            ex.contracts[sy] = lambda ex, st, A: [(st, None)]

        def asg(ex, st, A):
            ex.store(st, A[0], ex.load(st, A[1], ir.PTR), ir.PTR)
            return [(st, A[0])]
        for sy in m.inv.get(VS + '::operator=', []):
            ex.contracts[sy] = asg
        st = State()
        this, sp = ex.new_local(st, 'pusher', m.lay.size(STRUCT('Pusher'))), ex.new_local(st, 'species', 24)
        args = dict(maxwell_solver=ex.root('solver', STRUCT('Geometry')), external_fields=ex.root('external', STRUCT('Geometry')), species_p=sp, time=ex.root('time', STRUCT('TimeSim')))
        inner = ex.root('elements', STRUCT('Geometry'))
        ex.store(st, sp, inner, ir.PTR)
        if not ext:
            args.pop('external_fields')
        fs = [sy for sy in m.inv[fn] if 'MaxwellSolver*' in m.dem[sy]]
        fs = [sy for sy in fs if 'C2' in sy] or fs
        ctx.funcs.add(fn)
        outs = ex.call_function(fs[0], [this] + list(args.values()), st)
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            p.fact_true('frame', fn, not written(o.st), str(written(o.st)))
            for f, v in args.items():
                q = ex.load(o.st, this.add(m.lay.offset('Pusher', f)[0]), ir.PTR)
                w = inner if f == 'species_p' else v
                p.fact_true(f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam is w.fam and q.off == w.off, str(q))
    return go


def sections(tier):
    out = [('lemmas', lemmas)]
    for c, cls, k in VARIANTS:
        out.append((f'{cls}/{k}', section(c, cls, k, False)))
        out += [(f'{cls}/{k} construction' + (', external fields' if x else ''), built(c, cls, x)) for x in (False, True)]
    for c, cls, k in VARIANTS:
        out.append((f'{cls}/{k}+external', section(c, cls, k, True)))
    return out


def natives(tier):
    out = []
    for c, cls, k in VARIANTS:
        kind = {'PusherBoris': 'pusherBoris', 'PusherVay': 'pusherVay', 'PusherHC': 'pusherHC'}[cls]
        out.append(Native(f'c06 {k}', 'c06.cpp', [f'src/pusher/{kind}.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp',
                          'src/maxwellSolver/maxwellSolverYee.cpp'], swap(config(), 'SWITCH_PUSHER', c), n=(3000, 200000)))
    return out
