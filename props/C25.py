"""External fields: the configured homogeneous field, in every cell of every domain, electric and magnetic independently."""
from yeelib import *
from strlib import strings, lit, STRKEEP, put
from C04 import VD, vec_contracts, put_vec, get_vec, darr, same
from C19 import grid_contracts, content, GOPS
from runner import Native
from extract import config
from smblib import zi, NSRC
import C04, C24, ir

LEVEL = 'proof'
SRCX = ['src/maxwellSolver/externalFields.cpp']
CLS = 'ExternalFields'
EF = dict(__vptr=VPTR('@_ZTV14ExternalFields'), field_e=STRUCT('Grid3D'), field_h=STRUCT('Grid3D'), geometry=G(), time=T(), epsilon=STRUCT('Grid'), sigma=STRUCT('Grid'),
          current=PTR(STRUCT('Current'), 'current'), field_h_at_et=STRUCT('Grid3D'), r_begin=U32, z_begin=U32, r_end=U32, z_end=U32, e_profile_enum=U16, m_profile_enum=U16,
          e_field_params=VEC(F64), m_field_params=VEC(F64))
SET = {'field_e': CLS + '::set_el_field_homogenous_z', 'field_h': CLS + '::set_magn_field_homogenous_z'}
PRM = {'field_e': '.e_field_params', 'field_h': '.m_field_params'}
NAMES = ('none', 'const_r', 'const_phi', 'const_z', 'linerad_r', 'linerad_z')
AMP, BMP = z3.Reals('electric_amplitude magnetic_amplitude')
a, b = z3.Ints('a b')
rl = z3.ToReal
RX = dict(RNG, a=lambda g: g.randint(0, 9), b=lambda g: g.randint(0, 9), electric_amplitude=lambda g: g.uniform(1, 2), magnetic_amplitude=lambda g: g.uniform(3, 4))
GRIDDOM = [a >= 0, a < NR + 2 * S, b >= 0, b < NZ + 2 * S]


def loadx(ctx, keep, pml=True):
    cfg = config(ENABLE_EXTERNAL_FIELDS='true')
    if not pml:
        cfg.pop('ENABLE_PML', None)
    return ctx.load(cfg, SRCX, keep, ['maxwellSolver/externalFields.hpp', 'current.hpp'], ['Grid', 'Grid3D', 'Geometry', 'TimeSim'],
                    {'EF': (CLS, EF), 'Current': ('Current', dict(current=STRUCT('Grid3D')))})


def exec_of(m, walls, begin=True):
    ex = m.exec()
    for f in ('field_e', 'field_h'):
        for c in COMP:
            grid_pins(ex, 'this', f'.{f}.{c}_component')
    for f in ('epsilon', 'sigma'):
        grid_pins(ex, 'this', '.' + f)
    geom_pins(ex, walls)
    ex.pins[('time', '.step')] = dt
    if begin:
        for f, v in (('r_begin', walls[0]), ('z_begin', walls[1]), ('r_end', isub(NR, walls[2])), ('z_end', isub(NZ, walls[3]))):
            ex.pins[('this', '.' + f)] = v
    vec_pin(ex, 'this', '.e_field_params', [AMP])
    vec_pin(ex, 'this', '.m_field_params', [BMP])
    for f in INV:
        ex.fact(f)
    return ex


def reached(walls):
    """cells of a domain (halo included) which hold the field: all but the rows of a wall and what lies behind it"""
    i, k = a - S, b - S
    c = []
    if walls[0]:
        c.append(i >= 1)
    if walls[1]:
        c.append(k >= 1)
    if walls[2]:
        c.append(i < NR - 1)
    if walls[3]:
        c.append(k < NZ - 1)
    return c


def setter(field, pml=True):
    """the component along the axis gets the configured amplitude, every other component of the field is zero, the other field is kept"""
    def go(ctx):
        fn, amp = SET[field], {'field_e': AMP, 'field_h': BMP}[field]
        m = loadx(ctx, [fn], pml)
        p = ctx.p
        for walls in product((0, 1), repeat=4):
            ex = exec_of(m, walls)
            outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('EF'))])
            w = 'walls ' + ''.join(map(str, walls)) + ': '
            p.fact_true(w + 'returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
            for o in rets(outs):
                pc = INV + GRIDDOM + pc_of(ex, o)
                fam = {c: f'this.{field}.{c}_component.grid->->' for c in COMP}
                p.fact_true(w + 'frame: only the field itself is written', fn, {x[0] for x in written(o.st)} <= set(fam.values()), str(written(o.st)))
                V = {c: ex.value_at(o.st, fam[c], '', (a, b)) for c in COMP}
                for c in ('r', 'phi'):
                    p.eq(w + f'the {c} component is zero everywhere', fn, V[c], z3.RealVal(0), pc, ex.facts, ranges=RX)
                c = reached(walls)
                p.eq(w + 'the field along the axis has the configured amplitude in every cell off the walls, halo included', fn, V['z'], amp, pc + c, ex.facts, ranges=RX)
                if c:
                    p.eq(w + 'no field in and behind a wall', fn, V['z'], z3.RealVal(0), pc + [z3.Not(z3.And(*c))], ex.facts, ranges=RX)
    return go


def apply(ctx):
    """operator(): each field is set by its own profile"""
    fn = CLS + '::operator()'
    m = loadx(ctx, [fn] + list(SET.values()))
    p = ctx.p
    for pe, pm in product(range(len(NAMES)), repeat=2):
        ex = exec_of(m, (0, 0, 0, 0))
        ex.pins[('this', '.e_profile_enum')] = pe
        ex.pins[('this', '.m_profile_enum')] = pm
        for f, s in SET.items():
            def h(ex, st, A, f=f):
                st.log.append(Ent('op', f, '', (), None, meta=dict(this=A[0])))
                return [(st, None)]
            ex.contracts[m.sym(s)] = h
        this = ex.root('this', STRUCT('EF'))
        outs = ex.call_function(m.sym(fn), [this])
        w = f'electric {NAMES[pe]}, magnetic {NAMES[pm]}: '
        p.fact_true(w + 'returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            p.fact_true(w + 'frame', fn, not written(o.st), str(written(o.st)))
            ops = [e for e in o.st.log if e.kind == 'op']
            got = sorted(e.fam for e in ops)
            want = [f for f, k in (('field_e', pe), ('field_h', pm)) if k == 3]
            p.fact_true(w + 'exactly the fields with a homogeneous longitudinal profile are set, once each', fn, got == want and all(not e.loops and e.guard is True and same(e.meta['this'], this) for e in ops), str(got))


def ctor(pml):
    def go(ctx):
        fn = CLS + '::' + CLS
        PML = CLS + '::set_pml'
        vops = [VD + '::' + q for q in ('vector', '~vector', 'operator=')]
        m = loadx(ctx, [fn, PML] + GOPS + STRKEEP + vops, pml)
        p = ctx.p
        fs = [sy for sy in m.inv[fn] if 'Geometry*' in m.dem[sy] and 'C2' in sy]
        if len(fs) != 1:
            raise Unsupported('constructor')
        ctx.funcs.add(fn)
        et, mt = z3.Ints('electric_name magnetic_name')
        ep, mp = z3.Reals('ep0 ep1'), z3.Reals('mp0 mp1')
        for walls in product((0, 1), repeat=4):
            ex = exec_of(m, walls, False)
            grid_contracts(ex, m)
            strings(ctx, m, ex)
            vec_contracts(ex, m)

            def asg(ex, st, A):
                put_vec(ex, st, A[0], darr(ex, st, get_vec(ex, st, A[1], 8, 'd'), 8), 8 * len(get_vec(ex, st, A[1], 8, 'd')))
                return [(st, A[0])]
            for sy in m.inv.get(VD + '::operator=', []):
                ex.contracts[sy] = asg
            for sy in m.inv.get(VD + '::vector', []):
                if m.dem[sy].endswith('::vector()'):
                    ex.contracts[sy] = lambda ex, st, A: [(st, None)]
            for sy in m.inv.get(PML, []):
                ex.contracts[sy] = lambda ex, st, A: [(st, None)]     # writes the conductivity only: section layers
            st = State()
            this = ex.new_local(st, 'fields', m.lay.size(STRUCT('EF')))
            es, ms = ex.new_local(st, 'electric', 32), ex.new_local(st, 'magnetic', 32)
            put(ex, st, es, et)
            put(ex, st, ms, mt)
            vs = []
            for v in (ep, mp):
                x = ex.new_local(st, 'params', 24)
                put_vec(ex, st, x, darr(ex, st, list(v), 8), 16)
                vs.append(x)
            ga, ta = ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim'))
            known = z3.And(*[z3.Or(*[t == lit(n) for n in (NAMES if not any(walls) else NAMES[:1])]) for t in (et, mt)])
            outs = ex.call_function(fs[0], [this, ga, ta, es, ms] + vs, st, pc=[known])
            w = 'walls ' + ''.join(map(str, walls)) + ': '
            p.fact_true(w + 'returns', fn, bool(rets(outs)))
            L = lambda o, f, ty: ex.load(o.st, this.add(m.lay.offset('EF', f)[0]), ty)
            for o in outs:
                if o.kind != 'ret':
                    p.holds(w + 'a known profile is not refused', fn, z3.BoolVal(False), [known] + pc_of(ex, o), ex.facts)
                    continue
                hy = INV + [known] + pc_of(ex, o)
                p.fact_true(w + 'frame: only the object itself is written', fn, not written(o.st), str(written(o.st)))
                for f, t in (('e_profile_enum', et), ('m_profile_enum', mt)) if not any(walls) else ():
                    v = zi(L(o, f, ir.Ty('int', 16)))
                    for n, nm in enumerate(NAMES):
                        p.holds(w + f'{f}: profile {nm} is recognised by its name', fn, z3.Implies(t == lit(nm), v == n), hy, ex.facts)
                for f, want in (('e_field_params', ep), ('m_field_params', mp)):
                    v = get_vec(ex, o.st, this.add(m.lay.offset('EF', f)[0]), 8, 'd')
                    p.fact_true(w + f'{f}: as many as configured', fn, len(v) == len(want), str(len(v)))
                    for n, (x, y) in enumerate(zip(v, want)):
                        p.eq(w + f'{f}[{n}] is the configured one', fn, x, y, hy, ex.facts)
                for f, v in (('r_begin', walls[0]), ('z_begin', walls[1]), ('r_end', NR - walls[2]), ('z_end', NZ - walls[3])):
                    x = L(o, f, ir.Ty('int', 32))
                    p.eq(w + f'{f} leaves out exactly the cells of a wall', fn, Fraction(x) if isinstance(x, int) else rl(x), Fraction(v) if isinstance(v, int) else rl(v), hy, ex.facts, ranges=RX)
                for f in ('field_e', 'field_h'):
                    content(ctx, ex, m, o.st, fn, this, 'EF', f, Fraction(0), 'zero', hy)
                for f, x in (('geometry', ga), ('time', ta)):
                    q = L(o, f, ir.PTR)
                    p.fact_true(w + f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam is x.fam and q.off == x.off, str(q))
    return go


def layers(ctx):
    """set_pml touches the conductivity only, never a field"""
    fn = CLS + '::set_pml'
    m = loadx(ctx, [fn, 'Geometry::dist_x_to_end', 'Geometry::dist_y_to_end'])
    ex = exec_of(m, (0, 0, 0, 0))
    for d in ('x', 'y'):
        k = f'Geometry::dist_{d}_to_end'
        ex.contracts[m.sym(k)] = lambda ex, st, A, d=d: [(st, ex.uf('dist_' + d, (zi(A[1]),), 'r'))]
    ps = z3.Ints('pml0 pml1 pml2 pml3')
    vec_pin(ex, 'geometry', '.pml_size', list(ps))
    vec_pin(ex, 'geometry', '.pml_sigma', list(z3.Reals('sigma0 sigma1')))
    gs = z3.Reals('gs0 gs1')
    vec_pin(ex, 'geometry', '.global_size', list(gs))
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('EF'))], pc=[q >= 0 for q in ps])
    p = ctx.p
    p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        p.fact_true('frame: only the conductivity is written', fn, {x[0] for x in written(o.st)} <= {'this.sigma.grid->->'}, str(written(o.st)))


def lemma(ctx):
    """the field of a cell depends on the cell of the whole space only, not on the domain whose copy is read"""
    p = ctx.p
    GR, GZ, gi, gk = z3.Ints('GR GZ gi gk')
    here = z3.And(gi >= 1, gi < GR - 1, gk >= 1, gk < GZ - 1)
    inside = [gi >= 0, gi < GR, gk >= 0, gk < GZ]
    for walls in product((0, 1), repeat=4):
        # walls stand exactly at the edges of the space (C04); other domains have at least three cells
        at = [C0 == 0 if walls[0] else C0 >= 3, C1 == 0 if walls[1] else C1 >= 3, C0 + NR == GR if walls[2] else C0 + NR <= GR - 3, C1 + NZ == GZ if walls[3] else C1 + NZ <= GZ - 3]
        c = z3.substitute(z3.And(*reached(walls)) if reached(walls) else z3.BoolVal(True), (a, gi - C0 + S), (b, gk - C1 + S))
        dom = [z3.substitute(q, (a, gi - C0 + S), (b, gk - C1 + S)) for q in GRIDDOM]
        p.holds(f'walls {"".join(map(str, walls))}: a copy holds the field exactly where the whole space does', 'lemma', c == here, INV + at + dom + inside)


def sections(tier):
    return [('electric', setter('field_e')), ('magnetic', setter('field_h')), ('apply', apply), ('constructor', ctor(True)), ('constructor without layers', ctor(False)), ('layers', layers),
            ('lemma', lemma), ('configuration', C24.external), ('every domain', C04.smb(False, True))] + \
        [(f'domain {c} {q}', C04.domain(c, q, True)) for c, q in (('CurrentVB', 'PusherBoris'), ('CurrentZigZag', 'PusherVay'), ('CurrentVB', 'PusherHC'))]


def natives(tier):
    return [Native('external fields', 'c25.cpp', SRCX + SRC, config(ENABLE_EXTERNAL_FIELDS='true'), n=(2000, 200000)),
            Native('blocks', 'c25b.cpp', NSRC + SRCX, config(ENABLE_EXTERNAL_FIELDS='true'), flags=['-fno-access-control'], n=(300, 20000))]
