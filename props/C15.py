"""Step schedule: every stage acts once on every domain and species, in the order the scheme requires."""
from smblib import *
from yeelib import vec_pin
from specielib import logop
from extract import swap, VERIF, REPO
from runner import Native
import ir

LEVEL = 'proof'
I, J, S = z3.Ints('I J S')
STAGES = {'SMB::inject_beam': ['manage_beam'], 'SMB::distribute': ['distribute'], 'SMB::solve_maxvell': ['weight_field_e', 'weight_field_h'],
          'SMB::solve_current': ['reset_current', 'weight_current'],
          'SMB::advance_particles': ['push_particles', 'dump_particle_positions_to_old', 'update_particles_coords', 'particles_back_position_to_rz',
                                     'particles_back_velocity_to_rz', 'reflect', 'bind_cell_numbers']}
WHOLE = {'SMB::solve_maxvell': ['field_e_overlay', 'field_h_overlay'], 'SMB::solve_current': ['current_overlay'], 'SMB::advance_particles': ['particles_runaway_collector']}
# (earlier, later): in one domain
LOCAL = {'SMB::solve_current': [('reset_current', 'weight_current')],
         'SMB::advance_particles': [('push_particles', 'update_particles_coords'), ('dump_particle_positions_to_old', 'update_particles_coords'),
                                    ('update_particles_coords', 'particles_back_position_to_rz'), ('push_particles', 'particles_back_velocity_to_rz'),
                                    ('particles_back_position_to_rz', 'particles_back_velocity_to_rz'), ('particles_back_position_to_rz', 'reflect'),
                                    ('particles_back_velocity_to_rz', 'reflect'), ('reflect', 'bind_cell_numbers')]}
# in every domain, before or after the whole-block operation
GLOBAL = {'SMB::solve_maxvell': [('weight_field_e', 'field_e_overlay'), ('field_e_overlay', 'weight_field_h'), ('weight_field_h', 'field_h_overlay')],
          'SMB::solve_current': [('weight_current', 'current_overlay')],
          'SMB::advance_particles': [(s, 'particles_runaway_collector') for s in STAGES['SMB::advance_particles']]}
RG = {'I': lambda g: g.randint(-1, 4), 'J': lambda g: g.randint(-1, 4), 'RD': lambda g: g.randint(1, 4), 'ZD': lambda g: g.randint(1, 4),
      'S': lambda g: g.randint(-1, 3), '*size': lambda g: g.randint(0, 3), 'k!*': lambda g: g.randint(0, 3), 'other*': lambda g: g.randint(0, 3)}


def before(m, a, b):
    """instance of op a (its own loop variables) happens before an instance of op b (variables renamed): condition"""
    ren = {}
    n = 0
    while n < len(a.loops) and n < len(b.loops) and a.loops[n].k.eq(b.loops[n].k):
        n += 1
    r = z3.BoolVal(a.order < b.order)
    skip = 0
    lv = []
    for q in range(n):
        d = parallel(m, a.loops[q])
        skip = max(skip - 1, d)
        lv.append((a.loops[q].k, skip > 0))
    for k, par in reversed(lv):
        k2 = z3.Int('other_' + str(k))
        r = z3.And(k == k2, r) if par else z3.Or(k < k2, z3.And(k == k2, r))
    return r


def inst(o, ex, ren=False):
    """(index terms, hypotheses) of an instance of op o"""
    g = cond(o.ent)
    at = list(o.at)
    if ren:
        sub = [(l.k, z3.Int('other_' + str(l.k))) for l in o.ent.loops]
        if sub:
            g = [z3.substitute(t, *sub) for t in g]
            at = [z3.substitute(t, *sub) for t in at]
    return at, g


def cond(e):
    return ([] if e.guard is True else [e.guard]) + [l.dom for l in e.loops]


class St(Op):
    def __init__(self, name, at, ent, order):
        super().__init__(name, '', at, [], ent)
        self.loops, self.order = ent.loops, order


def collect(ex, o, names, where):
    ops = []
    for n, e in enumerate(o.st.log):
        if e.kind == 'op' and e.fam in names:
            A = e.meta['a'][0]
            ops.append(St(e.fam, where(o, A), e, n))
    return ops


def dom_of(ex):
    def f(o, A):
        if A.fam.name != DD or A.off != 0 or len(A.idx) != 2:
            raise Unsupported(f'domain taken from {A}')
        return [z3.simplify(zi(ex.expand(o.st, t) if not isinstance(t, int) else t)) for t in A.idx]
    return f


def once(p, fn, nm, sel, idx, need, hy, ex):
    n = z3.Sum([z3.If(occurs(q, *idx), 1, 0) for q in sel] + [z3.IntVal(0)])
    p.holds(f'{nm} exactly once', fn, n == z3.If(need, 1, 0), hy, ex.facts, ranges=RG)


COLL = dict(ENABLE_COULOMB_COLLISIONS='true', SWITCH_COULOMB_COLLISIONS_TA77S='true')


def block(fn, ext=False, coll=False):
    def go(ctx):
        stages = list(STAGES[fn]) + (['apply_external_fields'] if ext and fn == 'SMB::solve_maxvell' else []) + (['collide'] if coll else [])
        whole = WHOLE.get(fn, [])
        cfg = config(ENABLE_EXTERNAL_FIELDS='true') if ext else config(**COLL) if coll else config()
        m, ex = load(ctx, [fn] + ['Domain::' + s for s in stages] + ['SMB::' + s for s in whole], cfg, ['src/SMB.cpp', 'src/domain.cpp'],
                     extra={'Cfg': ('Cfg', dict(particle_beams=VEC(STRUCT('Beam')))), 'Beam': ('particle_beam', dict(id=U16))})
        vec_pin(ex, 'geometry', '.domains_amount', [RD, ZD])
        for s in stages:
            ex.contracts[m.sym('Domain::' + s)] = logop(s)
        for s in whole:
            m.sym('SMB::' + s)
            for k in m.inv['SMB::' + s]:
                if m.dem[k] == f'SMB::{s}()':
                    ex.contracts[k] = logop(s)
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SMB'))])
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            pc = pc_of(ex, o)
            p.fact_true('frame: a block writes nothing itself', fn, not written(o.st), str(written(o.st)))
            ops = collect(ex, o, stages, dom_of(ex))
            wh = []
            for n, e in enumerate(o.st.log):
                if e.kind == 'op' and e.fam in whole:
                    wh.append(St(e.fam, [], e, n))
            inside = z3.And(I >= 0, J >= 0, I < RD, J < ZD)
            need = inside
            if fn == 'SMB::inject_beam':
                beams = z3.Int('cfg.particle_beams.size')
                need = z3.And(inside, beams > 0)
                pc = pc + [beams >= 0]
            for s in stages:
                once(p, fn, f'{s}: every domain', [q for q in ops if q.kind == s], (I, J), need, pc, ex)
            for s in whole:
                sel = [q for q in wh if q.kind == s]
                p.fact_true(f'{s}: once per step', fn, len(sel) == 1 and not sel[0].loops and sel[0].ent.guard is True, str([(len(q.loops), str(q.ent.guard)) for q in sel]))
            for x, y in LOCAL.get(fn, []) + ([('push_particles', 'collide'), ('collide', 'update_particles_coords')] if coll else []):
                for a in [q for q in ops if q.kind == x]:
                    for b in [q for q in ops if q.kind == y]:
                        ia, ga = inst(a, ex)
                        ib, gb = inst(b, ex, True)
                        p.holds(f'{x} before {y} in every domain', fn, before(m, a, b), ga + gb + [u == v for u, v in zip(ia, ib)] + pc, ex.facts, ranges=RG)
            for x, y in GLOBAL.get(fn, []) + ([('collide', 'particles_runaway_collector')] if coll else []):
                for a in [q for q in ops + wh if q.kind == x]:
                    for b in [q for q in ops + wh if q.kind == y]:
                        ia, ga = inst(a, ex)
                        ib, gb = inst(b, ex, True)
                        p.holds(f'{x} before {y} for the whole block', fn, before(m, a, b), ga + gb + pc, ex.facts, ranges=RG)
    return go


# ----------------------------------------------------------------- Domain: every stage acts once on every species / on its own solver
SPEC = {'update_particles_coords': ['mover_cylindrical'], 'bind_cell_numbers': ['bind_cell_numbers'], 'reflect': ['reflect'], 'particles_back_position_to_rz': ['back_position_to_rz'],
        'particles_back_velocity_to_rz': ['back_velocity_to_rz'], 'dump_particle_positions_to_old': ['dump_position_to_old'],
        'distribute': ['fullyfill_spatial_distribution', 'bind_cell_numbers', 'velocity_distribution'], 'manage_beam': ['inject']}
DLOC = {'distribute': [('fullyfill_spatial_distribution', 'bind_cell_numbers'), ('fullyfill_spatial_distribution', 'velocity_distribution')]}


def dload(ctx, keep, cfg=None, extra=None):
    coll = cfg is not None and 'ENABLE_COULOMB_COLLISIONS' in cfg
    m = ctx.load(cfg or config(), ['src/domain.cpp', 'src/specieP.cpp'] + (extra or []), keep, HDR + ['domain.hpp'], SPN,
                 {'Domain': ('Domain', dict(DOM, pusher=PTR(STRUCT('Pusher'), 'pusher'), **({'collisions': PTR(STRUCT('Col'), 'collisions')} if coll else {}))),
                  **({'Col': ('CollisionsTA77S', dict(__vptr=VPTR('@_ZTV15CollisionsTA77S')))} if coll else {}), 'MSY': ('MaxwellSolverYee', dict(__vptr=VPTR('@_ZTV16MaxwellSolverYee'), **MSY)),
                  'Current': ('CurrentVB', dict(__vptr=VPTR('@_ZTV9CurrentVB'), current=STRUCT('Grid3D'))), 'Pusher': ('PusherBoris', dict(__vptr=VPTR('@_ZTV11PusherBoris')))})
    return m, m.exec()


def species(fn):
    def go(ctx):
        F = 'Domain::' + fn
        m, ex = dload(ctx, [F] + ['SpecieP::' + s for s in SPEC[fn]])
        left = z3.Int('left')
        ex.fact(left >= 0)
        vec_pin(ex, 'this', '.geometry.cell_dims', [z3.Int('below'), left, None, None])
        for s in SPEC[fn]:
            ex.contracts[m.sym('SpecieP::' + s)] = logop(s)
        outs = ex.call_function(m.sym(F), [ex.root('this', STRUCT('Domain'))])
        p = ctx.p
        p.fact_true('returns', F, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        n = z3.Int('this.species_p.size')
        for o in rets(outs):
            pc = pc_of(ex, o) + [n >= 0]
            p.fact_true('frame: a domain writes nothing itself', F, not written(o.st), str(written(o.st)))

            def where(o, A):
                if A.fam.name != 'this.species_p[]->' or A.off != 0 or len(A.idx) != 1:
                    raise Unsupported(f'species taken from {A}')
                return [z3.simplify(zi(ex.expand(o.st, A.idx[0]) if not isinstance(A.idx[0], int) else A.idx[0]))]
            ops = collect(ex, o, SPEC[fn], where)
            need = z3.And(S >= 0, S < n)
            if fn == 'manage_beam':
                need = z3.And(need, left == 0)
            for s in SPEC[fn]:
                once(p, F, f'{s}: every species', [q for q in ops if q.kind == s], (S,), need, pc, ex)
            for x, y in DLOC.get(fn, []):
                for a in [q for q in ops if q.kind == x]:
                    for b in [q for q in ops if q.kind == y]:
                        ia, ga = inst(a, ex)
                        ib, gb = inst(b, ex, True)
                        p.holds(f'{x} before {y} for every species', F, before(m, a, b), ga + gb + [u == v for u, v in zip(ia, ib)] + pc, ex.facts, ranges=RG)
    return go


SOLVER = {'weight_field_e': ('MaxwellSolverYee::calc_field_e', 'maxwell_solver', 'src/maxwellSolver/maxwellSolverYee.cpp'),
          'weight_field_h': ('MaxwellSolverYee::calc_field_h', 'maxwell_solver', 'src/maxwellSolver/maxwellSolverYee.cpp'),
          'weight_current': ('CurrentVB::current_distribution', 'current', 'src/current/currentVB.cpp'),
          'push_particles': ('PusherBoris::operator()', 'pusher', 'src/pusher/pusherBoris.cpp'),
          'collide': ('CollisionsTA77S::operator()', 'collisions', 'src/collisions/collisionsTA77S.cpp')}


def solver(fn):
    def go(ctx):
        F = 'Domain::' + fn
        callee, fld, src = SOLVER[fn]
        m, ex = dload(ctx, [F, callee], config(**COLL) if fn == 'collide' else None, extra=[src] + (['src/collisions.cpp'] if fn == 'collide' else []))
        ex.contracts[m.sym(callee)] = logop(callee)
        outs = ex.call_function(m.sym(F), [ex.root('this', STRUCT('Domain'))])
        p = ctx.p
        p.fact_true('returns', F, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            p.fact_true('frame: a domain writes nothing itself', F, not written(o.st), str(written(o.st)))
            ops = [e for e in o.st.log if e.kind == 'op']
            p.fact_true(f'{callee} acts once', F, len(ops) == 1 and not ops[0].loops and ops[0].guard is True, str(len(ops)))
            for e in ops:
                A = e.meta['a'][0]
                p.fact_true('it is the solver of this domain', F, A.fam.name in ('this.' + fld + '->', fld) and A.off == 0, str(A), refuted=False)
    return go


def reset(ctx):
    """reset_current leaves zero in every cell of the three components, halo included"""
    F = 'Domain::reset_current'
    m, ex = dload(ctx, [F])
    NX, NY, OS = z3.Ints('NX NY OS')
    for c in ('r', 'phi', 'z'):
        for f, v in (('.o_s', OS), ('.x_size', NX), ('.y_size', NY), ('.x_real_size', NX + 2 * OS), ('.y_real_size', NY + 2 * OS)):
            ex.pins[('this.current->', f'.current.{c}_component' + f)] = v
    for f in (NX >= 2, NY >= 2, OS >= 1):
        ex.fact(f)
    outs = ex.call_function(m.sym(F), [ex.root('this', STRUCT('Domain'))])
    p = ctx.p
    p.fact_true('returns', F, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    a, b = z3.Ints('a b')
    dom = [a >= 0, a < NX + 2 * OS, b >= 0, b < NY + 2 * OS]
    fams = {f'this.current->.current.{c}_component.grid->->' for c in ('r', 'phi', 'z')}
    for o in rets(outs):
        for f in sorted(fams):
            p.eq('every cell of the current is zero, halo included', F, ex.value_at(o.st, f, '', (a, b), sh=F64), Fraction(0), dom + pc_of(ex, o), ex.facts,
                 ranges={'NX': lambda g: g.randint(2, 5), 'NY': lambda g: g.randint(2, 5), 'OS': lambda g: g.randint(1, 3), 'a': lambda g: g.randint(0, 10), 'b': lambda g: g.randint(0, 10)})
        p.fact_true('frame: only the current', F, {x for x, _ in written(o.st)} <= fams, str(written(o.st)))


MAIN = {'SMB::distribute()': 'D', 'SMB::inject_beam()': 'I', 'SMB::solve_maxvell()': 'M', 'SMB::advance_particles()': 'A', 'SMB::solve_current()': 'C', 'OutController::operator()()': 'O'}
AFTER = {'I': '', 'M': '', 'A': 'IM', 'C': 'IMA', 'O': 'IMAC'}
MTXT = {'D': 'distribution', 'I': 'injection', 'M': 'fields', 'A': 'particles', 'C': 'currents', 'O': 'output'}


def main_loop(ctx):
    """typestate of the main loop: on every path, distribution once, then any number of complete steps (data flow over the control-flow graph)"""
    F = 'main'
    txt, dem = ctx.work.module_text(config(), ['src/PiCoPiC.cpp'], [], ('-I' + VERIF + '/stubs_h5', '-fexceptions', '-include', 'iostream', '-include', 'cstring'))
    mod = ir.Module(txt)
    ctx.srcs.add('src/PiCoPiC.cpp')
    ctx.funcs.add(F)
    f = mod.funcs.get('@main')
    if f is None:
        raise Unsupported('no main')
    callee = {i.a[0][1] for b in f.blocks.values() for i in b.insts if i.op in ('call', 'invoke') and i.a[0][0] == 'g'}
    nm = ctx.work.demangle(sorted(callee))
    bad = []

    def step(st, x):
        d, seen = st
        if x == 'D':
            if d or seen:
                bad.append('distribution is repeated or late')
            return (1, seen)
        if not d:
            bad.append(MTXT[x] + ' before distribution')
        if len(seen) == 5:
            seen = frozenset()
        if x in seen:
            bad.append(MTXT[x] + ' twice in a step')
        if any(y not in seen for y in AFTER[x]):
            bad.append(f'{MTXT[x]} before ' + ', '.join(MTXT[y] for y in AFTER[x] if y not in seen))
        return (d, seen | {x})

    def flow(b, sts):
        for i in f.blocks[b].insts:
            if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                x = MAIN.get(nm.get(i.a[0][1], ''))
                if x:
                    sts = {step(s, x) for s in sts}
            elif i.op == 'ret':
                for d, seen in sts:
                    if seen and len(seen) != 5:
                        bad.append('the program ends in the middle of a step')
        return sts
    at = {f.entry: {(0, frozenset())}}
    todo = [f.entry]
    while todo:
        b = todo.pop()
        out = flow(b, at[b])
        for x in f.blocks[b].succ:
            new = at.get(x, set()) | out
            if new != at.get(x):
                at[x] = new
                todo.append(x)
    p = ctx.p
    p.fact_true('vacuity: every stage is called', F, set(MAIN.values()) <= {MAIN.get(v) for v in nm.values()}, str(sorted(nm.values()))[:200], refuted=False)
    p.fact_true('every step of every run: injection and fields, then particles, then currents, then output, each once', F, not bad, '; '.join(sorted(set(bad)))[:400])


def sections(tier):
    r = [(fn.split('::')[1], block(fn)) for fn in STAGES]
    r.append(('main loop', main_loop))
    r.append(('solve_maxvell, external fields', block('SMB::solve_maxvell', True)))
    r.append(('advance_particles, collisions', block('SMB::advance_particles', False, True)))
    r += [('domain ' + fn, species(fn)) for fn in SPEC] + [('domain ' + fn, solver(fn)) for fn in SOLVER] + [('domain reset_current', reset)]
    return r


def natives(tier):
    r = [Native('stages', 'c15.cpp', NSRC, config(), n=(60, 3000)),
         Native('main loop', 'c15main.cpp', [], config(), flags=['-I' + VERIF + '/stubs_h5', '-I' + REPO], n=(40, 2000))]
    return r
