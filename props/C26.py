"""Coulomb collisions of fast particles (schemes SK98 and P12)."""
import time
import C23
from C23 import *

LEVEL = 'proof'
SCHEMES = ('SK98', 'P12')
C_ = Fraction(300000000)
LF, LFI = [z3.Function(q, z3.RealSort(), z3.RealSort()) for q in ('LF', 'LFI')]
B0, B1, B2, GAM, Q0, Q1, Q2, EA, EB, LL, TT, CX, SX, CP, SP, LA, LB = z3.Reals('b0 b1 b2 gam q0 q1 q2 ea eb LL TT CX SX CP SP la lb')
BETA, QQ = [B0, B1, B2], [Q0, Q1, Q2]


def src(s):
    return ['src/collisions.cpp', f'src/collisions/collisions{s}.cpp', 'src/phys/plasma.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp']


def load(scheme, ctx, keep):
    n = 'Collisions' + scheme
    col = dict(COL, __vptr=VPTR(f'@_ZTV{len(n)}{n}'))
    if scheme == 'P12':
        col.update(s_mean=F64, L_mean=F64, debye_mean=F64, ncol=U32)
    m = ctx.load(config(), src(scheme), list(keep) + [SQ, 'SpecieP::calc_temperature'], [f'collisions/collisions{scheme}.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], SPN,
                 {'GridV': ('Grid<std::vector<Particle *>>', GV), 'Col': (n, col)}, cflags=('-fno-access-control',))
    ex = m.exec()
    ex.contracts[m.sym(SQ)] = k_sqrt
    for f in ('map_el2cell', 'map_ion2cell'):
        for l, v in (('.o_s', 2), ('.x_size', NR), ('.y_size', NZ), ('.x_real_size', iadd(NR, 4)), ('.y_real_size', iadd(NZ, 4))):
            ex.pins[('this', '.' + f + l)] = v
    vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
    vec_pin(ex, 'geometry', '.cell_dims', [C0, C1, iadd(C0, NR), iadd(C1, NZ)])
    for f in (NR >= 1, NZ >= 1, C0 >= 0, C1 >= 0):
        ex.fact(f)
    return m, ex


def names(ctx, m):
    return list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items())


def lemmas(ctx):
    """the change of variables: momenta of a pair as momenta of the frame of its center of mass"""
    p = ctx.p
    fn = 'lemma'
    rels = [(B0, 1 - 1 / (GAM * GAM) - B1 * B1 - B2 * B2)]
    hy = [GAM >= 1, B0 * B0 + B1 * B1 + B2 * B2 == 1 - 1 / (GAM * GAM)]
    pv, e = z3.Reals('p0 p1 p2'), z3.Real('e')
    d = sum(a * b for a, b in zip(BETA, pv))
    q = [x + b * d * GAM * GAM / (GAM + 1) - b * GAM * e for x, b in zip(pv, BETA)]
    ec = GAM * (e - d)
    back = boost(q, ec)
    for i in range(3):
        p.eq(f'a boost back restores the momentum [{i}]', fn, back[0][i], pv[i], hy, rels=rels)
    p.eq('a boost back restores the energy', fn, back[1], e, hy, rels=rels)
    p.eq('a boost keeps the mass', fn, ec * ec - sum(x * x for x in q), e * e - sum(x * x for x in pv), hy, rels=rels)
    tot = [boost(QQ, EA), boost([-x for x in QQ], EB)]
    for i in range(3):
        p.eq(f'momenta opposite in that frame: total [{i}]', fn, tot[0][0][i] + tot[1][0][i], BETA[i] * GAM * (EA + EB), hy, rels=rels)
    p.eq('momenta opposite in that frame: energy', fn, tot[0][1] + tot[1][1], GAM * (EA + EB), hy, rels=rels)
    k, u, pp, bb, mm, E = z3.Reals('k u pp bb mm E')
    p.holds('energy after the collision is positive', fn, E > 0, [k > 0, pp >= 0, bb >= 0, bb < 1, mm > 0, u * u <= pp * bb, E == k + u, E * E == mm + pp], [])


def boost(q, e):
    """momentum and energy (over c) of a particle of the moving frame"""
    d = sum(a * b for a, b in zip(BETA, q))
    return [x + b * d * GAM * GAM / (GAM + 1) + b * GAM * e for x, b in zip(q, BETA)], GAM * (e + d)


RELS = [(B0, 1 - 1 / (GAM * GAM) - B1 * B1 - B2 * B2), (EA, MA * MA * R(C_ * C_) + Q0 * Q0 + Q1 * Q1 + Q2 * Q2), (EB, MB * MB * R(C_ * C_) + Q0 * Q0 + Q1 * Q1 + Q2 * Q2)]
ROT = [(LL, Q0 * Q0 + Q1 * Q1 + Q2 * Q2), (TT, Q0 * Q0 + Q1 * Q1), (SX, 1 - CX * CX), (SP, 1 - CP * CP)]


def zero(t, rels):
    n = Norm()
    for s, sq in rels:
        i = n.rf(s)
        (k, _), = i[0].items()
        n.sq[n.exps(k)[0][0]] = n.rf(sq)
    try:
        return n.is_zero_term(t)
    except Exception:
        return False


def name_apps(ts, f, table, rels):
    """name applications of f to known values, innermost first"""
    for _ in range(30):
        hit = None
        for t in ts:
            for q in apps(t, f, n=1):
                if q.decl().name() == f and not any(x.decl().name() == f for x in sub_terms(q.arg(0)) if z3.is_app(x)):
                    r = next((rep for arg, rep in table if zero(q.arg(0) - arg, rels)), None)
                    if r is not None:
                        hit = (q, R(r))
                        break
            if hit:
                break
        if not hit:
            return ts
        ts = [z3.substitute(t, hit) for t in ts]
    return ts


def has(t, pre):
    return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(pre) for x in sub_terms(t))


def angle(ts):
    """the scattering angle: its cosine and sine become one pair of numbers"""
    for _ in range(12):
        hit = None
        for t in ts:
            for q in sub_terms(t):
                if not z3.is_app(q) or q.num_args() != 1:
                    continue
                n = q.decl().name()
                if n in ('sin', 'cos') and (has(q.arg(0), 'draw_normal') or has(q.arg(0), 'draw_uniform_') and not has(q.arg(0), 'draw_uniform_angle')):
                    hit = (q, SX if n == 'sin' else CX)
                elif n in ('sin', 'cos') and z3.is_const(q.arg(0)) and q.arg(0).decl().name() == 'draw_uniform_angle_0':
                    hit = (q, SP if n == 'sin' else CP)
                elif n == 'sqrt' and has(q.arg(0), 'draw_uniform_0'):
                    for y in sub_terms(q.arg(0)):
                        if z3.is_real(y) and has(y, 'draw_uniform_0'):
                            a = z3.substitute(q.arg(0), (y, CX))
                            if not has(a, 'draw_uniform_0') and zero(a - (1 - CX * CX), []):
                                ts = [z3.substitute(z3.substitute(t, (q, SX)), (y, CX)) for t in ts]
                                hit = ()
                                break
                if hit is not None:
                    break
            if hit is not None:
                break
        if hit is None:
            return ts
        if hit:
            ts = [z3.substitute(t, hit) for t in ts]
    return ts


class Shallow:
    """could the conditions hold together, whatever their comparisons mean: z3 sees every comparison of numbers as one unknown, save linear ones over whole numbers"""

    def __init__(self):
        self.memo = {}

    def __call__(self, conds):
        s = z3.Solver()
        s.set('timeout', 300)
        for c in conds:
            if c is False:
                return False
            if isinstance(c, z3.ExprRef):
                if c.get_id() not in self.memo:
                    self.memo[c.get_id()] = (self.bare(c), c)
                s.add(self.memo[c.get_id()][0])
        return s.check() != z3.unsat

    def bare(self, c):
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE) and all(z3.is_bool(x) for x in c.children()):
            return c.decl()(*[self.bare(x) for x in c.children()])
        if c.num_args() == 0 or any(z3.is_int(x) for x in c.children()) and sum(1 for _ in zip(sub_terms(c), range(20))) < 20:
            return c
        if all(z3.is_const(x) for x in c.children()):
            return c
        return z3.Bool('cond:%d' % c.get_id())


def run_pair(ctx, scheme):
    K = f'Collisions{scheme}::'
    keep = [K + 'collide_single', 'phys::plasma::coulomb_logarithm', 'phys::rel::lorenz_factor', 'phys::rel::lorenz_factor_inv', 'vector3d<double>::operator==']
    if scheme == 'SK98':
        keep.append('phys::plasma::collision_freqency')
    m, ex = load(scheme, ctx, keep)

    def draw(name):
        def h(ex, st, A_):
            v = z3.Real(f'draw_{name}_{sum(1 for c in st.ghost.get("draws", ()) if c == name)}')
            st.ghost['draws'] = st.ghost.get('draws', ()) + (name,)
            return [(st, v)]
        return h
    for sy, d in names(ctx, m):
        if d.startswith('math::random::'):
            ex.contracts[sy] = draw(d.split('::')[2].split('(')[0])
        elif d.startswith('vector3d<double>::operator=='):
            ex.contracts[sy] = lambda ex, st, A_: [(st, z3.Bool('same'))]
    ex.contracts[m.sym('phys::rel::lorenz_factor')] = lambda ex, st, A_: [(st, LF(R(A_[0])))]
    ex.contracts[m.sym('phys::rel::lorenz_factor_inv')] = lambda ex, st, A_: [(st, LFI(R(A_[0])))]
    ex.contracts[m.sym('phys::plasma::coulomb_logarithm')] = lambda ex, st, A_: [(st, z3.Real('coulomb'))]
    if scheme == 'SK98':
        ex.contracts[m.sym('phys::plasma::collision_freqency')] = lambda ex, st, A_: [(st, z3.Real('freq'))]
    ex.feasible = Shallow()       # conditions are told apart by their text only: more paths than there are
    for f in (MA > 0, MB > 0, PX('pa', 'weight') > 0, PX('pb', 'weight') > 0):
        ex.fact(f)
    pa, pb = ex.root('pa', STRUCT('Particle')), ex.root('pb', STRUCT('Particle'))
    outs = ex.call_function(m.sym(K + 'collide_single'), [ex.root('this', STRUCT('Col')), MA, MB, QA, QB, pa, pb, NA, NB, DEB])
    return m, ex, outs, K + 'collide_single'


INDEP = {'gam': lambda g: g.uniform(1.5, 4), 'b?': lambda g: g.uniform(-.4, .4), 'b1': lambda g: g.uniform(-.4, .4), 'b2': lambda g: g.uniform(-.4, .4), 'CX': lambda g: g.uniform(-.9, .9), 'CP': lambda g: g.uniform(-.9, .9),
         'q*': lambda g: g.uniform(-5e8, 5e8), 'M*': lambda g: g.uniform(.5, 3), 'l*': lambda g: g.uniform(.2, 1)}


def eqr(p, name, fn, a, b, hyps, rels=()):
    """equality under relations; where it is not proved, look for a point of the relations that breaks it"""
    root = lambda t: z3.Function('sqrt', z3.RealSort(), z3.RealSort())(R(t))
    d = R(rsub(a, b))
    known = not any(z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() != 'sqrt' for x in sub_terms(d))
    if known and not zero(d, rels):
        d = z3.substitute(d, *[(u, root(v)) for u, v in RELS + ROT])
        if all(x.decl().name() in ('gam', 'b1', 'b2', 'q0', 'q1', 'q2', 'MA', 'MB', 'CX', 'CP', 'la', 'lb') for x in sub_terms(d) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            hit = p.sample(d, [1 - 1 / (GAM * GAM) - B1 * B1 - B2 * B2 > 0, GAM > 1], [], INDEP)
            if hit is not None:
                p.add(name, fn, 'refuted', 'sampled', time.time(), f'difference {hit[0]!r}', hit[1])
                return
    p.eq(name, fn, a, b, hyps, rels=rels)


def keeps(ctx, scheme):
    m, ex, outs, fn = run_pair(ctx, scheme)
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)), str({o.kind for o in outs}))
    for o in outs:
        if o.kind != 'ret':
            so = z3.Solver()
            so.set('timeout', 2000)
            so.add(*ex.facts, *[h for h in o.st.pc if isinstance(h, z3.ExprRef) and sum(1 for _ in zip(sub_terms(h), range(30))) < 30])
            p.fact_true('never gives up on particles that have mass', fn, so.check() == z3.unsat, o.kind, refuted=False)
    means = {('this', '.' + q) for q in ('s_mean', 'L_mean', 'debye_mean', 'ncol')} if scheme == 'P12' else set()
    V = {q: [PX(q, f) for f in VS] for q in ('pa', 'pb')}
    lab = {'pa': boost(QQ, EA), 'pb': boost([-x for x in QQ], EB)}
    par = [(v, x * R(C_) / lab[q][1]) for q in V for v, x in zip(V[q], lab[q][0])]
    mass, en, nm = {'pa': MA, 'pb': MB}, {'pa': EA, 'pb': EB}, {'pa': LA, 'pb': LB}
    hyR = [a * a == b for a, b in RELS + ROT]
    done, scattered = {}, 0
    for o in rets(outs):
        w = {(e.fam, e.leaf) for e in o.st.log if e.kind != 'op'}
        p.fact_true('frame: only the velocities of the two particles are written', fn, w <= {(q, '.' + f) for q in V for f in VS} | means, str(w))
        for q in V:
            p.fact_true(f'{q}: all of the velocity is written, or nothing', fn, len({x for x in w if x[0] == q}) in (0, 3), str(w))
        who = [q for q in ('pa', 'pb') if any(x[0] == q for x in w)]
        if not who:
            continue
        scattered += len(who) == 2
        new = [R(ex.value_at(o.st, q, '.' + f, ())) for q in who for f in VS]
        key = tuple(t.get_id() for t in new)
        if key in done:
            continue
        done[key] = new
        new = angle(new)
        key = tuple(t.get_id() for t in new)
        if key in done:
            continue
        done[key] = new
        new = name_apps(new, 'LF', [(sum(v * v for v in V[q]), lab[q][1] / (mass[q] * R(C_))) for q in V], [])
        new = [z3.substitute(t, *par) for t in new]
        new = name_apps(new, 'LF', [(R(C_ * C_) * (1 - 1 / (GAM * GAM)), GAM)], RELS)
        axis = not any(has(t, 'sqrt') and any(zero(q.arg(0) - (Q0 * Q0 + Q1 * Q1), RELS) for q in apps(t, 'sqrt', n=1)) for t in new)
        new = name_apps(new, 'sqrt', [(Q0 * Q0 + Q1 * Q1, TT), (Q0 * Q0 + Q1 * Q1 + Q2 * Q2, LL)], RELS)
        rels = RELS + ROT
        if axis:      # momentum along z, as the condition of this branch says
            zs = [(Q0, z3.RealVal(0)), (Q1, z3.RealVal(0)), (TT, z3.RealVal(0))]
            rels = [(a, z3.substitute(b, *zs)) for a, b in rels if not a.eq(TT)]
        else:
            zs = []
        hy = [a * a == b for a, b in rels] + [GAM >= 1, EA > 0, EB > 0, MA > 0, MB > 0]
        one = lambda t: z3.substitute(t, *zs) if zs else t
        rest = None
        for n, q in enumerate(who):
            v = new[3 * n:3 * n + 3]
            li = {x.get_id(): x for t in v for x in apps(t, 'LFI', n=1)}
            p.fact_true(f'{q}: velocity is the momentum times one Lorentz factor', fn, len(li) == 1, str(len(li)), refuted=False)
            if len(li) != 1:
                raise Unsupported('velocity of the momentum')
            li = next(iter(li.values()))
            x = [one(z3.substitute(t, (li, z3.RealVal(1)))) for t in v]
            for i in range(3):
                eqr(p, f'{q}: velocity is the momentum over mass and Lorentz factor [{i}]', fn, z3.substitute(v[i], (li, nm[q])), nm[q] * z3.substitute(v[i], (li, z3.RealVal(1))), hy)
            eqr(p, f'{q}: Lorentz factor of that momentum', fn, li.arg(0), sum(t * t for t in [z3.substitute(t, (li, z3.RealVal(1))) for t in v]), hy)
            # the momentum in the frame of the center of mass
            r = [z3.simplify(z3.substitute(t * mass[q], *[(b, z3.RealVal(0)) for b in BETA], (GAM, z3.RealVal(1)))) for t in x]
            want = boost(r, en[q])[0]
            for i in range(3):
                eqr(p, f'{q}: momentum comes from the frame of the center of mass [{i}]', fn, x[i] * mass[q], want[i], hy, rels=rels)
            r = [z3.substitute(t, *zs) if zs else t for t in r]
            eqr(p, f'{q}: momentum there is turned, not stretched', fn, sum(t * t for t in r), one(Q0 * Q0 + Q1 * Q1 + Q2 * Q2), hy, rels=rels)
            sg = 1 if q == 'pa' else -1
            dot = sum(a * b for a, b in zip(r, [one(t) for t in QQ])) * sg
            eqr(p, f'{q}: by the scattering angle', fn, dot, CX * one(Q0 * Q0 + Q1 * Q1 + Q2 * Q2), hy, rels=rels)
            if rest is not None:
                for i in range(3):
                    eqr(p, f'momenta there are opposite [{i}]', fn, radd(r[i], rest[i]), Fraction(0), hy, rels=rels)
            rest = r
    p.fact_true('pairs scatter', fn, scattered > 0 and bool(done), str(len(rets(outs))), refuted=False)


MEANS = tuple(('this', '.' + q) for q in ('s_mean', 'L_mean', 'debye_mean', 'ncol'))


def pairs_of(scheme):
    return lambda ctx: C23.pairs(ctx, f'Collisions{scheme}::', lambda c, keep: load(scheme, c, keep), MEANS if scheme == 'P12' else ())


def order_of(scheme):
    return lambda ctx: C23.order(ctx, f'Collisions{scheme}::', lambda c, keep: load(scheme, c, keep), [q if not q.startswith(C23.K) else f'Collisions{scheme}::collide' for q in C23.STEPS[:-1]])


def sections(tier):
    out = [('lemmas', lemmas)]
    for s in SCHEMES:
        out += [('pairs ' + s, pairs_of(s)), ('order ' + s, order_of(s))]
    out += [('one pair ' + s, lambda c, s=s: keeps(c, s)) for s in SCHEMES]
    import C07
    return out + [q for q in C07.sections(tier) if q[0] in ('lorentz factor', 'inverse lorentz factor')]


def natives(tier):
    return [Native(f'collisions {s}', 'c26.cpp', ['src/collisions.cpp', f'src/collisions/collisions{s}.cpp', 'src/phys/plasma.cpp'] + NSRC, config(), flags=['-fno-access-control', f'-D{s}'], n=(400, 6000)) for s in SCHEMES]
