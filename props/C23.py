"""Coulomb collisions (Takizuka-Abe scheme)."""
import math
from norm import Norm
from functools import reduce
from specielib import *
from smblib import zi, has_var
from sym import Ent
from C05 import PV
from strlib import *
from extract import config, VERIF
from runner import Native

LEVEL = 'proof'
CS = ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/phys/plasma.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp']
K = 'CollisionsTA77S::'
HBAR = Fraction('6.6261e-34')
QE = Fraction(16, 10 ** 20)
NR, NZ, C0, C1 = z3.Ints('NR NZ c0 c1')
GV = dict(grid=PTR(DYN(PTR(DYN(VEC(PTR(STRUCT('Particle'))))))), o_s=U32, x_real_size=U32, y_real_size=U32, x_size=U32, y_size=U32)
COL = dict(__vptr=VPTR('@_ZTV15CollisionsTA77S'), mass_el=F64, mass_ion=F64, charge_el=F64, charge_ion=F64, species_p=VEC(PTR(STRUCT('SpecieP'))), specie_el=PTR(STRUCT('SpecieP'), 'sel'),
           specie_ion=PTR(STRUCT('SpecieP'), 'sion'), map_el2cell=STRUCT('GridV'), map_ion2cell=STRUCT('GridV'), energy_tot_el=STRUCT('Grid'), amount_tot_el=STRUCT('Grid'),
           moment_tot_el=STRUCT('Grid3D'), energy_tot_ion=STRUCT('Grid'), amount_tot_ion=STRUCT('Grid'), moment_tot_ion=STRUCT('Grid3D'), geometry=G(), time=T())


def cload(ctx, keep):
    m = ctx.load(config(), CS, list(keep) + [SQ, 'SpecieP::calc_temperature'], ['collisions/collisionsTA77S.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], SPN,
                 {'GridV': ('Grid<std::vector<Particle *>>', GV), 'Col': ('CollisionsTA77S', COL)}, cflags=('-fno-access-control',))
    ex = m.exec()
    ex.contracts[m.sym(SQ)] = k_sqrt
    for f in ('map_el2cell', 'map_ion2cell', 'energy_tot_el', 'amount_tot_el', 'energy_tot_ion', 'amount_tot_ion') + tuple(f'moment_tot_{s}.{c}_component' for s in ('el', 'ion') for c in ('r', 'phi', 'z')):
        for l, v in (('.o_s', 2), ('.x_size', NR), ('.y_size', NZ), ('.x_real_size', iadd(NR, 4)), ('.y_real_size', iadd(NZ, 4))):
            ex.pins[('this', '.' + f + l)] = v
    vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
    vec_pin(ex, 'geometry', '.cell_dims', [C0, C1, iadd(C0, NR), iadd(C1, NZ)])
    vec_pin(ex, 'geometry', '.cell_size', [z3.Real('dr'), z3.Real('dz')])
    for f in (NR >= 1, NZ >= 1, C0 >= 0, C1 >= 0):
        ex.fact(f)
    return m, ex


A, B, J = z3.Ints('A B J')
CELL = [A >= 0, B >= 0, A < NR, B < NZ]
VS = ('vel_r', 'vel_phi', 'vel_z')
PF = {s: f'this.map_{s}2cell.grid->->[]->' for s in ('el', 'ion')}
SZ = {s: (lambda a, b, s=s: z3.Function(f'this.map_{s}2cell.grid->->.size', z3.IntSort(), z3.IntSort(), z3.IntSort())(a + 2, b + 2)) for s in ('el', 'ion')}
RN = {'NR': lambda g: 4, 'NZ': lambda g: 4, 'A': lambda g: g.randint(0, 3), 'B': lambda g: g.randint(0, 3), 'J': lambda g: g.randint(0, 3), 'this.mass_*': lambda g: g.uniform(.5, 2),
      'S_*_w*': lambda g: g.uniform(4, 5), 'this.energy_tot*': lambda g: g.uniform(30, 60), 'S_*_v?v?': lambda g: g.uniform(20, 40), '*': lambda g: g.uniform(-1, 1)}


def part(s, f, a=None, b=None, j=J):
    return z3.Function(PF[s] + '.' + f, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())((A if a is None else a) + 2, (B if b is None else b) + 2, j)


def tot(s, what):
    return z3.Function(f'this.{what}_{s}.grid' if False else TOT[s, what], z3.IntSort(), z3.IntSort(), z3.RealSort())(A + 2, B + 2)


TOT = {}
for _s in ('el', 'ion'):
    TOT[_s, 'w'] = f'this.amount_tot_{_s}.grid->->'
    TOT[_s, 'e'] = f'this.energy_tot_{_s}.grid->->'
    for _c in ('r', 'phi', 'z'):
        TOT[_s, _c] = f'this.moment_tot_{_s}.{_c}_component.grid->->'


def apps(t, pre, out=None, n=3):
    """applications of functions whose name starts with pre"""
    out = {} if out is None else out
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or not isinstance(x, z3.ExprRef):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(pre) and x.num_args() == n:
            out[x.get_id()] = x
        st.extend(x.children())
    return list(out.values())


def sums_of(p, ex, o, fn, t, hy):
    """replace the sums over the particles of a cell in t by the moments of that cell: sum of weight times a monomial of the velocity"""
    for _ in range(40):
        at = {}
        atoms(t, at)
        su = [ex.sums[q] for q in at if q in ex.sums]
        if not su:
            return t
        sym, acc, v0, new, lv = su[0]
        if len(new) != 1:
            raise Unsupported('sum in several ways')
        g, nv = new[0]
        x = ex.expand(o.st, nv)
        u = z3.simplify(R(rsub(x, acc)))
        pa = apps(u, 'this.map_')
        if not pa or len({z3.simplify(q.arg(0)).get_id() for q in pa}) != 1:
            raise Unsupported('sum over something else')
        s = 'ion' if pa[0].decl().name().startswith(PF['ion']) else 'el'
        X, Y = pa[0].arg(0), pa[0].arg(1)
        sub = []
        for c, w in ((X, A), (Y, B)):
            q = {}
            atoms(c, q)
            q = [z for z in q.values() if z3.is_int(z)]
            if len(q) != 1:
                raise Unsupported('cell of the sum')
            sub.append((q[0], w))
        u = z3.simplify(z3.substitute(u, *sub))
        k = lv.k
        dom = [k >= 0, k < SZ[s](A, B)] + CELL
        p.fact_true('sums start from zero', fn, z3.is_rational_value(R(v0)) and R(v0).as_fraction() == 0, str(v0), refuted=False)
        p.holds('sums run over all particles of the cell', fn, z3.substitute(ex.expand(o.st, lv.dom), *sub) == z3.And(k >= 0, k < SZ[s](A, B)), hy + [SZ[s](A, B) >= 0, SZ[s](A, B) < 2 ** 31], ex.facts)
        if g is not True:
            p.holds('every particle counts', fn, z3.substitute(ex.expand(o.st, g), *sub), hy + dom, ex.facts)
        v = [part(s, f, j=k) for f in VS]
        w = part(s, 'weight', j=k)
        one = lambda vals, ww=1: z3.simplify(z3.substitute(u, *[(z3.simplify(q), z3.RealVal(x)) for q, x in zip(v, vals)], (z3.simplify(w), z3.RealVal(ww))))
        e = lambda *nz: [sum(q[1] for q in nz if q[0] == i) for i in range(3)]
        c = {(): one(e())}
        for i in range(3):
            c[i,] = (one(e((i, 1))) - one(e((i, -1)))) / 2
            c[i, i] = (one(e((i, 1))) + one(e((i, -1)))) / 2 - c[()]
        for i in range(3):
            for l in range(i + 1, 3):
                c[i, l] = one(e((i, 1), (l, 1))) - c[()] - c[i,] - c[l,] - c[i, i] - c[l, l]
        rec, rep = z3.RealVal(0), z3.RealVal(0)
        for mono, co in c.items():
            co = z3.simplify(co)
            if z3.is_rational_value(co) and co.as_fraction() == 0:
                continue
            f = co * w
            for i in mono:
                f = f * v[i]
            rec, rep = rec + f, rep + co * z3.Real(f'S_{s}_w' + ''.join(f'v{i}' for i in mono))
        p.eq('sums are moments of the particles of the cell', fn, u, rec, hy + dom, ex.facts, ranges=RN)
        t = z3.substitute(t, (sym, rep))
    raise Unsupported('too many sums')


def decide(x, hy, name=None):
    """resolve conditions that the hypotheses settle"""
    for _ in range(60):
        todo, seen, hit = [x], set(), None
        while todo:
            q = todo.pop()
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_ITE:
                for val, c in ((1, q.arg(0)), (2, z3.Not(q.arg(0)))):
                    so = z3.Solver()
                    so.set('timeout', 500)
                    so.add(*hy, z3.Not(c))
                    if so.check() == z3.unsat:
                        hit = (q, q.arg(val))
                        break
                if hit:
                    break
            todo.extend(q.children())
        if not hit:
            return x
        x = z3.substitute(x, hit)
    return x


def ratios(x):
    """arguments of the comparisons in x"""
    out, todo, seen = [], [x], set()
    while todo:
        q = todo.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
            out += [a for a in q.children() if z3.is_real(a) and not z3.is_rational_value(a) and not any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in sub_terms(a))]
        todo.extend(q.children())
    return out


def sub_terms(x):
    todo, seen = [x], set()
    while todo:
        q = todo.pop()
        if q.get_id() not in seen:
            seen.add(q.get_id())
            yield q
            todo.extend(q.children())


def correct(ctx):
    m, ex = cload(ctx, [])
    fn = K + 'correct_velocities'
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col'))])
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        w = {(e.fam, e.leaf) for e in o.st.log if e.kind != 'op'}
        p.fact_true('frame: only velocities of the particles of the cells are written', fn, w <= {(PF[s], '.' + f) for s in PF for f in VS}, str(w))
        for s in ('ion', 'el'):
            ms = z3.Real(f'this.mass_{s}')
            S = lambda *mono: z3.Real(f'S_{s}_w' + ''.join(f'v{i}' for i in mono))
            n = SZ[s](A, B)
            hy = CELL + [J >= 0, J < n, ms > 0] + list(o.st.pc)
            new = [ex.value_at(o.st, PF[s], '.' + f, (A + 2, B + 2, J)) for f in VS]
            new = [sums_of(p, ex, o, fn, R(x), hy) for x in new]
            new = [z3.substitute(z3.simplify(x), (z3.simplify(tot(s, 'w')), S())) for x in new]
            v = [z3.simplify(part(s, f)) for f in VS]
            P, E = [tot(s, c) for c in ('r', 'phi', 'z')], tot(s, 'e')
            M = ms * S()
            Q = [ms * S(i) for i in range(3)]
            En = ms * sum(S(i, i) for i in range(3)) / 2
            T0, T1 = E - sum(q * q for q in P) / (2 * M), En - sum(q * q for q in Q) / (2 * M)
            hy += [S() > 0, T0 > 0, T1 > 0]
            # the ratio of the thermal energies before and after: one positive number al
            al, th0, th1 = z3.Reals('al th0 th1')
            found = {}
            for x in new:
                for q in ratios(x):
                    found[q.get_id()] = q
                for q in apps(x, 'sqrt', n=1):
                    if not any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in sub_terms(q.arg(0))):
                        found[q.arg(0).get_id()] = q.arg(0)
            silent = type(p)(1, p.tier)
            for q in found.values():
                if any(x.decl().name().startswith((f'this.energy_tot_{q2}', f'S_{q2}_')) for x in sub_terms(q) if z3.is_app(x) for q2 in ('el', 'ion') if q2 != s):
                    continue
                if silent.eq(f'{s}: velocities are scaled by the ratio of thermal energies', fn, q, T0 / T1, hy, ex.facts, ranges=RN) and silent.rows[-1].status == 'proved':
                    p.rows.append(silent.rows[-1])
                    new = [z3.substitute(x, (q, al)) for x in new]
            new = [decide(z3.simplify(x), [al > 0]) for x in new]
            hy += [al > 0]
            Eo, E = E, radd(rmul(al, T1), sum(q * q for q in P) / (2 * M))      # E is the thermal energy al * T1 plus that of the mean motion
            new = [z3.substitute(x, (z3.simplify(Eo), E)) for x in new]
            a = [z3.substitute(x, *[(q, z3.RealVal(0)) for q in v]) for x in new]
            b = [rsub(z3.substitute(x, *[(q, z3.RealVal(1)) for q in v]), y) for x, y in zip(new, a)]
            for i in range(3):
                p.eq(f'{s}: new {VS[i]} is linear in the old one', fn, new[i], radd(a[i], rmul(b[i], v[i])), hy, ex.facts, ranges=RN)
                p.eq(f'{s}: momentum of the cell along {VS[i]} is the one before the collisions', fn, radd(rmul(a[i], M), rmul(b[i], Q[i])), P[i], hy, ex.facts, ranges=RN)
            en = Fraction(0)
            for i in range(3):
                en = radd(en, radd(rmul(rmul(a[i], a[i]), M) / 2, radd(rmul(rmul(a[i], b[i]), Q[i]), rmul(rmul(b[i], b[i]), ms * S(i, i) / 2))))
            p.eq(f'{s}: energy of the cell is the one before the collisions', fn, en, E, hy, ex.facts, ranges=RN)


MA, MB, QA, QB, NA, NB, DEB = z3.Reals('MA MB QA QB NA NB DEB')
PX = lambda s, f: z3.Real(f'{s}.{f}')
RS = {'M?': lambda g: g.uniform(.5, 3), 'N?': lambda g: g.uniform(.5, 3), 'DEB': lambda g: g.uniform(.5, 3), 'p?.weight': lambda g: g.uniform(.5, 3), 'draw*': lambda g: g.uniform(-2, 2), 'time.step': lambda g: g.uniform(.5, 3),
      'coulomb*': lambda g: g.uniform(2, 9), '*': lambda g: g.uniform(-3, 3)}


def scatter(ctx, swapped=False):
    """run collide_single once; random numbers and the Coulomb logarithm are recorded"""
    m, ex = cload(ctx, [K + 'collide_single', 'phys::plasma::coulomb_logarithm'])
    log = []

    def draw(name):
        def h(ex, st, A):
            v = z3.Real(f'draw_{name}_{sum(1 for c in st.ghost.get("draws", ()) if c[0] == name)}')
            st.ghost['draws'] = st.ghost.get('draws', ()) + ((name, v, tuple(A)),)
            return [(st, v)]
        return h
    for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith('math::random::'):
            ex.contracts[sy] = draw(d.split('::')[2].split('(')[0])

    def coul(ex, st, A):
        v = z3.Real('coulomb')
        st.ghost['coulomb'] = st.ghost.get('coulomb', ()) + (tuple(A),)
        return [(st, v)]
    ex.contracts[m.sym('phys::plasma::coulomb_logarithm')] = coul
    pa, pb = ex.root('pa', STRUCT('Particle')), ex.root('pb', STRUCT('Particle'))
    args = [MB, MA, QB, QA, pb, pa, NB, NA, DEB] if swapped else [MA, MB, QA, QB, pa, pb, NA, NB, DEB]
    outs = ex.call_function(m.sym(K + 'collide_single'), [ex.root('this', STRUCT('Col'))] + args)
    return m, ex, outs


def rsum(xs):
    return reduce(radd, xs, Fraction(0))


def roots(t, table):
    """name the square roots of known values"""
    t = R(t)
    for _ in range(30):
        for q in sub_terms(t):
            if z3.is_app(q) and q.decl().name() == 'sqrt' and not any(z3.is_app(x) and (x.decl().name() == 'sqrt' or x.decl().kind() == z3.Z3_OP_ITE) for x in sub_terms(q.arg(0))):
                hit = None
                for arg, rep in table:
                    try:
                        if Norm().is_zero_term(q.arg(0) - R(arg)):
                            hit = R(rep)
                            break
                    except ZeroDivisionError:
                        pass
                if hit is not None:
                    t = z3.substitute(t, (q, hit))
                    break
        else:
            return t
    return t


def _conds(h, f):
    """name the roots inside a condition"""
    t = z3.If(h, z3.RealVal(1), z3.RealVal(0)) if isinstance(h, z3.ExprRef) else R(int(h))
    return f(t) == 1


def single(ctx):
    fn = K + 'collide_single'
    m, ex, outs = scatter(ctx)
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    x, y, z, U, UP, SW, S2, D = z3.Reals('x y z U UP SW S2 D')
    wa, wb = PX('pa', 'weight'), PX('pb', 'weight')
    delta = z3.Real('draw_normal_0')
    sn, vc = 2 * delta / (1 + delta * delta), 2 * delta * delta / (1 + delta * delta)       # sine, 1 - cosine of the scattering angle
    mab = MA * MB / (MA + MB)
    rng = dict(RS, **{'U': lambda g: 1.5})
    same = 0
    for o in outs:
        u, u2, up2 = [x, y, z], x * x + y * y + z * z, x * x + y * y
        rel = [(PX('pa', f), PX('pb', f) + q) for f, q in zip(VS, u)]
        pos = [q > 0 for q in (MA, MB, NA, NB, DEB, wa, wb, z3.Real('coulomb'), z3.Real('time.step'))]
        hy0 = pos + pc_of(ex, o)
        w = {(e.fam, e.leaf) for e in o.st.log if e.kind != 'op'}
        p.fact_true('frame: only the velocities of the two particles are written', fn, w <= {(q, '.' + f) for q in ('pa', 'pb') for f in VS}, str(w))
        if not w:
            p.holds('particles of different velocity scatter', fn, sum((PX('pa', f) - PX('pb', f)) * (PX('pa', f) - PX('pb', f)) for f in VS) == 0, hy0, ex.facts)
            same += 1
            continue
        # which of the two is the light one
        light = {}
        for q, a, b in (('pa', wa, wb), ('pb', wb, wa)):
            so = z3.Solver()
            so.set('timeout', 2000)
            so.add(*pos, *[h for h in hy0 if all(not v.decl().name().endswith(VS) for v in sub_terms(h) if z3.is_app(v))], a > b)
            light[q] = so.check() == z3.unsat
        p.fact_true('the light particle is known', fn, any(light.values()), str(light), refuted=False)
        wr = wa / wb if light['pa'] else wb / wa
        s2 = wr * sn * sn + wr * (1 - wr) * vc * vc
        rels = [(U, u2), (UP, up2), (SW, wr), (S2, s2)]
        table = [(u2, U), (z * z, U), (up2, UP), (wr, SW), (s2, S2)]
        flat_ = lambda t, eq=False: roots(z3.substitute(z3.substitute(R(t), *rel), *([(wb, wa)] if eq else [])), [(Fraction(1), Fraction(1)), (sn * sn, ite(delta >= 0, sn, -sn))] + table[:3] if eq else table)
        d = {q: [R(rsub(ex.value_at(o.st, q, '.' + f, ()), PX(q, f))) for f in VS] for q in ('pa', 'pb')}
        g = {q: [flat_(t) for t in d[q]] for q in d}
        e = {q: [flat_(t, True) for t in d[q]] for q in d}
        # directions with u_p = 0
        hy = [flat_(c) if z3.is_real(c) else z3.substitute(c, *rel) for c in hy0]
        axis = z3.Solver()
        axis.set('timeout', 2000)
        axis.add(*[_conds(h, flat_) for h in hy], up2 > 0, UP > 0)
        ax = axis.check() == z3.unsat
        if ax:
            g = {q: [z3.substitute(t, (x, z3.RealVal(0)), (y, z3.RealVal(0)), (UP, z3.RealVal(0))) for t in g[q]] for q in g}
            e = {q: [z3.substitute(t, (x, z3.RealVal(0)), (y, z3.RealVal(0)), (UP, z3.RealVal(0))) for t in e[q]] for q in e}
            rels = [(U, z * z)] + rels[2:]
            u, u2 = [R(0), R(0), z], z * z
            rel = [(PX('pa', f), PX('pb', f) + q) for f, q in zip(VS, u)]
        for q, mass, sg in (('pa', MA, 1), ('pb', MB, -1)):
            rot = [radd(a, rmul(b, sg * mass / mab)) for a, b in zip(u, g[q])]
            at = {}
            for t in rot:
                for f in ('sin', 'cos'):
                    for v in apps(t, f, n=1):
                        at.setdefault(str(v.arg(0)), {})[f] = v
            sub, tri = [], []
            for n, v in enumerate(at.values()):
                sub += [(v[f], z3.Real(f'{f}_{n}')) for f in v]
                tri.append((z3.Real(f'cos_{n}'), 1 - z3.Real(f'sin_{n}') * z3.Real(f'sin_{n}')))
            rot = [z3.substitute(R(t), *sub) for t in rot]
            p.eq(f'{q}: the relative velocity is turned, not stretched', fn, rsum(rmul(t, t) for t in rot), u2, pos + [a * a == b for a, b in rels + tri], ex.facts, rels=rels + tri, ranges=rng)
        mean = {q: [z3.substitute(t, *[(v, z3.RealVal(0)) for f in ('sin', 'cos') for v in apps(t, f, n=1)]) for t in g[q]] for q in g}
        for i in range(3):
            p.eq(f'equal weights: momentum of the pair is kept [{i}]', fn, radd(rmul(MA, e['pa'][i]), rmul(MB, e['pb'][i])), Fraction(0), pos, ex.facts, rels=rels[:-2], ranges=rng)
            p.eq(f'different weights: momentum is kept on average over the azimuth [{i}]', fn, radd(rmul(wa * MA, mean['pa'][i]), rmul(wb * MB, mean['pb'][i])), Fraction(0), pos, ex.facts, rels=rels, ranges=rng)
        # random numbers
        dr_ = {}
        for nm, v, A_ in o.st.ghost.get('draws', ()):
            dr_.setdefault(nm, []).append((v, A_))
        cl = o.st.ghost.get('coulomb', ())
        p.fact_true('one angle is drawn from the normal distribution, one uniformly', fn, len(dr_.get('normal', ())) == 1 and len(dr_.get('uniform_angle', ())) == 1 and len(cl) == 1, str(dr_)[:300], refuted=False)
        if len(dr_.get('normal', ())) != 1 or len(cl) != 1:
            continue
        lo = z3.If(NA <= NB, NA, NB)
        sd = R(dr_['normal'][0][1][0])
        if not (z3.is_app(sd) and sd.decl().name() == 'sqrt'):
            p.fact_true('standard deviation is the root of the variance', fn, False, str(sd)[:200], refuted=False)
            continue
        sd = flat_(sd.arg(0))
        k8 = 8 * math.pi * float(EPS0) ** 2
        c8 = [q for q in {q.as_fraction() for q in sub_terms(sd) if z3.is_rational_value(q)} if q and (abs(float(q) / k8 - 1) < 1e-9 or abs(float(q) * k8 - 1) < 1e-9)]
        p.fact_true('8 pi epsilon0^2', fn, len(c8) == 1, str(c8), refuted=False)
        if len(c8) == 1:
            c8 = c8[0] if c8[0] < 1 else 1 / c8[0]
            p.eq('variance of the scattering angle', fn, rmul(rmul(sd, U * U * U), rmul(mab, mab)) * R(c8), rmul(QA * QA * QB * QB, lo) * z3.Real('coulomb') * z3.Real('time.step'), pos + [U * U == u2, U > 0], ex.facts, rels=[(U, u2)], ranges=rng)
        a = [flat_(ex.expand(o.st, q)) for q in cl[0]]
        for nm, v, want in (('reduced mass', rmul(a[0], a[1]) / (a[0] + a[1]), mab), ('Debye length', a[2], DEB), ('relative speed', a[3], U)):
            p.eq('Coulomb logarithm: ' + nm, fn, v, want, pos + [U * U == u2, U > 0], ex.facts, rels=[(U, u2)], ranges=rng)
    p.fact_true('particles of one velocity do not scatter', fn, same > 0, '', refuted=False)


GETS = ('get_el_temperature', 'get_ion_temperature', 'get_el_density', 'get_ion_density')
GET = {g: z3.Function(g, z3.IntSort(), z3.IntSort(), z3.RealSort()) for g in GETS}
DEBYE = z3.Function('debye', *[z3.RealSort()] * 5)


def undiv(ts, cache):
    """whole quotients and remainders by unknown divisors as unknowns with their definition"""
    ts, hy = [zi(t) for t in ts], []
    for _ in range(30):
        hit = None
        for t in ts:
            for q in sub_terms(t):
                if z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(q.arg(1)) and not any(
                        x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(x.arg(1)) for a in q.children() for x in sub_terms(a) if z3.is_app(x)):
                    hit = q
                    break
            if hit is not None:
                break
        if hit is None:
            break
        a, b = z3.simplify(hit.arg(0)), z3.simplify(hit.arg(1))
        n = next((v for x, y, v in cache if x.eq(a) and y.eq(b)), None)
        if n is None:
            n = (z3.Int(f'quo{len(cache)}'), z3.Int(f'rem{len(cache)}'))
            cache.append((a, b, n))
        ts = [z3.substitute(t, (hit, n[0] if hit.decl().kind() == z3.Z3_OP_IDIV else n[1])) for t in ts]
    return ts


def defs(cache):
    return [z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b, z3.Implies(a >= 0, z3.And(q >= 0, z3.Implies(a >= b, q >= 1))))) for a, b, (q, r) in cache]


def pairs(ctx, K=K, load=cload, also=()):
    fn = K + 'collide'
    m, ex = load(ctx, [K + 'collide_single', 'phys::plasma::debye_length'] + ['Collisions::' + g for g in GETS])
    p = ctx.p
    for g in GETS:
        ex.contracts[m.sym('Collisions::' + g)] = lambda ex, st, A_, f=GET[g]: [(st, f(zi(A_[1]), zi(A_[2])))]
    ex.contracts[m.sym('phys::plasma::debye_length')] = lambda ex, st, A_: [(st, DEBYE(*[R(x) for x in A_]))]

    def single_(ex, st, A_):
        st.log.append(Ent('op', 'pair', '', (), None, meta={f'a{i}': a for i, a in enumerate(A_)}))
        return [(st, None)]
    ex.contracts[m.sym(K + 'collide_single')] = single_
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col'))])
    p.fact_true('returns', fn, len(rets(outs)) >= 1 and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        pairs_in(p, fn, ex, o, also)


def pairs_in(p, fn, ex, o, also):
    p.fact_true('frame: nothing but the collisions of pairs', fn, all(e.kind == 'op' or (e.fam, e.leaf) in also for e in o.st.log), '')
    Te, Ti, De, Di = [GET[g](A, B) for g in GETS]
    nE, nI = z3.Ints('nE nI')
    base = CELL + [Te > 0, Ti > 0, De > 0, Di > 0, nE >= 0, nI >= 0, nE < 2 ** 30, nI < 2 ** 30] + pc_of(ex, o)
    att = {'el': ('mass_el', 'charge_el', De), 'ion': ('mass_ion', 'charge_ion', Di)}
    found = []
    for e in o.st.log:
        if e.kind != 'op' or e.fam != 'pair':
            continue
        a = [e.meta[f'a{i}'] for i in range(10)]
        cond = z3.And(*[l.dom for l in e.loops], *([e.guard] if e.guard is not True else []))
        ks = [l.k for l in e.loops]
        who = []
        for q in (a[5], a[6]):
            s = next((s for s in PF if q.fam.name + '' == PF[s]), None)
            if s is None:
                raise Unsupported('particle of a pair')
            who.append((s, q.idx))
        # the loops over the cells
        sub = []
        for c, w in zip(who[0][1][:2], (A, B)):
            k = [v for v in ks if has_var(zi(c), v)]
            if len(k) != 1 or not z3.simplify(zi(c) - k[0] - 2).eq(z3.IntVal(0)):
                raise Unsupported('cell of a pair')
            sub.append((k[0], w))
        sub += [(SZ['el'](A, B), nE), (SZ['ion'](A, B), nI)]
        f = lambda t: z3.simplify(z3.substitute(z3.simplify(z3.substitute(z3.simplify(zi(t)), *sub[:2])), *[(z3.simplify(x), y) for x, y in sub[2:]]))
        ks = [k for k in ks if not any(k.eq(x) for x, _ in sub)]
        if len(ks) > 1:
            raise Unsupported('pairs in nested loops')
        k = ks[0] if ks else None
        cond = f(cond)
        so = z3.Solver()
        so.set('timeout', 3000)
        so.add(*base, cond)
        if so.check() == z3.unsat:
            continue
        p.fact_true('the pair is of one cell', fn, all(f(x - y).eq(z3.IntVal(0)) for x, y in zip(map(zi, who[0][1][:2]), map(zi, who[1][1][:2]))), str(who))
        for i, (s, _) in enumerate(who):
            for x, want, nm in ((a[1 + i], z3.Real('this.' + att[s][0]), 'mass'), (a[3 + i], z3.Real('this.' + att[s][1]), 'charge'), (a[7 + i], att[s][2], 'density')):
                p.eq(f'{nm} of the {"first" if i == 0 else "second"} particle of a pair', fn, f(ex.expand(o.st, R(x))), want, base + [cond], ex.facts)
        p.eq('Debye length of the cell', fn, f(ex.expand(o.st, R(a[9]))), DEBYE(De, Di, Te, Ti), base + [cond], ex.facts)
        found.append((who[0][0], who[1][0], f(who[0][1][2]), f(who[1][1][2]), k, cond))
    n_ = {'el': nE, 'ion': nI}

    def at(e, i, j):
        """conditions under which particle i of the pair e is number j, the other one"""
        x, k = e[2 + i], e[4]
        if k is None or not has_var(x, k):
            if k is not None:
                raise Unsupported('one particle in many pairs')
            return [(z3.And(e[5], x == j), e[3 - i])]
        c0 = z3.simplify(z3.substitute(x, (k, z3.IntVal(0))))
        c1 = z3.simplify(z3.substitute(x, (k, z3.IntVal(1))) - c0)
        if not z3.is_int_value(c1) or c1.as_long() < 1 or not z3.simplify(x - c0 - c1 * k, som=True).eq(z3.IntVal(0)):
            return None
        w = (j - c0) / c1 if c1.as_long() > 1 else j - c0
        return [(z3.And(z3.substitute(e[5], (k, w)), j == c0 + c1 * w), z3.substitute(e[3 - i], (k, w)))]
    for s in ('el', 'ion'):
        n = n_[s]
        like = [e for e in found if e[0] == s and e[1] == s]
        count = z3.IntVal(0)
        for e in like:
            for i in (0, 1):
                r = at(e, i, J)
                if r is None:
                    raise Unsupported('number of a particle of a pair')
                for c, other in r:
                    count = count + z3.If(c, 1, 0)
            p.holds(f'{s}: two different particles of the cell', fn, z3.And(e[2] != e[3], e[2] >= 0, e[3] >= 0, e[2] < n, e[3] < n), base + [e[5]], ex.facts)
        hy = base + [J >= 0, J < n]
        p.holds(f'{s}: of an even number, every particle meets one of its kind', fn, count == 1, hy + [n % 2 == 0], ex.facts)
        p.holds(f'{s}: of an odd number, every particle meets one or two of its kind', fn, z3.And(count >= 1, count <= 2), hy + [n % 2 == 1, n > 1], ex.facts)
    for big, small in (('ion', 'el'), ('el', 'ion')):
        nb, ns = n_[big], n_[small]
        cache = []
        quo, rem = undiv([nb / ns, nb % ns], cache)
        sit = base + [nb >= ns, ns > 0]
        count, par = z3.IntVal(0), {}
        uns = [e for e in found if e[0] != e[1]]
        live, many = [], False
        for e in uns:
            so = z3.Solver()
            so.set('timeout', 3000)
            so.add(*sit, e[5])
            if so.check() != z3.unsat:
                live.append(e)
        JJ = {'J': J, 'N': J + quo + 1, 'S': J + 1, 'C': J + quo, 'Z': z3.IntVal(0), 'E': nb - 1}
        P = {}
        for nm, j in JJ.items():
            count, par, anyc = z3.IntVal(0), z3.IntVal(-1), []
            for e in live:
                i = 0 if e[0] == big else 1
                r = at(e, i, j)
                if r is None:
                    # only when both are of one number: the roles are the same
                    raise Unsupported('number of a particle of a pair')
                for c, other in r:
                    c, other = undiv([c, other], cache)
                    count = count + z3.If(c, 1, 0)
                    par = z3.If(c, other, par)
            P[nm] = (count, par)
        D = defs(cache)
        side = f'{big} not fewer than {small}'
        hy = sit + D + [J >= 0, J < nb]
        p.holds(f'{side}: each meets exactly one of the other kind', fn, P['J'][0] == 1, hy, ex.facts)
        p.holds(f'{side}: which is a particle of the cell', fn, z3.And(P['J'][1] >= 0, P['J'][1] < ns), hy, ex.facts)
        p.holds(f'{side}: the other kind is taken in turn', fn, z3.And(P['S'][1] >= P['J'][1], P['S'][1] <= P['J'][1] + 1), hy + [J + 1 < nb], ex.facts)
        p.holds(f'{side}: from the first', fn, P['Z'][1] == 0, hy, ex.facts)
        p.holds(f'{side}: to the last', fn, P['E'][1] == ns - 1, hy, ex.facts)
        p.holds(f'{side}: shared evenly', fn, P['N'][1] > P['J'][1], hy + [J + quo + 1 < nb], ex.facts)
        p.holds(f'{side}: shared evenly (no remainder)', fn, P['C'][1] > P['J'][1], hy + [J + quo < nb, rem == 0], ex.facts)


def own(ctx, keep=()):
    """the module with the temperature diagnostics of a species under a contract that records the call"""
    m, ex = cload(ctx, keep)
    for y, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith('SpecieP::calc_temperature'):
            def h(ex, st, A_):
                st.log.append(Ent('op', 'calc_temperature', '', (), None, meta={'of': A_[0]}))
                return [(st, None)]
            ex.contracts[y] = h
    return m, ex


def cells_first(e):
    """the loops of an entry of a cell, the ones its two numbers run over first"""
    ls = list(e.loops)
    out = []
    for x in e.idx[:2]:
        out += [l for l in ls if has_var(zi(x), l.k) and not any(l is o for o in out)][:1]
    return out + [l for l in ls if not any(l is o for o in out)] if len(out) == 2 else ls


def collect(ctx):
    """totals of the cells: weight, momentum, energy; then they are what clear() leaves plus the sums"""
    p = ctx.p
    fn = 'Collisions::collect_weighted_params_tot_grid'
    m, ex = own(ctx)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col'))])
    p.fact_true('returns', fn, len(rets(outs)) == 1 and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    o = rets(outs)[0]
    fams = {v: k for k, v in TOT.items()}
    wr = [e for e in o.st.log if e.kind != 'op']
    p.fact_true('frame: only the totals are written', fn, {e.fam + e.leaf for e in wr} <= set(fams), str({e.fam + e.leaf for e in wr}))
    for (s, q), fam in TOT.items():
        es = [e for e in wr if e.fam + e.leaf == fam]
        ok = len(es) >= 1 and all(e.kind == 'inc' and len(e.loops) == 3 and len(e.idx) == 2 for e in es)
        p.fact_true(f'{s} {q}: summed over the particles of the cells', fn, ok, str(es)[:300], refuted=False)
        if not ok:
            continue
        u, at = Fraction(0), True
        for e in es:
            ks = [l.k for l in cells_first(e)]
            at = at and all(z3.simplify(zi(e.idx[i]) - ks[i] - 2).eq(z3.IntVal(0)) for i in (0, 1))
            sub = list(zip(ks, (A, B, J)))
            dom = z3.substitute(z3.And(*[l.dom for l in e.loops], *([e.guard] if e.guard is not True else [])), *sub)
            v = z3.substitute(R(ex.expand(o.st, e.val)), *sub)
            u = radd(u, z3.If(dom, v, z3.RealVal(0)))
        p.fact_true(f'{s} {q}: in the cell of the particle', fn, at, str([e.idx for e in es])[:200])
        n = SZ[s](A, B)
        w, mass = part(s, 'weight'), z3.Real(f'this.mass_{s}')
        v = dict(zip(('r', 'phi', 'z'), [part(s, f) for f in VS]))
        want = w if q == 'w' else w * mass * (v['r'] * v['r'] + v['phi'] * v['phi'] + v['z'] * v['z']) / 2 if q == 'e' else w * mass * v[q]
        hy = CELL + [n >= 0, n < 2 ** 31]
        p.eq(f'{s} {q}: share of one particle', fn, u, want, hy + [J >= 0, J < n] + pc_of(ex, o), ex.facts, ranges=RN)
        p.eq(f'{s} {q}: nothing else', fn, u, Fraction(0), hy + [z3.Or(J < 0, J >= n)] + pc_of(ex, o), ex.facts, ranges=RN)
    # cleared before
    fn = 'Collisions::clear'
    m, ex = own(ctx)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col'))])
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        for (s, q), fam in TOT.items():
            base, leaf = fam, ''
            p.eq(f'{s} {q}: zero in every cell', fn, ex.value_at(o.st, base, leaf, (A + 2, B + 2)), Fraction(0), CELL + pc_of(ex, o), ex.facts, ranges=RN)
        maps = {f'this.map_{s}2cell.grid->->': s for s in ('el', 'ion')}
        p.fact_true('frame: only the totals and the lists are written', fn, {e.fam for e in o.st.log if e.kind != 'op'} <= set(fams) | set(maps), str({e.fam for e in o.st.log}))
        for mp, s in maps.items():
            es = [e for e in o.st.log if e.fam == mp]
            covered = []
            good = bool(es)
            for e in es:
                ok = e.leaf == '+8' and isinstance(e.val, Ptr) and e.val.fam is not None and not isinstance(e.val.off, z3.ExprRef) and e.val.off == 0 and e.val.fam.name == mp + '[]' and len(e.loops) == 2 \
                    and all(z3.simplify(zi(x) - l.k - 2).eq(z3.IntVal(0)) and z3.simplify(zi(y) - zi(x)).eq(z3.IntVal(0)) for x, y, l in zip(e.idx, e.val.idx, cells_first(e)))
                good = good and ok
                p.fact_true(f'{s}: the end of a list is set to its beginning', fn, ok, str(e)[:300], refuted=False)
                if ok:
                    covered.append(z3.substitute(z3.And(*[l.dom for l in e.loops], *([e.guard] if e.guard is not True else [])), *[(l.k, w) for l, w in zip(cells_first(e), (A, B))]))
            if es and not good:
                continue
            p.holds(f'{s}: the list of every cell is emptied', fn, z3.Or(*covered, SZ[s](A, B) == 0), CELL + pc_of(ex, o), ex.facts)
    # densities and temperatures
    for s in ('el', 'ion'):
        m, ex = own(ctx)
        for f in CELL + [NR < 2 ** 30, NZ < 2 ** 30]:
            ex.fact(f)
        fn = f'Collisions::get_{s}_temperature'
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col')), A, B])
        for o in rets(outs):
            p.eq('energy per particle, in eV', fn, rmul(ex.expand(o.st, o.val), rmul(tot(s, 'w'), QE)), tot(s, 'e'), CELL + pc_of(ex, o), ex.facts, ranges=RN)
            p.fact_true('frame: pure', fn, not o.st.log, '')
        m, ex = own(ctx)
        for f in CELL + [NR < 2 ** 30, NZ < 2 ** 30]:
            ex.fact(f)
        fn = f'Collisions::get_{s}_density'
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col')), A, B])
        for o in rets(outs):
            hy = CELL + pc_of(ex, o)
            d = sums_of(p, ex, o, fn, R(ex.expand(o.st, o.val)), hy)
            dr, dz = z3.Real('dr'), z3.Real('dz')
            row = z3.ToReal(A + C0)
            p.eq('particles over the volume of the ring', fn, rmul(d, z3.Real('PI') * ((row + 1) * (row + 1) - row * row) * dr * dr * dz), z3.Real(f'S_{s}_w'), hy, ex.facts, ranges=RN)
            p.fact_true('frame: pure', fn, not o.st.log, '')


def sort(ctx):
    fn = 'Collisions::sort_to_cells'
    m, ex = cload(ctx, STRKEEP + [PV + 'push_back'])
    strings(ctx, m, ex)
    p = ctx.p

    def push(ex, st, A_):
        st.log.append(Ent('op', 'push', '', (), None, meta={'to': A_[0], 'arg': A_[1]}))
        return [(st, None)]
    for y, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith(PV + 'push_back'):
            ex.contracts[y] = push
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Col'))])
    p.fact_true('returns', fn, len(rets(outs)) == 1 and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    o = rets(outs)[0]
    p.fact_true('frame: only the lists of the cells grow', fn, all(e.kind == 'op' for e in o.st.log), '')
    S_, P_ = z3.Ints('S P')
    I2 = (z3.IntSort(), z3.IntSort(), z3.IntSort())
    cr, cz = [z3.Function(f'this.species_p[]->.particles[]->.cell_{c}', *I2)(S_, P_) for c in 'rz']
    name = z3.Function('text:this.species_p[]->.name', z3.IntSort(), z3.IntSort())(S_)
    ion = z3.Or(name == lit('ions'), name == lit('Ions'))
    el = z3.Or(name == lit('electrons'), name == lit('Electrons'))
    hy = [S_ >= 0, P_ >= 0, S_ < z3.Int('this.species_p.size'), P_ < z3.Function('this.species_p[]->.particles.size', z3.IntSort(), z3.IntSort())(S_),
          cr >= C0, cr < C0 + NR, cz >= C1, cz < C1 + NZ, C0 + NR < 2 ** 30, C1 + NZ < 2 ** 30, z3.Or(ion, el)] + pc_of(ex, o)
    n = {'el': z3.IntVal(0), 'ion': z3.IntVal(0)}
    for e in o.st.log:
        to, arg = e.meta['to'], e.meta['arg']
        s = next((s for s in PF if isinstance(to, Ptr) and to.fam.name == f'this.map_{s}2cell.grid->->'), None)
        ok = s is not None and isinstance(arg, Ptr) and arg.fam.name == 'this.species_p[]->.particles[]' and len(e.loops) == 2 and len(to.idx) == 1
        p.fact_true('particles of the species are put into the lists of the cells', fn, ok, str(e.meta)[:300], refuted=False)
        if not ok:
            raise Unsupported('list of a cell')
        ks = [l.k for l in e.loops]
        p.fact_true('the particle itself', fn, len(arg.idx) == 1 and zi(arg.idx[0]).eq(ks[0]) and z3.simplify(zi(arg.off) - 8 * ks[1]).eq(z3.IntVal(0)), str(arg))
        sub = list(zip(ks, (S_, P_)))
        cond = z3.substitute(z3.And(*[l.dom for l in e.loops], *([e.guard] if e.guard is not True else [])), *sub)
        r, z = [z3.substitute(zi(t), *sub) for t in (to.idx[0], to.off)]
        p.holds(f'{s}: list of the cell of the particle', fn, z3.And(r == cr - C0 + 2, z == 24 * (cz - C1 + 2)), hy + [cond], ex.facts)
        n[s] = n[s] + z3.If(cond, 1, 0)
    p.holds('every ion is put once into a list of ions', fn, z3.And(n['ion'] == 1, n['el'] == 0), hy + [ion], ex.facts)
    p.holds('every electron is put once into a list of electrons', fn, z3.And(n['el'] == 1, n['ion'] == 0), hy + [el], ex.facts)


STEPS = ['Collisions::clear', 'Collisions::sort_to_cells', 'Collisions::random_sort', 'Collisions::collect_weighted_params_tot_grid', K + 'collide', K + 'correct_velocities']


def order(ctx, K=K, load=cload, STEPS=STEPS):
    """one step of collisions: lists and totals are rebuilt, then pairs collide, then the totals are restored"""
    fn = K + 'operator()'
    m, ex = load(ctx, STEPS)
    p = ctx.p
    slots = {d.split('(')[0]: y for y, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items())}
    for q in STEPS:
        def h(ex, st, A_, q=q):
            st.log.append(Ent('op', q, '', (), None, meta={'this': A_[0]}))
            return [(st, None)]
        ex.contracts[slots[q]] = h
    this = ex.root('this', STRUCT('Col'))
    outs = ex.call_function(m.sym(fn), [this])
    p.fact_true('returns', fn, len(rets(outs)) == 1 and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    got = [e.fam for e in rets(outs)[0].st.log]
    same = sorted(got) == sorted(STEPS)
    p.fact_true('every part of the step runs once', fn, same, str(got))
    if same:
        at = {q.split('::')[1]: got.index(q) for q in STEPS}
        for a, b in (('clear', 'sort_to_cells'), ('sort_to_cells', 'random_sort'), ('sort_to_cells', 'collect_weighted_params_tot_grid'), ('clear', 'collect_weighted_params_tot_grid'),
                     ('random_sort', 'collide'), ('collect_weighted_params_tot_grid', 'collide')) + ((('collide', 'correct_velocities'),) if 'correct_velocities' in at else ()):
            p.fact_true(f'{a} before {b}', fn, at[a] < at[b], str(got))
    p.fact_true('on the same object, without a condition', fn, all(e.guard is True and not e.loops and isinstance(e.meta['this'], Ptr) and e.meta['this'].fam is this.fam for e in rets(outs)[0].st.log), '')


def plasma(ctx):
    """Debye length and Coulomb logarithm"""
    p = ctx.p
    m, ex = cload(ctx, ['phys::plasma::debye_length', 'phys::plasma::coulomb_logarithm'])
    fn = 'phys::plasma::debye_length'
    ne, ni, te, ti = z3.Reals('ne ni te ti')
    pos = [q > 0 for q in (ne, ni, te, ti)]
    rng = {'*': lambda g: g.uniform(.5, 3)}
    for o in rets(ex.call_function(m.sym(fn), [ne, ni, te, ti])):
        so = z3.Solver()
        so.add(*pos, *[h for h in o.st.pc if h is not True])
        if so.check() == z3.unsat:
            continue
        r = R(ex.expand(o.st, o.val))
        X = z3.Real('X')
        r = roots(r, [(ne / te + ni / ti, X)])
        p.eq('Debye length squared, times the density over temperature', fn, rmul(rmul(r, r), X * X), Fraction('7433.944') ** 2, pos + [X * X == ne / te + ni / ti, X > 0], ex.facts, ranges=rng)
    fn = 'phys::plasma::coulomb_logarithm'
    ma, mb, d, v = z3.Reals('ma mb d v')
    pos = [q > 0 for q in (ma, mb, d, v)]
    for o in rets(ex.call_function(m.sym(fn), [ma, mb, d, v])):
        r = R(ex.expand(o.st, o.val))
        lg = apps(r, 'log', n=1)
        p.fact_true('one logarithm', fn, len(lg) == 1, str(r)[:200], refuted=False)
        if len(lg) == 1:
            h = float(HBAR) / (2 * math.pi)
            cs = [q for q in {q.as_fraction() for q in sub_terms(lg[0]) if z3.is_rational_value(q)} if q > 0 and (abs(float(q) * h - 1) < 1e-9 or abs(float(q) / h - 1) < 1e-9)]
            p.fact_true('reduced Planck constant', fn, len(cs) == 1, str(cs), refuted=False)
            if len(cs) == 1:
                c = cs[0] if cs[0] > 1 else 1 / cs[0]
                p.eq('argument: Debye length over the wave length of the relative motion', fn, rmul(lg[0].arg(0), ma + mb), rmul(rmul(d, v), ma * mb) * R(c), pos, ex.facts, ranges=rng)
            p.holds('not below 2', fn, r == z3.If(lg[0] > 2, lg[0], z3.RealVal(2)), pos + pc_of(ex, o), ex.facts)


def sections(tier):
    return [('correct', correct), ('single', single), ('pairs', pairs), ('collect', collect), ('sort', sort), ('order', order), ('plasma', plasma)]


def natives(tier):
    return [Native('collisions', 'c23.cpp', ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/phys/plasma.cpp'] + NSRC, config(), flags=['-fno-access-control'], n=(400, 6000))]
