"""Villasenor-Buneman current deposition: charge continuity, azimuthal current."""
from yeelib import *
import specielib as sl
from specielib import logop
from norm import Norm
from prove import fold_ints, rebuild
from itertools import product
from runner import Native

LEVEL = 'proof'
SRC11 = ['src/current/currentVB.cpp']
V = 'CurrentVB::'
SIMPLE, STRICT, RZ, AZI, TOP = (V + f for f in ('simple_current_distribution', 'strict_motion_distribution', 'rz_current_distribution',
                                               'azimuthal_current_distribution', 'current_distribution'))
rn, zn, ro, zo, q = z3.Reals('rn zn ro zo q')
ii, kk, a, b = z3.Ints('ii kk a b')
PI = z3.Real('PI')
MNZL = Fraction(1, 10 ** 15)
one, half = R(Fraction(1)), R(Fraction(1, 2))
RN = dict(RNG, rn=lambda g: g.uniform(.5, 4), ro=lambda g: g.uniform(.5, 4), zn=lambda g: g.uniform(0, 4), zo=lambda g: g.uniform(0, 4), ii=lambda g: g.randint(0, 5),
          kk=lambda g: g.randint(0, 5), PI=lambda g: 3.14159, x0=lambda g: g.choice([0., .25, g.uniform(.05, .95)]), x1=lambda g: g.choice([0., .25, g.uniform(.05, .95)]),
          y0=lambda g: g.choice([0., .25, g.uniform(.05, .95)]), y1=lambda g: g.choice([0., .25, g.uniform(.05, .95)]), q=lambda g: g.uniform(-1, 1))


def log(x):
    return z3.Function('log', z3.RealSort(), z3.RealSort())(x)


def dshare(i, r):
    """-dS_i/dr"""
    return i * (i + 1) * dr / (2 * r * r) + 1 / (2 * dr)


def share(i, r):
    """share of node i of a charge ring [r - dr/2, r + dr/2] centred in cell i (node i+1 takes the rest)"""
    cut, lo = (i + half) * dr, r - dr / 2
    return (cut * cut - lo * lo) / (2 * r * dr)


def area(i, axis):
    return PI * dr * dr / 4 if axis else 2 * PI * i * dr * dr


def flux(i, k, axis, r1, z1, r0, z0, L=None):
    """currents of a straight move (r0, z0) -> (r1, z1) inside cell (i, k): {(component, di, dk): value}"""
    L = log(r1 / r0) if L is None else L
    c = i * (i + 1) * dr / 2
    kap = (r1 - r0) / (z1 - z0)
    sz = (c * L - (r1 * r1 - r0 * r0) / (4 * dr)) / kap + (z1 - z0) / 2
    be = 1 / (kap * dz)
    al = (k + 1) - z0 / dz + r0 * be
    tot = c * (1 / r0 - 1 / r1) + (r1 - r0) / (2 * dr)
    lo = c * (al * (1 / r0 - 1 / r1) - be * L) + (al * (r1 - r0) - be * (r1 * r1 - r0 * r0) / 2) / (2 * dr)
    Q = q / (2 * PI * (i + half) * dr * dz * dt)
    return {(2, 0, 0): q * sz / (dt * area(i, axis) * dz), (2, 1, 0): q * (z1 - z0 - sz) / (dt * area(i + 1, False) * dz),
            (0, 0, 0): Q * lo, (0, 0, 1): Q * (tot - lo)}


def strict_z(i, k, axis, r, z1, z0):
    s = share(i, r)
    return {(2, 0, 0): q * s * (z1 - z0) / (dt * area(i, axis) * dz), (2, 1, 0): q * (1 - s) * (z1 - z0) / (dt * area(i + 1, False) * dz)}


def strict_r(i, k, z, r1, r0):
    tot = i * (i + 1) * dr / 2 * (1 / r0 - 1 / r1) + (r1 - r0) / (2 * dr)
    Q = q * tot / (2 * PI * (i + half) * dr * dz * dt)
    t = k + 1 - z / dz
    return {(0, 0, 0): Q * t, (0, 0, 1): Q * (1 - t)}


def load11(ctx, keep):
    cur = dict(__vptr=VPTR('@_ZTV9CurrentVB'), geometry=G(), time=T(), species_p=VEC(PTR(STRUCT('SpecieP'))), current=STRUCT('Grid3D'))
    m = ctx.load(config(), SRC11, keep, ['current/currentVB.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], sl.SPN, {'CurrentVB': ('CurrentVB', cur)})
    ex = m.exec()
    for c in COMP:
        grid_pins(ex, 'this', f'.current.{c}_component')
    geom_pins(ex)
    ex.pins[('time', '.step')] = dt
    for f in INV + [PI > 3]:
        ex.fact(f)
    return m, ex


GF = [f'this.current.{c}_component.grid->->' for c in COMP]


def contains(i, k):
    """the cell is inside the domain, one cell of halo allowed"""
    return [i - C0 >= -1, i - C0 < NR + 1, k - C1 >= -1, k - C1 < NZ + 1, i >= 0]


def name_cells(t, pins):
    """replace floor(x) by the cell number which the precondition says it is"""
    t = R(t)
    seen, todo, sub = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_TO_INT:
            for u, v in pins:
                if Norm().is_zero_term(x.arg(0) - u.arg(0)):
                    sub.append((x, v))
                    break
        todo += x.children()
    return fold_ints(z3.substitute(t, *sub)) if sub else t


def deposited(ctx, ex, o, fn, want, i, k, hy, tag='', pins=()):
    """the final grid is the old one plus exactly the wanted increments"""
    p = ctx.p
    w = written(o.st)
    p.fact_true('frame: only the r and z current is written', fn, w <= {(GF[0], ''), (GF[2], '')}, str(w))
    base = (i - C0 + S, k - C1 + S)
    for c in (0, 2):
        g = z3.Function(GF[c], z3.IntSort(), z3.IntSort(), z3.RealSort())
        here = {(d, e): v for (cc, d, e), v in want.items() if cc == c}
        for (d, e), v in here.items():
            x, y = base[0] + d, base[1] + e
            f = ex.value_at(o.st, GF[c], '', (x, y))
            p.eq(f'{tag}{"rz"[c // 2]} current at node (i{d:+d}, k{e:+d}) is increased by the flux of the moving charge', fn, name_cells(f, pins), g(x, y) + v, hy, ex.facts, ranges=RN)
        if GF[c] not in ex.fams and not here:
            continue
        F = ex.value_at(o.st, GF[c], '', (a, b))
        p.eq(f'{tag}no other {"rz"[c // 2]} current changes', fn, name_cells(F, pins), g(a, b), hy + [z3.Not(z3.And(a == base[0] + d, b == base[1] + e)) for d, e in here], ex.facts, ranges=RN)


def simple(axis):
    def run(ctx):
        m, ex = load11(ctx, [SIMPLE])
        pre = [ro > 0, rn > 0] + contains(ii, kk)
        big = lambda x: z3.Or(x >= R(MNZL), x <= -R(MNZL))
        pre += [big(rn - ro), big(zn - zo)]
        pre += [ii == 0] if axis else [ii >= 1]
        for f in pre:
            ex.fact(f)
        outs = ex.call_function(m.sym(SIMPLE), [ex.root('this', STRUCT('CurrentVB')), rn, zn, ro, zo, ii, kk, q])
        ctx.p.fact_true('returns', SIMPLE, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        I, K = z3.ToReal(ii), z3.ToReal(kk)
        for o in rets(outs):
            deposited(ctx, ex, o, SIMPLE, flux(I, K, axis, rn, zn, ro, zo), ii, kk, pre + pc_of(ex, o))
    return run


def lemmas(ctx):
    p = ctx.p
    L = z3.Real('L')
    I, K = z3.ToReal(ii), z3.ToReal(kk)
    fn = 'lemma'
    for axis in (True, False):
        i = z3.RealVal(0) if axis else I
        T_ = lambda z: K + 1 - z / dz
        A0, A1, AR = area(i, axis), area(i + 1, False), 2 * PI * (i + half) * dr * dz
        Qn = lambda r, z: {(0, 0): q * share(i, r) * T_(z), (1, 0): q * (1 - share(i, r)) * T_(z), (0, 1): q * share(i, r) * (1 - T_(z)), (1, 1): q * (1 - share(i, r)) * (1 - T_(z))}
        for kind, J, e, st in (('moving obliquely', flux(i, K, axis, rn, zn, ro, zo, L), Qn(rn, zn), Qn(ro, zo)),
                               ('moving along the axis', strict_z(i, K, axis, rn, zn, zo), Qn(rn, zn), Qn(rn, zo)),
                               ('moving radially', strict_r(i, K, zn, rn, ro), Qn(rn, zn), Qn(ro, zn))):
            g = lambda *t: J.get(t, z3.RealVal(0))
            out = {(0, 0): AR * g(0, 0, 0) + A0 * g(2, 0, 0), (1, 0): -AR * g(0, 0, 0) + A1 * g(2, 1, 0),
                   (0, 1): AR * g(0, 0, 1) - A0 * g(2, 0, 0), (1, 1): -AR * g(0, 0, 1) - A1 * g(2, 1, 0)}
            for n in out:
                p.eq(f'lemma: continuity at node (i+{n[0]}, k+{n[1]}) for a charge {kind}{" in the axis cell" if axis else ""}', fn, e[n] - st[n] + dt * out[n], z3.RealVal(0), [], [], ranges=RN)
    p.eq('lemma: at the border of two cells both assign the whole charge to the common node', fn, share(I, (I + 1) * dr), z3.RealVal(0), [ii >= 0], [], ranges=RN)
    p.eq('lemma: at the border of two cells both assign the whole charge to the common node (upper cell)', fn, share(I + 1, (I + 1) * dr), z3.RealVal(1), [ii >= 0], [], ranges=RN)


def strict(kind, dn, axis):
    """strict motion: kind 'z' along the axis / 'r' radially; dn = new cell - old cell along it"""
    def run(ctx):
        m, ex = load11(ctx, [STRICT])
        I, K = z3.ToReal(ii), z3.ToReal(kk)
        near = lambda x: z3.And(x < R(MNZL), x > -R(MNZL))
        far = lambda x: z3.Not(near(x))
        inn = lambda x, n, d: z3.And(x >= n * d, x < (n + 1) * d)
        fl = [z3.ToInt(rn / dr) == ii, z3.ToInt(zn / dz) == kk]
        if kind == 'z':
            pre = [near(rn - ro), far(zn - zo), z3.ToInt(zo / dz) == kk - dn]
            rad, fx = rn, zn
        else:
            pre = [near(zn - zo), far(rn - ro), z3.ToInt(ro / dr) == ii - dn]
        pre += fl + [ro > 0, rn > 0] + contains(ii, kk) + ([ii == 0] if axis else [ii >= 1])
        pre += [ii - C0 >= 0, ii - C0 < NR, kk - C1 >= 0, kk - C1 < NZ]
        if kind == 'r' and dn:
            pre.append(ii - dn >= 0)
        for f in pre:
            ex.fact(f)
        pins = [(z3.ToInt(rn / dr), ii), (z3.ToInt(zn / dz), kk)] + ([(z3.ToInt(zo / dz), kk - dn)] if kind == 'z' else [(z3.ToInt(ro / dr), ii - dn)])
        outs = ex.call_function(m.sym(STRICT), [ex.root('this', STRUCT('CurrentVB')), rn, zn, ro, zo, q])
        p = ctx.p
        p.fact_true('returns', STRICT, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        want = {}

        def put(d, di, dk):
            for (c, x, y), v in d.items():
                t = (c, x + di, y + dk)
                want[t] = want[t] + v if t in want else v
        if kind == 'z':
            if dn == 0:
                put(strict_z(I, K, axis, rn, zn, zo), 0, 0)
            else:
                zb = (K if dn > 0 else K + 1) * dz
                put(strict_z(I, K - dn, axis, rn, zb, zo), 0, -dn)
                put(strict_z(I, K, axis, rn, zn, zb), 0, 0)
        else:
            if dn == 0:
                put(strict_r(I, K, zn, rn, ro), 0, 0)
            else:
                rb = (I if dn > 0 else I + 1) * dr
                put(strict_r(I - dn, K, zn, rb, ro), -dn, 0)
                put(strict_r(I, K, zn, rn, rb), 0, 0)
        for o in rets(outs):
            deposited(ctx, ex, o, STRICT, want, ii, kk, pre + pc_of(ex, o), f'strict {kind} {dn:+d}: ', pins)
    return run


def azimuthal(ctx):
    m, ex = load11(ctx, [AZI, INC, OSET])
    ops(m, ex)
    p = ctx.p
    outs = ex.call_function(m.sym(AZI), [ex.root('this', STRUCT('CurrentVB'))])
    p.fact_true('returns', AZI, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    phi = ex.lay.offset('CurrentVB', 'current')[0] + ex.lay.offset('Grid3D', 'phi_component')[0]
    s_, j_ = z3.Int('s'), z3.Int('j')
    P2 = lambda n: z3.Function(PP + '.' + n, z3.IntSort(), z3.IntSort(), z3.RealSort())(s_, j_)
    PI2 = lambda n: z3.Function(PP + '.' + n, z3.IntSort(), z3.IntSort(), z3.IntSort())(s_, j_)
    Q = z3.Function(SP + '.charge', z3.IntSort(), z3.RealSort())(s_) * P2('weight')
    ci, ck = PI2('cell_r'), PI2('cell_z')
    I, K = z3.ToReal(ci), z3.ToReal(ck)
    r, z = (P2('pos_r') + P2('pos_old_r')) / 2, (P2('pos_z') + P2('pos_old_z')) / 2
    hy = [P2('pos_r') > 0, P2('pos_old_r') > 0, s_ >= 0, s_ < z3.Int('this.species_p.size'), j_ >= 0, j_ < z3.Function(SP + '.particles.size', z3.IntSort(), z3.IntSort())(s_), ci >= 0]
    cut, lo, hi = (I + half) * dr, r - dr / 2, r + dr / 2
    wr = [(cut * cut - lo * lo) / (2 * r * dr), (hi * hi - cut * cut) / (2 * r * dr)]
    wz = [K + 1 - z / dz, z / dz - K]
    vol = lambda n: PI * dz * dr * dr * (2 * (I + n) + 1)
    rg = dict(RN)
    rg.update({PP + '.pos*': lambda g: g.uniform(.2, 4), PP + '.cell_*': lambda g: g.randint(0, 4), PP + '.vel_phi': lambda g: g.uniform(-1, 1), PP + '.weight': lambda g: g.uniform(.5, 2), 's': lambda g: 0, 'j': lambda g: 0})
    for o in rets(outs):
        p.fact_true('frame: only deposits', AZI, not written(o.st), str(written(o.st)))
        acc = {}
        for e in o.st.log:
            if e.kind != 'op' or e.fam == OSET:
                continue
            A = e.meta['a']
            p.fact_true('deposits go to the azimuthal component', AZI, A[0].fam.name == 'this' and A[0].off == phi, f'{A[0]}')
            if len(e.loops) != 2:
                raise Unsupported('deposit loop nest')
            pairs = [(e.loops[0].k, s_), (e.loops[1].k, j_)]
            sub = lambda x: x if is_c(x) or isinstance(x, bool) else z3.substitute(ex.expand(o.st, x), *pairs)
            x, y = sub(A[1]), sub(A[2])
            at = None
            for d in (0, 1):
                for f in (0, 1):
                    if Norm().is_zero_term(z3.ToReal(x - (ci - C0 + d))) and Norm().is_zero_term(z3.ToReal(y - (ck - C1 + f))):
                        at = (d, f)
            if at is None:
                raise Unsupported('deposit target not among the nodes of the cell')
            g = band(sub(e.guard), band(*[sub(l.dom) for l in e.loops]))
            acc[at] = radd(acc.get(at, Fraction(0)), ite(g, sub(A[3]), Fraction(0)))
        for d in (0, 1):
            for f in (0, 1):
                p.eq(f'azimuthal current at node (i+{d}, k+{f}): ring share of q v_phi at the mean position per node volume', AZI, acc.get((d, f), Fraction(0)),
                     Q * P2('vel_phi') * wr[d] * wz[f] / vol(d), hy, ex.facts, ranges=rg)
    p.eq('lemma: azimuthal shares sum to one', 'lemma', (wr[0] + wr[1]) * (wz[0] + wz[1]), z3.RealVal(1), [], [], ranges=rg)


INC, OSET = 'Grid<double>::inc', 'Grid<double>::overlay_set'


def ops(m, ex):
    for g in (INC, OSET):
        for sy in m.inv.get(g, []):
            ex.contracts[sy] = logop(g)


def top(ctx):
    m, ex = load11(ctx, [TOP, SIMPLE, STRICT, INC, OSET, 'Grid<double>::operator='])
    ops(m, ex)
    ex.contracts[m.sym(SIMPLE)] = logop(SIMPLE)
    ex.contracts[m.sym(STRICT)] = logop(STRICT)
    p = ctx.p
    outs = ex.call_function(m.sym(TOP), [ex.root('this', STRUCT('CurrentVB'))])
    p.fact_true('returns', TOP, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    base = ex.lay.offset('CurrentVB', 'current')[0]
    offs = {base + ex.lay.offset('Grid3D', c + '_component')[0]: c for c in COMP}
    for o in rets(outs):
        p.fact_true('frame: only deposits', TOP, not written(o.st), str(written(o.st)))
        seen, clr, dep = False, [], set()
        for e in o.st.log:
            if e.kind != 'op':
                continue
            A = e.meta['a']
            if e.fam == OSET:
                p.fact_true('halos are cleared before anything is deposited, never afterwards', TOP, not seen and e.guard is True and not e.loops, 'overlay_set after deposits', refuted=False)
                p.fact_true('halos are cleared to zero', TOP, A[1] == 0, str(A[1]), refuted=False)
                clr.append(offs.get(A[0].off))
            else:
                seen = True
                dep.add(e.fam)
        p.fact_true('the halos of all three components are cleared once', TOP, sorted(map(str, clr)) == sorted(COMP), str(clr), refuted=False)
        p.fact_true('azimuthal, oblique and strict deposits are all made', TOP, dep == {INC, SIMPLE, STRICT}, str(dep), refuted=False)


SP, PP = 'this.species_p[]->', 'this.species_p[]->.particles[]->'
x0, x1, y0, y1, qc, wt = z3.Reals('x0 x1 y0 y1 qc wt')
ATTR = {'.pos_r': dr * (ii + x1), '.pos_z': dz * (kk + y1)}


def particle_subst(t, di, dk, loops):
    """describe the particle by cell numbers and positions within the cells: new cell (ii, kk), old cell (ii+di, kk+dk)"""
    val = {PP + '.pos_r': dr * (z3.ToReal(ii) + x1), PP + '.pos_z': dz * (z3.ToReal(kk) + y1), PP + '.pos_old_r': dr * (z3.ToReal(ii) + di + x0),
           PP + '.pos_old_z': dz * (z3.ToReal(kk) + dk + y0), PP + '.cell_r': ii, PP + '.cell_z': kk, SP + '.charge': qc, PP + '.weight': wt}
    fl = {(0, 'o'): (z3.ToReal(ii) + di + x0, ii + di), (0, 'n'): (z3.ToReal(ii) + x1, ii), (1, 'o'): (z3.ToReal(kk) + dk + y0, kk + dk), (1, 'n'): (z3.ToReal(kk) + y1, kk)}
    memo = {}

    def go(x):
        h = memo.get(x.get_id())
        if h is not None:
            return h[1]
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in val:
            want = [l.k for l in loops][:x.num_args()]
            if not all(u.eq(v) for u, v in zip(x.children(), want)):
                raise Unsupported('attribute of another particle')
            r = val[d.name()]
        elif d.kind() == z3.Z3_OP_TO_INT:
            c = go(x.arg(0))
            r = None
            for u, v in fl.values():
                if Norm().is_zero_term(c - u):
                    r = v
            if r is None:
                r = z3.ToInt(c)
        elif x.num_args():
            r = d(*[go(c) for c in x.children()])
        else:
            r = x
        memo[x.get_id()] = (x, r)
        return r
    return z3.simplify(go(t)) if z3.is_bool(t) else go(t)


def scale_free(t):
    """comparisons which are homogeneous in one cell size are divided by it"""
    memo = {}
    CMP = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_GT: lambda x: x > 0, z3.Z3_OP_EQ: lambda x: x == 0}

    def go(x):
        h = memo.get(x.get_id())
        if h is not None:
            return h[1]
        r = x
        k = x.decl().kind() if z3.is_app(x) else None
        if k in CMP and z3.is_real(x.arg(0)) and not any(z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE for c in x.children()):
            D = go(x.arg(0)) - go(x.arg(1))
            D1 = z3.simplify(z3.substitute(D, (dr, z3.RealVal(1)), (dz, z3.RealVal(1))))
            for u in (dr, dz, z3.RealVal(1)):
                try:
                    if Norm().is_zero_term(D - u * D1):
                        r = CMP[k](D1)
                        break
                except Exception:
                    pass
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if any(not c.eq(o) for c, o in zip(ch, x.children())):
                r = rebuild(x, ch)
        memo[x.get_id()] = (x, r)
        return r
    return go(t)


def decide(g, hy):
    """True / False / None: guard under hypotheses"""
    g = z3.simplify(g)
    if z3.is_true(g) or z3.is_false(g):
        return z3.is_true(g)
    for want, c in ((False, g), (True, z3.Not(g))):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hy)
        s.add(c)
        if s.check() == z3.unsat:
            return want
    return None


def reach(di, dk, order=None, tie=False):
    """a particle whose old cell is (new cell) + (di, dk)"""
    def run(ctx):
        m, ex = load11(ctx, [RZ, SIMPLE, STRICT])
        ex.contracts[m.sym(SIMPLE)] = logop(SIMPLE)
        ex.contracts[m.sym(STRICT)] = logop(STRICT)
        p = ctx.p
        outs = ex.call_function(m.sym(RZ), [ex.root('this', STRUCT('CurrentVB'))])
        p.fact_true('returns', RZ, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        I, K = z3.ToReal(ii), z3.ToReal(kk)
        r0, r1, z0, z1 = dr * (I + di + x0), dr * (I + x1), dz * (K + dk + y0), dz * (K + y1)
        geo = [dr > 0, dz > 0, ii >= 0, ii + di >= 0, kk >= 0, kk + dk >= 0] + [z3.And(x >= 0, x < 1) for x in (x0, x1, y0, y1)] + [r0 > 0, r1 > 0]
        M = R(MNZL)
        ab = lambda x: z3.If(x >= 0, x, -x)
        far = lambda x: z3.Or(x >= M, x <= -M)
        rb, zb = dr * (I + (1 if di > 0 else 0)), dz * (K + (1 if dk > 0 else 0))     # the cell borders passed
        on_r = lambda r: z0 + (r - r0) * (z1 - z0) / (r1 - r0)
        on_z = lambda z: r0 + (z - z0) * (r1 - r0) / (z1 - z0)
        kinds = [('oblique', [far(r1 - r0), far(z1 - z0)])]
        if order is None:
            if di == 0:
                kinds.append(('axial', [z3.Not(far(r1 - r0)), far(z1 - z0)]))
            if dk == 0:
                kinds.append(('radial', [z3.Not(far(z1 - z0)), far(r1 - r0)]))
        P0, P3 = (r0, z0), (r1, z1)
        PR, PZ = (rb, on_r(rb)) if di else None, (on_z(zb), zb) if dk else None
        if not di and not dk:
            segs = [(P3, P0, 0, 0)]
        elif not dk:
            segs = [(PR, P0, di, 0), (P3, PR, 0, 0)]
        elif not di:
            segs = [(PZ, P0, 0, dk), (P3, PZ, 0, 0)]
        elif order == 'r':
            segs = [(PR, P0, di, dk), (PZ, PR, 0, dk), (P3, PZ, 0, 0)]
        else:
            segs = [(PZ, P0, di, dk), (PR, PZ, di, 0), (P3, PR, 0, 0)]
        for kind, hk in kinds:
            hy = geo + hk
            if order:
                # which border is passed first: fractions of the way, denominators are positive
                tr = ((1 - x0) if di < 0 else x0, (x1 - x0 - di) * (-1 if di > 0 else 1))
                tz = ((1 - y0) if dk < 0 else y0, (y1 - y0 - dk) * (-1 if dk > 0 else 1))
                l, r_ = tr[0] * tz[1], tz[0] * tr[1]
                if order == 'r':
                    hy = hy + [l <= r_ if tie else l < r_]
                else:
                    hy = hy + [l >= r_ if tie else l > r_]
            for o in rets(outs):
                if written(o.st):
                    raise Unsupported('direct writes besides the two deposition routines')
                act = []
                for e in o.st.log:
                    if e.kind != 'op':
                        continue
                    if len(e.loops) != 2:
                        raise Unsupported('deposit loop nest')
                    sub = lambda t: t if is_c(t) or isinstance(t, bool) else particle_subst(ex.expand(o.st, t), di, dk, e.loops)
                    doms = [l.dom for l in e.loops]
                    full = [z3.And(e.loops[0].k >= 0, e.loops[0].k < z3.Int('this.species_p.size')),
                            z3.And(e.loops[1].k >= 0, e.loops[1].k < z3.Function(SP + '.particles.size', z3.IntSort(), z3.IntSort())(e.loops[0].k))]
                    p.fact_true('every particle of every species is visited', RZ, all(not isinstance(u, bool) and z3.is_true(z3.simplify(u == v)) or decide(u == v, []) is True for u, v in zip(doms, full)), str(doms), refuted=False)
                    g = True if e.guard is True else decide(sub(R(e.guard) if isinstance(e.guard, bool) else e.guard), hy)
                    if g is None:
                        raise Unsupported('cannot decide whether a deposit takes place')
                    if g:
                        act.append((e.fam, [sub(x) if not isinstance(x, Ptr) else x for x in e.meta['a']][1:]))
                nm = f'{kind}, old cell ({di:+d},{dk:+d}){" " + order + " border first" if order else ""}: '
                if kind != 'oblique':
                    p.fact_true(nm + 'deposited once, as strict motion', RZ, [f for f, _ in act] == [STRICT], str(act)[:300], refuted=False)
                    for f, A in act[:1]:
                        if f == STRICT:
                            for t, u, v in zip('rn zn ro zo q'.split(), A, (r1, z1, r0, z0, qc * wt)):
                                p.eq(nm + f'argument {t}', RZ, u, v, hy, ex.facts, ranges=RN)
                    continue
                p.fact_true(nm + f'deposited as {len(segs)} segments', RZ, [f for f, _ in act] == [SIMPLE] * len(segs), str([f for f, _ in act]), refuted=False)
                if [f for f, _ in act] != [SIMPLE] * len(segs):
                    continue
                for (f, A), (e_, s_, ei, ek) in zip(act, segs):
                    for t, u, v in zip(('end r', 'end z', 'start r', 'start z', 'cell r', 'cell z', 'charge'), A, (e_[0], e_[1], s_[0], s_[1], I + ei, K + ek, qc * wt)):
                        p.eq(nm + f'segment in cell ({ei:+d},{ek:+d}): {t}', RZ, R(u) if is_c(u) or not z3.is_int(u) else z3.ToReal(u), v, hy, ex.facts, ranges=RN)
        # in-cell claim, in units of cells
        unit = [z3.And(x >= 0, x < 1) for x in (x0, x1, y0, y1)]
        dx, dy = x1 - x0 - di, y1 - y0 - dk
        unit += [dx != 0, dy != 0]
        U0, U3 = (di + x0, dk + y0), (x1, y1)
        bx, by = 1 if di > 0 else 0, 1 if dk > 0 else 0
        UR, UZ = (z3.RealVal(bx), U0[1] + (bx - U0[0]) * dy / dx), (U0[0] + (by - U0[1]) * dx / dy, z3.RealVal(by))
        um = {id(P0): U0, id(P3): U3, id(PR): UR, id(PZ): UZ}
        if order:
            unit.append(tr[0] * tz[1] <= tz[0] * tr[1] if order == 'r' else tr[0] * tz[1] >= tz[0] * tr[1])
        for (e_, s_, ei, ek) in segs:
            for v in (e_, s_):
                u = um[id(v)]
                p.eq(f'old cell ({di:+d},{dk:+d}){order or ""}: segment end in cell units (r)', RZ, v[0], dr * (I + u[0]), geo + kinds[0][1], [], ranges=RN)
                p.eq(f'old cell ({di:+d},{dk:+d}){order or ""}: segment end in cell units (z)', RZ, v[1], dz * (K + u[1]), geo + kinds[0][1], [], ranges=RN)
                p.holds(f'old cell ({di:+d},{dk:+d}){order or ""}: each segment stays in its cell ({ei:+d},{ek:+d})', RZ, z3.And(u[0] >= ei, u[0] <= ei + 1, u[1] >= ek, u[1] <= ek + 1), unit)
    return run


def diagonal(di, dk):
    def run(ctx):
        both = 0
        for o in 'rz':
            n = len(ctx.p.rows)
            try:
                reach(di, dk, o, True)(ctx)
                both += 1
            except Unsupported:
                del ctx.p.rows[n:]
                reach(di, dk, o, False)(ctx)
        ctx.p.fact_true('a particle passing exactly through a cell corner is deposited', RZ, both > 0, 'neither order covers the corner', refuted=False)
    return run


REGIONS = [(di, dk) for di in (-1, 0, 1) for dk in (-1, 0, 1)]


def sections(tier):
    st = [(f'strict motion along {c} {dn:+d}{" at the axis" if ax else ""}', strict(c, dn, ax)) for c in 'zr' for dn in (0, 1, -1) for ax in ((True, False) if not (c == 'r' and dn == 1) else (False,))]
    return [('lemmas', lemmas), ('whole deposition', top), ('azimuthal', azimuthal), ('segment at the axis', simple(True)), ('segment in the bulk', simple(False))] + st + \
        [(f'particle from cell ({di:+d},{dk:+d})', (diagonal if di and dk else reach)(di, dk)) for di, dk in REGIONS]


def natives(tier):
    return [Native('continuity', 'c11.cpp', sl.NSRC + SRC11, config(), n=(3000, 200000))]
