"""ZigZag current deposition: continuity of the linearly assigned charge, azimuthal current."""
from yeelib import *
import C11
import specielib as sl
from C11 import ii, kk, x0, x1, y0, y1, qc, wt, PI, PP, SP, RN, INC, OSET, particle_subst, decide, scale_free
from prove import find_ite, rebuild
from norm import Norm
from specielib import logop
from extract import swap
from runner import Native

LEVEL = 'proof'
SRC = ['src/current/currentZigZag.cpp']
FN = 'CurrentZigZag::current_distribution'
vp = z3.Real('vp')


def cfg():
    return swap(config(), 'SWITCH_CCS_', 'SWITCH_CCS_ZIGZAG')


def resolve(t):
    """decide min/max of positions within the cells"""
    t = scale_free(t)
    if z3.is_bool(t):
        return t
    hy = [z3.And(x >= 0, x < 1) for x in (x0, x1, y0, y1)]
    while True:
        c = find_ite(t)
        if c is None:
            return t
        d = decide(c, hy)
        if d is None:
            return t
        t = z3.substitute(t, (c, z3.BoolVal(d)))
        t = drop_ite(scale_free(t))


def drop_ite(t):
    memo = {}

    def go(x):
        h = memo.get(x.get_id())
        if h is not None:
            return h[1]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and (z3.is_true(x.arg(0)) or z3.is_false(x.arg(0))):
            r = go(x.arg(1) if z3.is_true(x.arg(0)) else x.arg(2))
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            r = x if all(c.eq(o) for c, o in zip(ch, x.children())) else rebuild(x, ch)
        else:
            r = x
        memo[x.get_id()] = (x, r)
        return r
    return go(t)


def go(di, dk):
    def run(ctx):
        cur = dict(__vptr=VPTR('@_ZTV13CurrentZigZag'), geometry=G(), time=T(), species_p=VEC(PTR(STRUCT('SpecieP'))), current=STRUCT('Grid3D'))
        m = ctx.load(cfg(), SRC, [FN, INC, OSET], ['current/currentZigZag.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], sl.SPN, {'CurrentZigZag': ('CurrentZigZag', cur)})
        ex = m.exec()
        geom_pins(ex)
        ex.pins[('time', '.step')] = dt
        for f in INV + [PI > 3]:
            ex.fact(f)
        C11.ops(m, ex)
        p = ctx.p
        outs = ex.call_function(m.sym(FN), [ex.root('this', STRUCT('CurrentZigZag'))])
        p.fact_true('returns', FN, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        base = ex.lay.offset('CurrentZigZag', 'current')[0]
        comp = {base + ex.lay.offset('Grid3D', c + '_component')[0]: n for n, c in enumerate(COMP)}
        I, K = z3.ToReal(ii), z3.ToReal(kk)
        r0, r1, z0, z1 = dr * (I + di + x0), dr * (I + x1), dz * (K + dk + y0), dz * (K + y1)
        hy = [dr > 0, dz > 0, dt > 0, PI > 3, ii >= 0, ii + di >= 0, kk >= 0, kk + dk >= 0] + [z3.And(x >= 0, x < 1) for x in (x0, x1, y0, y1)]
        units = [x0, x1, y0, y1]
        q = qc * wt
        vol = PI * dz * dr * dr * (2 * z3.ToReal(z3.ToInt((r0 + r1) / 2 / dr)) + 1)
        for o in rets(outs):
            p.fact_true('frame: only deposits into the current', FN, not written(o.st), str(written(o.st)))
            acc, seen, clr = {}, False, []
            for e in o.st.log:
                if e.kind != 'op':
                    continue
                A = e.meta['a']
                c = comp.get(A[0].off) if A[0].fam.name == 'this' else None
                if c is None:
                    raise Unsupported('deposit target')
                if e.fam == OSET:
                    clr.append(c)
                    p.fact_true('halos are cleared before anything is deposited', FN, not seen and not e.loops and e.guard is True and A[1] == 0, '', refuted=False)
                    continue
                seen = True
                if len(e.loops) != 2:
                    raise Unsupported('deposit loop nest')

                def sub(t):
                    if is_c(t) or isinstance(t, bool):
                        return t
                    t = ex.expand(o.st, t)
                    v = particle_subst(t, di, dk, e.loops)
                    f = z3.Function(PP + '.vel_phi', z3.IntSort(), z3.IntSort(), z3.RealSort())(e.loops[0].k, e.loops[1].k)
                    return resolve(z3.substitute(v, (f, vp)))
                full = [z3.And(e.loops[0].k >= 0, e.loops[0].k < z3.Int('this.species_p.size')),
                        z3.And(e.loops[1].k >= 0, e.loops[1].k < z3.Function(SP + '.particles.size', z3.IntSort(), z3.IntSort())(e.loops[0].k))]
                p.fact_true('every particle of every species is visited', FN, all(decide(u == v, []) is True for u, v in zip([l.dom for l in e.loops], full)), '', refuted=False)
                if e.guard is not True:
                    raise Unsupported('guarded deposit')
                at = None
                for d in (-1, 0, 1, 2):
                    for f in (-1, 0, 1, 2):
                        if Norm().is_zero_term(z3.ToReal(sub(A[1]) - (ii - C0 + d))) and Norm().is_zero_term(z3.ToReal(sub(A[2]) - (kk - C1 + f))):
                            at = (c, d, f)
                if at is None:
                    raise Unsupported('deposit target is not a node of the two cells')
                acc[at] = radd(acc.get(at, Fraction(0)), sub(A[3]))
            p.fact_true('the halos of all three components are cleared once', FN, sorted(clr) == [0, 1, 2], str(clr), refuted=False)
            Z = lambda *t: R(acc.get(t, Fraction(0)))
            chg = {}
            for s_, i, k, x, y in ((1, 0, 0, x1, y1), (-1, di, dk, x0, y0)):
                for d in (0, 1):
                    for f in (0, 1):
                        chg[(i + d, k + f)] = chg.get((i + d, k + f), z3.RealVal(0)) + s_ * q * (x if d else 1 - x) * (y if f else 1 - y)
            nodes = sorted(set(chg) | {(a_, b_) for c, a_, b_ in acc} | {(a_ + 1, b_) for c, a_, b_ in acc if c == 0} | {(a_, b_ + 1) for c, a_, b_ in acc if c == 2})
            nm = f'old cell ({di:+d},{dk:+d}): '
            for n in nodes:
                out = (Z(0, *n) - Z(0, n[0] - 1, n[1])) / dr + (Z(2, *n) - Z(2, n[0], n[1] - 1)) / dz
                p.eq(nm + f'charge leaving node (i{n[0]:+d}, k{n[1]:+d}) equals the current flowing out of it', FN, chg.get(n, z3.RealVal(0)) + dt * vol * out, z3.RealVal(0), hy, ex.facts, ranges=RN, units=units)
            tot = sum((Z(1, a_, b_) for c, a_, b_ in acc if c == 1), z3.RealVal(0))
            p.eq(nm + 'azimuthal current sums to q v_phi', FN, vol * tot, q * vp, hy, ex.facts, ranges=RN, units=units)
            mid = lambda d_, x_, x2: (x2 + (z3.RealVal(1 if d_ > 0 else 0) if d_ else (x_ + x2) / 2)) / 2      # middle of the last part of the path
            wr, wz = mid(di, x0, x1), mid(dk, y0, y1)
            for d in (0, 1):
                for f in (0, 1):
                    p.eq(nm + f'azimuthal current at node (i+{d}, k+{f}) is the linear share at the middle of the last part of the path', FN, vol * Z(1, d, f), q * vp * (wr if d else 1 - wr) * (wz if f else 1 - wz), hy, ex.facts, ranges=RN, units=units)
            p.fact_true(nm + 'azimuthal current stays on the nodes of the particle\'s cell', FN, {t for t in acc if t[0] == 1} <= {(1, d, f) for d in (0, 1) for f in (0, 1)}, str(set(acc)), refuted=False)
            # mean flux: the whole current is the displacement of the charge
            for c, d_, dlt in ((0, dr, r1 - r0), (2, dz, z1 - z0)):
                p.eq(nm + f'the {"rz"[c // 2]} current sums to charge times mean velocity', FN, vol * dt * sum((Z(cc, a_, b_) for cc, a_, b_ in acc if cc == c), z3.RealVal(0)), q * dlt, hy, ex.facts, ranges=RN, units=units)
    return run


def sections(tier):
    return [(f'old cell ({di:+d},{dk:+d})', go(di, dk)) for di in (-1, 0, 1) for dk in (-1, 0, 1)]


def natives(tier):
    return [Native('zigzag', 'c20.cpp', sl.NSRC + SRC, cfg(), n=(3000, 200000))]
