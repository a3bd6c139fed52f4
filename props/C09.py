"""Reflection of particles from the outer walls (and from the axis half-cell)."""
from specielib import *
from norm import Norm
from itertools import product
from runner import Native

LEVEL = 'proof'
FN = 'SpecieP::reflect'
j = z3.Int('j')
dr, dz, SR, SZ = z3.Reals('dr dz SR SZ')
C0, C1 = z3.Ints('c0 c1')
AX = {'r': dict(d=dr, lo=dr / 2, hi=SR - dr / 2, shift=z3.ToReal(C0) * dr), 'z': dict(d=dz, lo=dz / 2, hi=SZ - dz / 2, shift=z3.ToReal(C1) * dz)}
GEO = [dr > 0, dz > 0, SR >= 2 * dr, SZ >= 2 * dz, C0 >= 0, C1 >= 0]


class Mirror:
    """Invariant of the multiple-reflection loop.  Per axis: ghost (flip, a) with
         vel = flip ? -vel0 : vel0,   pos = (flip ? 2 lo - pos0 : pos0) + 2 a (hi - lo)
       i.e. pos is the image of pos0 under an alternating sequence of mirrors at the two wall planes."""

    def __init__(self, ctx, walls):
        self.ctx = ctx
        self.w = {'r': (walls[0], walls[2]), 'z': (walls[1], walls[3])}
        self.facts = None
        self.runs = 0

    def skolem(self, ex, nm, sort='r'):
        s = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[sort]
        return z3.Function(f'{nm}!{ex.loop_count}', z3.IntSort(), s)(self.k)

    def begin(self, ex, s, init):
        self.runs += 1
        ks = {}
        for v in init.values():
            if isinstance(v, z3.ExprRef):
                for t in subterms(v):
                    if t.decl().name() == P + '.pos_r':
                        ks[t.arg(0).get_id()] = t.arg(0)
        if len(ks) != 1:
            raise Unsupported('reflection loop: particle not identified')
        self.k = list(ks.values())[0]
        ex.loop_count += 1
        plan = {'phi': {}, 'heap': [], 'g': {}}
        for c, q in AX.items():
            want = PT('pos_' + c)(self.k) - q['shift']
            hit = [n for n, v in init.items() if isinstance(v, z3.ExprRef) and z3.is_real(v) and zero(v - want)]
            if len(hit) != 1:
                raise Unsupported(f'reflection loop: local {c} position not identified')
            plan['phi'][hit[0]] = ('pos_' + c, self.skolem(ex, 'cur_pos_' + c))
            plan['heap'].append((P, '.vel_' + c, (self.k,), 'vel_' + c, self.skolem(ex, 'cur_vel_' + c)))
            plan['g'][c] = (self.skolem(ex, 'flip_' + c, 'b'), self.skolem(ex, 'turns_' + c, 'i'))
        self.plan = plan
        self.cur = {n: v for n, v in plan['phi'].values()}
        self.cur.update({h[3]: h[4] for h in plan['heap']})
        # initially: no mirror
        for c in AX:
            self.ctx.p.holds(f'loop invariant holds initially ({c})', FN, self.rel(c, self.p0(c), PT('vel_' + c)(self.k), z3.BoolVal(False), z3.IntVal(0)), GEO)
        return plan

    def p0(self, c):
        return PT('pos_' + c)(self.k) - AX[c]['shift']

    def out(self, c, p):
        lo, hi = self.w[c]
        q = AX[c]
        return z3.Or(*(([p > q['hi']] if hi else []) + ([p < q['lo']] if lo else []))) if lo or hi else z3.BoolVal(False)

    def rel(self, c, pos, vel, flip, a):
        q = AX[c]
        v0, x0 = PT('vel_' + c)(self.k), self.p0(c)
        L = q['hi'] - q['lo']
        lo, hi = self.w[c]
        R_ = [vel == z3.If(flip, -v0, v0), pos == z3.If(flip, 2 * q['lo'] - x0, x0) + 2 * z3.ToReal(a) * L]
        if not hi:
            R_.append(a == 0)
        if not lo:
            R_.append(a == z3.If(flip, 1, 0))
        if not lo and not hi:
            R_.append(z3.Not(flip))
        # a particle inside this axis' walls is never mirrored along it
        R_.append(z3.Implies(z3.Not(self.out(c, x0)), z3.And(z3.Not(flip), a == 0)))
        return z3.And(*R_)

    def inv(self):
        return [self.rel(c, self.cur['pos_' + c], self.cur['vel_' + c], *self.plan['g'][c]) for c in AX]

    def assume(self, ex, plan):
        return self.inv()

    def preserve(self, ex, plan, st, new, pc):
        hy = GEO + [ex.expand(st, x) for x in pc if not isinstance(x, bool)]
        for c in AX:
            f, a = plan['g'][c]
            nf = z3.Not(f)
            g = lambda n: ex.expand(st, R(new[n]))
            vel, pos = g('vel_' + c), g('pos_' + c)
            alt = [self.rel(c, pos, vel, *w) for w in ((f, a), (nf, 1 - a), (nf, -a), (f, a - 1), (f, a + 1))]
            self.ctx.p.holds(f'one mirror per crossed {c} wall plane: position and velocity component together', FN, z3.Or(*alt), hy, ex.facts)
            q = AX[c]
            dist = lambda x: z3.If(z3.And(x > q['hi'], bool(self.w[c][1])), x - q['hi'], z3.If(z3.And(x < q['lo'], bool(self.w[c][0])), q['lo'] - x, z3.RealVal(0)))
            old = self.cur['pos_' + c]
            self.ctx.p.holds(f'variant: the distance behind the {c} walls shrinks by the wall spacing or becomes zero', FN,
                             z3.Or(dist(pos) == 0, dist(pos) <= dist(old) - (q['hi'] - q['lo'])), hy, ex.facts)

    def done(self, ex, plan, exits):
        ks = [(self.k, j)]
        sub = lambda x: z3.substitute(x, *ks) if isinstance(x, z3.ExprRef) else x
        self.facts = [sub(x) for x in self.inv()] + [z3.Or(*[sub(x) for x in exits]) if exits else z3.BoolVal(False)]
        self.final = {n: sub(v) for n, v in self.cur.items()}
        self.ghost = {c: tuple(sub(x) for x in g) for c, g in plan['g'].items()}


def subterms(v):
    seen, st = {}, [v]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        st.extend(t.children())
    return seen.values()


def zero(t):
    try:
        return Norm().is_zero_term(t)
    except Exception:
        return False


def go(walls):
    def run(ctx):
        m, ex = load(ctx, [FN])
        vec_pin(ex, 'geometry', '.cell_size', [dr, dz])
        vec_pin(ex, 'geometry', '.size', [SR, SZ])
        vec_pin(ex, 'geometry', '.cell_dims', [C0, C1, None, None])
        ex.pins[('geometry.walls.bits', '')] = sum(1 << n for n, w in enumerate(walls) if w)
        for q in GEO:
            ex.fact(q)
        sp = Mirror(ctx, walls)
        sy = m.sym(FN)

        def hook(ex, s, h, stop):
            loops = s.frames[-1].f.loops
            body = loops[h]
            inner = not any(x != h and x in body for x in loops)
            nested = any(x != h and h in loops[x] for x in loops)
            if inner and nested:
                return ex.while_loop(s, h, stop, sp)
            return NotImplemented
        ex.hooks[sy] = hook
        outs = ex.call_function(sy, [ex.root('this', STRUCT('SpecieP'))])
        p = ctx.p
        p.fact_true('returns', FN, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        if any(walls) and sp.runs != 1:
            raise Unsupported(f'{sp.runs} reflection loops')
        for o in rets(outs):
            w = written(o.st)
            p.fact_true('frame: only position and velocity in r and z may change', FN, w <= {(P, '.' + l) for l in ('vel_r', 'vel_z', 'pos_r', 'pos_z')}, str(w))
            hy = GEO + [j >= 0, j < NP] + pc_of(ex, o) + (sp.facts or [])
            for c, q in AX.items():
                pos = R(ex.value_at(o.st, P, '.pos_' + c, (j,))) - q['shift']
                vel = R(ex.value_at(o.st, P, '.vel_' + c, (j,)))
                x0, v0 = PT('pos_' + c)(j) - q['shift'], PT('vel_' + c)(j)
                lo, hi = sp.w[c]
                if hi:
                    p.holds(f'{c}: the particle ends below the upper wall plane', FN, pos <= q['hi'], hy, ex.facts)
                if lo:
                    p.holds(f'{c}: the particle ends above the lower wall plane', FN, pos >= q['lo'], hy, ex.facts)
                if lo or hi:
                    sp.k = j
                    f, a = sp.ghost[c]
                    p.holds(f'{c}: position and velocity are the mirror image', FN, sp.rel(c, pos, vel, f, a), hy, ex.facts)
                    sp2 = [z3.Not(sp.out(c, x0))]
                else:
                    sp2 = []
                p.holds(f'{c}: a particle between the walls keeps its position and velocity', FN, z3.And(pos == x0, vel == v0), hy + sp2, ex.facts)
    return run


def lemma(ctx):
    """in units of the wall spacing: the mirror relation plus being inside determine the image uniquely"""
    u0, u = z3.Reals('u0 u')
    a = z3.Int('a')
    f = z3.Bool('flip')
    rel = [u == z3.If(f, -u0, u0) + 2 * z3.ToReal(a), u >= 0, u <= 1]
    ctx.p.holds('lemma: leaving by less than one spacing above gives a single mirror at the upper plane', 'lemma', z3.And(f, u == 2 - u0), rel + [u0 > 1, u0 < 2])
    ctx.p.holds('lemma: leaving by less than one spacing below gives a single mirror at the lower plane', 'lemma', z3.And(f, u == -u0), rel + [u0 < 0, u0 > -1])


def sections(tier):
    return [('lemma', lemma)] + [('walls ' + ''.join(map(str, w)), go(w)) for w in product((0, 1), repeat=4)]


def natives(tier):
    return [Native('reflection', 'c09.cpp', NSRC, config(), n=(3000, 300000))]
