"""Free flight: straight motion in space expressed in the moving (r, phi, z) basis."""
from specielib import *
from runner import Native

LEVEL = 'proof'
S = 'SpecieP::'
j = z3.Int('j')
dt, dr, dz = z3.Real('time.step'), z3.Real('dr'), z3.Real('dz')
dom = [j >= 0, j < NP]
x, y, vx, vy = PT('pos_r')(j), PT('pos_phi')(j), PT('vel_r')(j), PT('vel_phi')(j)
RN = dict(RNG)
RN[P + '.pos_*'] = lambda g: g.uniform(-2, 2)
RN[P + '.vel_*'] = lambda g: g.uniform(-2, 2)


def run(ctx, name, post, pre=(), keep=(), sort=None):
    fn = S + name
    m, ex = load(ctx, [fn])
    vec_pin(ex, 'geometry', '.cell_size', [dr, dz])
    ex.fact(dr > 0)
    ex.fact(dz > 0)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SpecieP'))])
    p = ctx.p
    p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        pc = pc_of(ex, o)
        want = post(ex)
        w = written(o.st)
        p.fact_true('frame: only the specified particle attributes change', fn, {f for f, _ in w} <= {P}, str(w))
        for leaf in sorted({l for _, l in w} | {'.' + q for q in want}):
            isint = leaf in ('.cell_r', '.cell_z', '.mark', '.specie_id')
            v = ex.value_at(o.st, P, leaf, (j,), sh=I64 if isint else F64)
            if leaf[1:] in want:
                e = want[leaf[1:]]
                if isint:
                    p.holds(f'{leaf[1:]} of every particle has the specified value', fn, to_z(v) == e, dom + list(pre) + pc, ex.facts, ranges=RN)
                else:
                    p.eq(f'{leaf[1:]} of every particle has the specified value', fn, v, R(e), dom + list(pre) + pc, ex.facts, ranges=RN)
            else:
                p.eq(f'{leaf[1:]} of every particle is unchanged', fn, v, PT(leaf[1:])(j), dom + list(pre) + pc, ex.facts, ranges=RN)


def mover(ctx):
    run(ctx, 'mover_cylindrical', lambda ex: {f'pos_{c}': PT(f'pos_{c}')(j) + PT(f'vel_{c}')(j) * dt for c in ('r', 'phi', 'z')})


def old(ctx):
    run(ctx, 'dump_position_to_old', lambda ex: {f'pos_old_{c}': PT(f'pos_{c}')(j) for c in ('r', 'phi', 'z')})


def back_pos(ctx):
    def post(ex):
        r = ex.sqrt(radd(rmul(x, x), rmul(y, y)))
        sg = z3.If(x < 0, z3.RealVal(-1), z3.RealVal(1))
        return {'pos_r': r, 'pos_phi': z3.RealVal(0), 'sin': sg * y / R(r), 'vel_r': sg * vx, 'vel_phi': sg * vy}
    run(ctx, 'back_position_to_rz', post, [x * x + y * y > 0])


def back_vel(ctx):
    def post(ex):
        s = PT('sin')(j)
        c = R(ex.sqrt(Fraction(1) - rmul(s, s)))
        return {'vel_r': c * vx + s * vy, 'vel_phi': c * vy - s * vx}
    run(ctx, 'back_velocity_to_rz', post, [PT('sin')(j) <= 1, PT('sin')(j) >= -1])


def cells(ctx):
    run(ctx, 'bind_cell_numbers', lambda ex: {'cell_r': z3.ToInt(PT('pos_r')(j) / dr), 'cell_z': z3.ToInt(PT('pos_z')(j) / dz)},
        [PT('pos_r')(j) >= 0, PT('pos_z')(j) >= 0])


def lemmas(ctx):
    """the composition of the proved steps is straight motion"""
    p = ctx.p
    X, Y, u, v, r1, c, s, r, t = z3.Reals('X Y u v r1 c s r t')
    base = [r1 > 0, r1 * r1 == X * X + Y * Y, s * r1 == Y, c >= 0, c * c == 1 - s * s, X >= 0]
    p.holds('lemma: the cosine of the turn is x / r', 'lemma', c * r1 == X, base)
    b2 = [r1 > 0, s * r1 == Y, c * r1 == X, r1 * r1 == X * X + Y * Y]
    ur, up = c * u + s * v, c * v - s * u
    p.holds('lemma: Cartesian velocity is unchanged, x', 'lemma', ur * X - up * Y == u * r1, b2)
    p.holds('lemma: Cartesian velocity is unchanged, y', 'lemma', ur * Y + up * X == v * r1, b2)
    p.holds('lemma: speed is unchanged', 'lemma', ur * ur + up * up == u * u + v * v, [c * c + s * s == 1])
    p.holds('lemma: angular momentum is unchanged', 'lemma', r1 * up == r * v, b2 + [X == r + u * t, Y == v * t])


def sections(tier):
    return [('mover', mover), ('old position', old), ('position back to rz', back_pos), ('velocity back to rz', back_vel), ('cell numbers', cells), ('lemmas', lemmas)]


def natives(tier):
    return [Native('free flight', 'c08.cpp', NSRC, config(), n=(3000, 300000))]
