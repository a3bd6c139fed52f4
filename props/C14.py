"""Field interpolation to particle positions."""
from yeelib import *
from runner import Native

LEVEL = 'proof'
r, z = z3.Reals('r z')
RNG14 = dict(RNG, r=lambda g: g.uniform(0.5, 12), z=lambda g: g.uniform(0, 12))
# lattice offsets of each component on the Yee mesh (in cells)
OFF = {'field_e': {'r': (1, 0), 'phi': (0, 0), 'z': (0, 1)}, 'field_h': {'r': (0, 1), 'phi': (1, 1), 'z': (1, 0)}}


HALF = R(Fraction(1, 2))
FL = {'i_0': z3.ToInt(r / dr), 'i_1': z3.ToInt(r / dr - HALF), 'k_0': z3.ToInt(z / dz), 'k_1': z3.ToInt(z / dz - HALF)}


def spec(f, c):
    hr, hz = OFF[f][c]
    i, k = FL[f'i_{hr}'], FL[f'k_{hz}']
    I, K = z3.ToReal(i), z3.ToReal(k)
    o = Fraction(1, 2)
    # ring of the particle [r - dr/2, r + dr/2] is cut at the border between the two nodes' cells
    cut = (I + (1 if hr else R(o))) * dr
    lo, hi = r - dr / 2, r + dr / 2
    V = lambda n: dr * dr * (2 * (I + n) + 1 + hr)          # ring volume attributed to a node
    wr = [(cut * cut - lo * lo) / V(0), (hi * hi - cut * cut) / V(1)]
    zk = (K + (R(o) if hz else 0)) * dz
    wz = [(zk + dz - z) / dz, (z - zk) / dz]
    F = cell(f, c)
    return sum(wr[a] * wz[b] * F(i - C0 + a, k - C1 + b) for a in (0, 1) for b in (0, 1)), wr, wz, i, k, hr, hz


def sane():
    """the position lies in the domain: its cell numbers do (floor is monotone)"""
    return [FL['i_0'] >= C0, FL['i_0'] < C0 + NR, FL['i_1'] >= C0 - 1, FL['i_1'] < C0 + NR, FL['k_0'] >= C1, FL['k_0'] < C1 + NZ, FL['k_1'] >= C1 - 1, FL['k_1'] < C1 + NZ]


def sec(f):
    fn = f'MaxwellSolver::get_{f.replace("field_", "field_")}'

    def go(ctx):
        m, ex = setup(ctx, [fn])
        st = State()
        ret = ex.new_local(st, 'ret', 24)
        for f_ in [r >= dr / 2, z >= 0]:
            ex.fact(f_)
        outs = ex.call_function(m.sym(fn), [ret, ex.root('this', STRUCT('MSY')), r, z], st=st)
        p = ctx.p
        for o in rets(outs):
            p.fact_true('frame: reading a field writes nothing', fn, not written(o.st), str(written(o.st)))
            d = ex.load_local(o.st, ret, Ty('ptr'))
            for n, c in enumerate(COMP):
                v = ex.expand(o.st, ex.load_local(o.st, d.add(8 * n), Ty('double')))
                want, wr, wz, i, k, hr, hz = spec(f, c)
                # rename the code's floor terms to the cell numbers they denote
                v = R(v)
                p.eq(f'{f}[{c}] is the weighted mean of that component at the four surrounding lattice points', fn, bind(ctx, v), want,
                     INV + [r >= dr / 2, z >= 0] + sane() + pc_of(ex, o), ex.facts, ranges=RNG14)
    return go


def bind(ctx, v):
    """floor(q) subterms whose argument is the same rational function are written the same way"""
    todo = [v]
    seen = set()
    fl = {}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT:
            fl[x.get_id()] = x
        todo += list(x.children())
    pairs = []
    cand = [(R(r / dr), 'i_0'), (r / dr - R(Fraction(1, 2)), 'i_1'), (z / dz, 'k_0'), (z / dz - R(Fraction(1, 2)), 'k_1')]
    from norm import Norm
    for x in fl.values():
        q = x.children()[0]
        for w, nm in cand:
            if Norm().is_zero_term(q - w):
                pairs.append((x, FL[nm]))
                break
    return z3.substitute(v, *pairs) if pairs else v


def lemma(ctx):
    """weights are non-negative and the axial ones sum to one"""
    for f in OFF:
        for c in COMP:
            _, wr, wz, i, k, hr, hz = spec(f, c)
            i, k = z3.Ints('i k')
            H = INV + [r >= dr / 2, z >= 0, i >= 0, k >= 0, z3.ToReal(i) * dr <= r - dr * R(Fraction(hr, 2)), r - dr * R(Fraction(hr, 2)) < z3.ToReal(i) * dr + dr,
                       z3.ToReal(k) * dz <= z - dz * R(Fraction(hz, 2)), z - dz * R(Fraction(hz, 2)) < z3.ToReal(k) * dz + dz]
            fn = 'MaxwellSolver::get_' + f
            ctx.p.eq(f'{f}[{c}]: the two axial weights sum to one', fn, wz[0] + wz[1], z3.RealVal(1), H, [], ranges=RNG14)
            for n in (0, 1):
                # numerators only: the denominators are positive
                zk = (z3.ToReal(k) + R(Fraction(hz, 2))) * dz
                ctx.p.holds(f'{f}[{c}]: axial weight {n} is not negative', fn, ((zk + dz - z) if n == 0 else (z - zk)) >= 0, H)
                cut = (z3.ToReal(i) + (1 if hr else R(Fraction(1, 2)))) * dr
                g = cut - (r - dr / 2) if n == 0 else (r + dr / 2) - cut
                ctx.p.holds(f'{f}[{c}]: radial weight {n} is not negative', fn, g >= 0, H)


def sections(tier):
    return [('lemma weights', lemma), ('electric', sec('field_e')), ('magnetic', sec('field_h'))]


def natives(tier):
    return [Native('gather', 'c14.cpp', SRC, config(), n=(400, 40000))]
