"""Three-component vector algebra."""
from lib import *
from extract import config
from gridlib import TPL
from runner import Native

LEVEL = 'proof'
V = 'vector3d<double>::'
A = [z3.Real(f'a{i}') for i in range(3)]
B = [z3.Real(f'b{i}') for i in range(3)]
s = z3.Real('s')
x = [z3.Real(f'x{i}') for i in range(3)]
RNG = {}
PAIR = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q, 'div': lambda p, q: p / q}
D = Ty('double')


def vec(ex, st, vals, tag):
    h = ex.new_local(st, tag, 24)
    d = ex.new_local(st, tag + '.data', 24)
    for i in range(3):
        ex.store_local(st, d.add(8 * i), vals[i], 8)
    for o, t in ((0, 0), (8, 24), (16, 24)):
        ex.store_local(st, h.add(o), d.add(t), 8)
    return h


def read(ex, st, h):
    d = ex.load_local(st, h, Ty('ptr'))
    return [ex.expand(st, R(ex.load_local(st, d.add(8 * i), D))) for i in range(3)]


def num(ex, st, v, tag):
    h = ex.new_local(st, tag, 8)
    ex.store_local(st, h, v, 8)
    return h


def load(ctx):
    m = ctx.load(config(), [TPL], [], ['math/vector3d.hpp'], [])
    return m, m.exec()


def same(ctx, ex, fn, o, got, want, what, hy=()):
    for i in range(3):
        ctx.p.eq(f'{what}, component {i}', fn, got[i], want[i], list(hy) + pc_of(ex, o), ex.facts, ranges=RNG)


def run(ctx, fn, kinds, sret=True, pick=None):
    """kinds: 'a' receiver, 'b' vector, 's' scalar reference, or a python value"""
    m, ex = load(ctx)
    st = State()
    args, hs = [], {}
    if sret:
        hs['ret'] = ex.new_local(st, 'ret', 24)
        args.append(hs['ret'])
    for k in kinds:
        if not isinstance(k, str):
            args.append(k)
        elif k == 'a':
            hs['a'] = vec(ex, st, A, 'a')
            args.append(hs['a'])
        elif k == 'b':
            hs['b'] = vec(ex, st, B, 'b')
            args.append(hs['b'])
        elif k == 's':
            hs['s'] = num(ex, st, s, 's')
            args.append(hs['s'])
    outs = ex.call_function(m.sym(fn, pick), args, st=st)
    ctx.p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    return ex, hs, rets(outs)


def binary(n):
    def go(ctx):
        f = PAIR[n]
        for fn, kinds, want in ((f'v3_{n}', 'ab', [f(p, q) for p, q in zip(A, B)]), (f'v3s_{n}', 'as', [f(p, s) for p in A])):
            ex, hs, outs = run(ctx, fn, kinds)
            for o in outs:
                same(ctx, ex, fn, o, read(ex, o.st, hs['ret']), want, 'componentwise ' + n)
                same(ctx, ex, fn, o, read(ex, o.st, hs['a']), A, 'left operand unchanged')
                if 'b' in hs:
                    same(ctx, ex, fn, o, read(ex, o.st, hs['b']), B, 'right operand unchanged')
        op = {'add': '+=', 'sub': '-=', 'mul': '*=', 'div': '/='}[n]
        for kinds, pick, want in (('ab', 'vector3d<double> const&', [f(p, q) for p, q in zip(A, B)]), ('as', '(double const&', [f(p, s) for p in A])):
            fn = V + 'operator' + op
            ex, hs, outs = run(ctx, fn, kinds, False, pick)
            for o in outs:
                same(ctx, ex, fn, o, read(ex, o.st, hs['a']), want, 'componentwise ' + op)
                ctx.p.fact_true('returns the receiver', fn, isinstance(o.val, Ptr) and o.val.fam.name == hs['a'].fam.name, str(o.val))
    return go


def basic(ctx):
    ex, hs, outs = run(ctx, 'v3_make', x)
    for o in outs:
        same(ctx, ex, 'vector3d(x, y, z)', o, read(ex, o.st, hs['ret']), x, 'constructor')
    ex, hs, outs = run(ctx, 'v3_zero', [])
    for o in outs:
        same(ctx, ex, 'vector3d()', o, read(ex, o.st, hs['ret']), [z3.RealVal(0)] * 3, 'default is zero')
    ex, hs, outs = run(ctx, 'v3_copy', 'a')
    for o in outs:
        same(ctx, ex, 'copy', o, read(ex, o.st, hs['ret']), A, 'copy equals the original')
        d0, d1 = (ex.load_local(o.st, hs[k], Ty('ptr')) for k in ('a', 'ret'))
        ctx.p.fact_true('a copy has storage of its own', 'copy', d0.fam.name != d1.fam.name, '')
    for kinds, fn, pick, want in (('ab', V + 'operator=', 'vector3d<double> const&', B), ('as', V + 'operator=', '(double const&', [s] * 3)):
        ex, hs, outs = run(ctx, fn, kinds, False, pick)
        for o in outs:
            same(ctx, ex, fn, o, read(ex, o.st, hs['a']), want, 'assignment')
            if 'b' in hs:
                d0, d1 = (ex.load_local(o.st, hs[k], Ty('ptr')) for k in 'ab')
                ctx.p.fact_true('assignment copies values, not storage', fn, d0.fam.name != d1.fam.name, '')
    for i in range(3):
        ex, hs, outs = run(ctx, 'v3_at', ['a', i], False)
        for o in outs:
            ctx.p.eq(f'element {i}', 'operator[]', ex.expand(o.st, R(o.val)), A[i], pc_of(ex, o), ex.facts)
        ex, hs, outs = run(ctx, 'v3_put', ['a', i, s], False)
        for o in outs:
            same(ctx, ex, 'operator[]', o, read(ex, o.st, hs['a']), [s if k == i else A[k] for k in range(3)], f'writing element {i} writes only it')


def compare(ctx):
    for op, neg in (('==', False), ('!=', True)):
        for kinds, pick, rhs in (('ab', 'vector3d<double> const&', B), ('as', '(double const&', [s] * 3)):
            fn = V + 'operator' + op
            ex, hs, outs = run(ctx, fn, kinds, False, pick)
            eq = z3.And(*[p == q for p, q in zip(A, rhs)])
            for o in outs:
                v = o.val if isinstance(o.val, z3.ExprRef) else z3.BoolVal(bool(o.val))
                if not z3.is_bool(v):
                    v = v != 0
                ctx.p.holds(f'{op} compares all components', fn, v == (z3.Not(eq) if neg else eq), pc_of(ex, o), ex.facts)


def products(ctx):
    ex, hs, outs = run(ctx, 'v3_dot', 'ab', False)
    for o in outs:
        ctx.p.eq('scalar product', 'dot', ex.expand(o.st, R(o.val)), dot(A, B), pc_of(ex, o), ex.facts)
        same(ctx, ex, 'dot', o, read(ex, o.st, hs['a']), A, 'dot leaves the receiver unchanged')
    ex, hs, outs = run(ctx, 'v3_cross', 'ab')
    for o in outs:
        same(ctx, ex, 'cross', o, read(ex, o.st, hs['ret']), cross(A, B), 'vector product')
        same(ctx, ex, 'cross', o, read(ex, o.st, hs['a']), cross(A, B), 'vector product is stored in the receiver')
        same(ctx, ex, 'cross', o, read(ex, o.st, hs['b']), B, 'argument unchanged')
    ex, hs, outs = run(ctx, 'v3_abs', 'a')
    for o in outs:
        want = [z3.If(c >= 0, c, -c) for c in A]
        same(ctx, ex, 'abs', o, read(ex, o.st, hs['ret']), want, 'absolute value')
        same(ctx, ex, 'abs', o, read(ex, o.st, hs['a']), want, 'absolute value is stored in the receiver')
    for fn, want in ((V + 'length2', lambda ex: dot(A, A)), (V + 'length', lambda ex: ex.sqrt(dot(A, A)))):
        ex, hs, outs = run(ctx, fn, 'a', False)
        for o in outs:
            ctx.p.eq('squared length' if fn.endswith('2') else 'length', fn, ex.expand(o.st, R(o.val)), R(want(ex)), pc_of(ex, o), ex.facts)


def sections(tier):
    return [(f'componentwise {n}', binary(n)) for n in PAIR] + [('construction, copy, elements', basic), ('comparison', compare), ('products and length', products)]


def natives(tier):
    return [Native('vector', 'c17.cpp', [], config(), n=(2000, 200000))]
