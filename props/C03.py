"""Exchange schedule between domains: every overlap of two or four domains is summed exactly once, in any order, without races."""
from smblib import *
from yeelib import vec_pin
from itertools import permutations
from runner import Native

LEVEL = 'proof'
KIND = {'Grid3D<double>::overlay_x': 'x', 'Grid3D<double>::overlay_y': 'y', 'Grid3D<double>::overlay_xy': 'xy', 'Grid3D<double>::overlay_yx': 'yx'}
FNS = {'SMB::current_overlay': ['current'], 'SMB::field_e_overlay': ['field_e'], 'SMB::field_h_overlay': ['field_h', 'field_h_at_et']}
I, J = z3.Ints('I J')
# lower-left domain of the pair, from (receiver, argument)
PAIR = {'x': ((0, 0), (1, 0)), 'y': ((0, 0), (0, 1)), 'xy': ((0, 0), (1, 1)), 'yx': ((1, 0), (0, 1))}
TXT = {'x': 'radial neighbours', 'y': 'longitudinal neighbours', 'xy': 'diagonal neighbours', 'yx': 'neighbours across the other diagonal'}


def sec(fn):
    def go(ctx):
        m, ex = load(ctx, [fn] + list(KIND))
        vec_pin(ex, 'geometry', '.domains_amount', [RD, ZD])
        for k in KIND:
            def h(ex, st, A, k=k):
                st.log.append(Ent('op', k, '', (), None, meta={'a': A[0], 'b': ex.load_local(st, A[1], Ty('ptr')) if A[1].fam.local else A[1]}))
                return [(st, None)]
            if m.has(k):
                ex.contracts[m.sym(k)] = h
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('SMB'))])
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        fa = {(DD + '.current->', ex.lay.offset('Current', 'current')[0]): 'current'}
        for f in MSY:
            fa[(DD + '.maxwell_solver->', ex.lay.offset('MSY', f)[0])] = f
        fb = {DD + '.current->.current.r_component.grid->': 'current'}
        for f in MSY:
            fb[f'{DD}.maxwell_solver->.{f}.r_component.grid->'] = f
        for o in rets(outs):
            p.fact_true('frame: only exchanges', fn, not written(o.st), str(written(o.st)))
            ops = []
            for e in o.st.log:
                if e.kind != 'op':
                    continue
                A, B = e.meta['a'], e.meta['b']
                f, g = fa.get((A.fam.name, A.off)), fb.get(B.fam.name)
                if f is None or g is None:
                    raise Unsupported(f'exchanged grids {A} {B}')
                k = KIND[e.fam]
                p.fact_true('a field is exchanged with the same field of the neighbour', fn, f == g, f'{f} with {g}')
                ia, ib = [zi(ex.expand(o.st, t) if not isinstance(t, int) else t) for t in A.idx], [zi(ex.expand(o.st, t) if not isinstance(t, int) else t) for t in B.idx]
                (a0, a1), (b0, b1) = PAIR[k]
                at = [z3.simplify(ia[0] - a0), z3.simplify(ia[1] - a1)]
                op = Op(k, f, at, [(ia[0], ia[1]), (ib[0], ib[1])], e)
                ops.append(op)
                hy = [] if e.guard is True else [e.guard]
                hy += [l.dom for l in e.loops]
                p.holds(f'{f}: exchange_{k} is between {TXT[k]}', fn, z3.And(ib[0] == at[0] + b0, ib[1] == at[1] + b1), hy + pc_of(ex, o), ex.facts)
            for f in FNS[fn]:
                for k in ('x', 'y', 'xy', 'yx'):
                    sel = [q for q in ops if q.kind == k and q.field == f]
                    n = z3.Sum([z3.If(occurs(q, I, J), 1, 0) for q in sel] + [z3.IntVal(0)])
                    need = z3.And(I >= 0, J >= 0, I < RD - (1 if k != 'y' else 0), J < ZD - (1 if k != 'x' else 0))
                    p.holds(f'{f}: every pair of {TXT[k]} is exchanged exactly once, nothing else', fn, n == z3.If(need, 1, 0), pc_of(ex, o), ex.facts,
                            ranges={'I': lambda g: g.randint(-1, 4), 'J': lambda g: g.randint(-1, 4), 'RD': lambda g: g.randint(1, 4), 'ZD': lambda g: g.randint(1, 4)})
            p.fact_true('no other field is exchanged', fn, {q.field for q in ops} <= set(FNS[fn]), str({q.field for q in ops}), refuted=False)
            # concurrent iterations own disjoint domains
            for q in ops:
                ls = q.ent.loops
                lv = [n for n, l in enumerate(ls) for d in [parallel(m, l)] if d]
                if not lv:
                    continue
                n0 = lv[0]
                par = ls[n0:n0 + parallel(m, ls[n0])]
                goals = []
                hy = [l.dom for l in ls] + [t for t in (q.ent.guard,) if t is not True]
                ren = [(l.k, z3.Int(f'other_{n}')) for n, l in enumerate(ls) if n >= n0]
                conc = z3.Or(*[l.k != z3.substitute(l.k, *ren) for l in par])
                for r in ops:
                    rl = r.ent.loops
                    if len(rl) != len(ls) or any(not a.k.eq(b.k) for a, b in zip(ls[:n0 + 1], rl[:n0 + 1])):
                        continue
                    if not all(a.k.eq(b.k) for a, b in zip(ls, rl)):
                        raise Unsupported('parallel loop nest')
                    g = [z3.substitute(l.dom, *ren) for l in rl] + [z3.substitute(t, *ren) for t in (r.ent.guard,) if t is not True]
                    for x in q.touched:
                        for y in r.touched:
                            yy = [z3.substitute(t, *ren) for t in y]
                            goals.append(z3.Implies(z3.And(*g), z3.Not(z3.And(x[0] == yy[0], x[1] == yy[1]))))
                p.holds(f'{q.field}: exchange_{q.kind} and concurrent iterations own disjoint domains', fn, z3.And(*goals), hy + [conc] + pc_of(ex, o), ex.facts)
    return go


def lemma(ctx):
    """Node-wise consequence of the pair contracts (C02).  Around a point where domains A(i,j), B(i+1,j), C(i,j+1), D(i+1,j+1)
       meet, a node has one copy in each of them; by the contracts, exchange x acts on it in the rows of the owner's core only
       (A-B below, C-D above), exchange y in the columns of the owner's core only (A-C left, B-D right), exchange xy (A-D) if the
       owner is A or D, exchange yx (B-C) if the owner is B or C.  An exchange sets both copies to their sum."""
    p = ctx.p
    v = {d: z3.Real('value_' + d) for d in 'ABCD'}
    acts = {'A': ['AB', 'AC', 'AD'], 'B': ['AB', 'BD', 'BC'], 'C': ['CD', 'AC', 'BC'], 'D': ['CD', 'BD', 'AD']}
    for own, prs in acts.items():
        for order in permutations(prs):
            cur = dict(v)
            z = {d: (v[d] if d == own else z3.RealVal(0)) for d in 'ABCD'}
            for a, b in order:
                s = cur[a] + cur[b]
                cur[a] = cur[b] = s
                s = z[a] + z[b]
                z[a] = z[b] = s
            nm = f'node owned by {own}, order {" ".join(order)}: '
            p.eq(nm + 'the owner holds the sum of all four contributions', 'lemma', cur[own], sum(v.values(), z3.RealVal(0)), [])
            for d in 'ABCD':
                if d != own:
                    p.eq(nm + f'an empty copy in {d} becomes the owner\'s value', 'lemma', z[d], v[own], [])


def sections(tier):
    return [(fn.split('::')[1], sec(fn)) for fn in FNS] + [('lemma corners', lemma)]


def natives(tier):
    d = Native('domains', 'c03.cpp', NSRC, config(), n=(120, 6000))
    d.env = {'OMP_NUM_THREADS': '4'}
    return [d]
