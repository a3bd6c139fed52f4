"""Particle migration between domains: every particle ends in the domain that contains it, or is removed."""
from smblib import *
from yeelib import vec_pin
import ir
from runner import Native
from extract import VERIF
from shapes import PARTICLE

LEVEL = 'proof'
FN = 'SMB::particles_runaway_collector'
PV = 'std::vector<Particle_struct*, std::allocator<Particle_struct*>>::'
FIND = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::find'
SP = DD + '.species_p[]->'
NR, NZ = z3.Ints('NR NZ')
I, J, S, N = z3.Ints('I J S N')
IDF = z3.Function('specie_id', z3.IntSort(), z3.IntSort())


def lo(i, n, r):
    return (n * i) / r


def dst(c, n, r):
    """the domain whose cell range holds cell c"""
    return ((c + 1) * r - 1) / n


def inside(c, i, n, r):
    return z3.And(lo(i, n, r) <= c, c < lo(i + 1, n, r))


def setup(ctx):
    m, ex = load(ctx, [FN, 'std::remove_if*', PV + 'push_back', PV + 'erase', FIND],
                 extra={'Particle': ('Particle', dict(PARTICLE, cell_r=INT(64, False), cell_z=INT(64, False)))})
    vec_pin(ex, 'geometry', '.domains_amount', [RD, ZD])
    vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
    vec_pin(ex, 'geometry', '.cell_dims', [0, 0, NR, NZ])
    ex.pins[(SP, '.id')] = lambda x: IDF(to_z(x[2]))
    ex.fact(NR >= RD)
    ex.fact(NZ >= ZD)
    ex.fact(NR / RD >= 1)
    ex.fact(NZ / ZD >= 1)
    return m, ex


def run(ctx):
    m, ex = setup(ctx)
    lam = [k for k in m.mod.funcs if 'operator()(Particle_struct*&) const' in m.dem.get(k, '') and FN in m.dem[k]]
    rm = [k for n, v in m.inv.items() if n.startswith('std::remove_if<') for k in v]
    if len(lam) != 1 or len(rm) != 1:
        raise Unsupported('no std::remove_if over the particles of a species')
    p = ctx.p
    ghost = {}

    def push(ex, st, A):
        st.log.append(Ent('op', 'push', '', (), None, meta={'to': A[0], 'arg': A[1]}))
        return [(st, None)]

    def find(ex, st, A):
        return [(st, fresh('find', 'i'))]

    def remove_if(ex, st, A):
        """contract of std::remove_if(first, last, pred): pred decides once for every element"""
        first, last, pred = A
        if not isinstance(first, Ptr) or not isinstance(last, Ptr) or first.fam is not last.fam:
            raise Unsupported('remove_if range')
        n = fresh('n', 'i')
        el = first.add(imul(8, n))
        cnt = isub(last.off, first.off)
        s2 = st.copy()
        s2.pc.append(n >= 0)
        s2.pc.append(to_z(imul(8, n)) < to_z(cnt))
        pc0, l0 = len(s2.pc), len(s2.log)
        s2.trk = []
        outs = ex.call_function(lam[0], [pred, el], st=s2)
        lv = LoopVar(n, band(n >= 0, to_z(imul(8, n)) < to_z(cnt)), None, 'std::remove_if')
        hv = {}
        for o in outs:
            if o.kind != 'ret':
                raise Unsupported('predicate does not return')
            g = band(*o.st.pc[pc0:])
            for e in o.st.log[l0:]:
                st.log.append(Ent(e.kind, e.fam, e.leaf, e.idx, e.val, band(g, e.guard), (lv,) + e.loops, dict(e.meta, elem=el)))
            st.log.append(Ent('op', 'verdict', '', (), None, g, (lv,), meta={'elem': el, 'res': o.val, 'first': first, 'last': last}))
            st.lds.update({k: v for k, v in o.st.lds.items() if k not in st.lds})
            for nm, c in st.loc.items():
                for off, (sz, v) in c.items():
                    w = o.st.loc.get(nm, {}).get(off)
                    if w is None or w[0] != sz or not (w[1] is v or (not isinstance(v, (Ptr, Undef, tuple)) and str(w[1]) == str(v))):
                        hv[nm, off] = (sz, v)
        for (nm, off), (sz, v) in hv.items():     # counters of the log messages: any value
            ex.store_local(st, Ptr(Fam(nm, None, True), (), off), ex.havoc_like(st, v, sz), sz)
        r = Ptr(first.fam, first.idx, iadd(first.off, imul(8, fresh('kept', 'i'))))
        st.log.append(Ent('op', 'filter', '', (), None, meta={'first': first, 'last': last, 'ret': r}))
        return [(st, r)]

    def erase(ex, st, A):
        st.log.append(Ent('op', 'erase', '', (), None, meta={'vec': A[0], 'from': A[1], 'to': A[2]}))
        return [(st, A[1])]
    ex.contracts[rm[0]] = remove_if
    for nm, h in ((PV + 'push_back', push), (PV + 'erase', erase), (FIND, find)):
        for k in m.inv.get(nm, []):
            ex.contracts[k] = h
    outs = ex.call_function([k for k in m.inv[FN] if k not in lam][0], [ex.root('this', STRUCT('SMB'))])
    p.fact_true('returns', FN, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    rng = {'RD': lambda g: g.randint(1, 4), 'ZD': lambda g: g.randint(1, 4), 'NR': lambda g: g.randint(4, 11), 'NZ': lambda g: g.randint(4, 11),
           'I': lambda g: g.randint(-1, 4), 'J': lambda g: g.randint(-1, 4), 'S': lambda g: g.randint(0, 2), 'k!*': lambda g: g.randint(0, 2), 'n!*': lambda g: g.randint(0, 1),
           SP + '.particles[]->.cell*': lambda g: g.randint(-1, 11), 'specie_id': lambda g: g.randint(0, 3), '*size': lambda g: g.randint(1, 3)}
    for o in rets(outs):
        p.fact_true('frame: nothing but the particle lists is written', FN, not written(o.st), str(written(o.st)))
        ev = [e for e in o.st.log if e.kind == 'op']
        X = lambda t: zi(ex.expand(o.st, t) if not isinstance(t, int) else t)
        pc = pc_of(ex, o)

        def where(q):
            """(domain, species, particle) an element pointer denotes"""
            if q.fam.name != SP + '.particles[]' or len(q.idx) != 3:
                raise Unsupported(f'particle taken from {q}')
            return [z3.simplify(X(t)) for t in q.idx] + [z3.simplify(X(q.off) / 8)]
        # every particle list is filtered exactly once, as a whole, and the removed tail is cut off
        fl = [e for e in ev if e.fam == 'filter']
        er = [e for e in ev if e.fam == 'erase']
        ops = []
        for e in fl:
            w, l = where(e.meta['first']), where(e.meta['last'])
            hy = cond(e) + pc
            size = z3.Function(SP + '.particles.size', *[z3.IntSort()] * 4)(*w[:3])
            p.holds('a list is filtered from its first to its last particle', FN, z3.And(w[3] == 0, l[3] == size, *[x == y for x, y in zip(w[:3], l[:3])]), hy, ex.facts, ranges=rng)
            ops.append(Op('filter', '', w[:3], [], e))
            c = [x for x in er if len(x.loops) == len(e.loops) and all(a.k.eq(b.k) for a, b in zip(x.loops, e.loops)) and x.meta['from'] is e.meta['ret']]
            p.fact_true('the removed tail of each filtered list is erased', FN, len(c) == 1 and c[0].guard is e.guard or len(c) == 1 and str(c[0].guard) == str(e.guard), str(len(c)), refuted=False)
            for x in c:
                t = where(x.meta['to'])
                v = x.meta['vec']
                at = [X(q) for q in v.idx]
                own = v.fam.name == SP and v.off == ex.lay.offset('SpecieP', 'particles')[0]
                p.holds('erased up to the end of the same list', FN, z3.And(own, *[a == b for a, b in zip(t, l)], *[a == b for a, b in zip(at, w)]), hy, ex.facts, ranges=rng)
        nsp = z3.Function(DD + '.species_p.size', z3.IntSort(), z3.IntSort(), z3.IntSort())
        n = z3.Sum([z3.If(occurs(q, I, J, S), 1, 0) for q in ops] + [z3.IntVal(0)])
        need = z3.And(I >= 0, J >= 0, I < RD, J < ZD, S >= 0, S < nsp(I, J))
        p.holds('every species of every domain is examined exactly once', FN, n == z3.If(need, 1, 0), pc + [nsp(I, J) >= 0], ex.facts, ranges=rng)
        # decision about one particle
        groups = {}
        for e in ev:
            if e.fam in ('verdict', 'push'):
                d = len(where(e.meta['elem']))
                groups.setdefault(tuple(l.k.get_id() for l in e.loops[:4]), []).append(e)
        for es in groups.values():
            ver = [e for e in es if e.fam == 'verdict']
            i, j, s, n = where(es[0].meta['elem'])
            cr, cz = [z3.Function(SP + '.particles[]->.' + f, *[z3.IntSort()] * 5)(i, j, s, n) for f in ('cell_r', 'cell_z')]
            out = z3.Or(cr < 0, cz < 0, cr >= NR, cz >= NZ)
            stay = z3.And(inside(cr, i, NR, RD), inside(cz, j, NZ, ZD))
            lem = hints(cr, i, NR, RD) + hints(cz, j, NZ, ZD) + idr(s, S)
            doms = [l.dom for l in es[0].loops[:4]]
            for e in ver:
                r = e.meta['res']
                r = z3.BoolVal(r) if isinstance(r, bool) else bool_of(r)
                r = z3.BoolVal(r) if isinstance(r, bool) else r
                p.holds('a particle leaves its list exactly if its cell is outside its domain', FN, r == z3.Not(stay), cond(e) + lem + pc, ex.facts, ranges=rng)
            pushes = [e for e in es if e.fam == 'push']
            occ = []
            tgt = [dst(cr, NR, RD), dst(cz, NZ, ZD)]
            for e in pushes:
                to, arg = e.meta['to'], where(e.meta['arg'])
                if to.fam.name != SP or to.off != ex.lay.offset('SpecieP', 'particles')[0]:
                    raise Unsupported(f'particle put to {to}')
                a, b, c = [X(t) for t in to.idx]
                lem = lem + idr(c)
                hy = cond(e) + lem + pc
                p.holds('the new domain contains the particle\'s cell', FN, z3.And(a >= 0, a < RD, b >= 0, b < ZD, inside(cr, a, NR, RD), inside(cz, b, NZ, ZD)), hy, ex.facts, ranges=rng)
                p.holds('the new list is not the one being filtered', FN, z3.Or(a != i, b != j), hy, ex.facts, ranges=rng)
                p.holds('the new list belongs to the same species', FN, IDF(c) == IDF(s), hy, ex.facts, ranges=rng)
                p.holds('the particle put there is the one examined', FN, z3.And(*[x == y for x, y in zip(arg, (i, j, s, n))]), hy, ex.facts, ranges=rng)
                pl = [(x, parallel(m, l)) for x, l in enumerate(e.loops[:2]) if parallel(m, l)]
                if pl:
                    x0, depth = pl[0]
                    ren = [(l.k, z3.Int(f'other_{x}')) for x, l in enumerate(e.loops[:2]) if x >= x0]
                    conc = z3.Or(*[l.k != z3.substitute(l.k, *ren) for l in e.loops[x0:x0 + depth]])
                    od = [z3.substitute(l.dom, *ren) for l in e.loops[:2]]
                    oi, oj = [z3.substitute(t, *ren) for t in (i, j)]
                    p.holds('a particle that moves to an adjacent domain is not put to a list another thread is filtering', FN, z3.Or(a != oi, b != oj),
                            hy + od + [conc, a - i <= 1, i - a <= 1, b - j <= 1, j - b <= 1], ex.facts, ranges=rng)
                inner = e.loops[4:]
                q = Op('push', '', [c], [], Ent('op', 'push', '', (), None, e.guard, tuple(inner)))
                occ.append(occurs(q, S))
                tgt = [a, b]
            count = z3.Sum([z3.If(x, 1, 0) for x in occ] + [z3.IntVal(0)])
            want = z3.And(z3.Not(out), z3.Not(stay), IDF(S) == IDF(s), S >= 0, S < nsp(*tgt))
            p.holds('a leaving particle is put once to every list of its species in the new domain, any other to none', FN, count == z3.If(want, 1, 0), doms + lem + pc, ex.facts, ranges=rng)


def cond(e):
    return ([] if e.guard is True else [e.guard]) + [l.dom for l in e.loops]


def idr(*xs):
    return [z3.And(IDF(x) >= 0, IDF(x) < 65536) for x in xs]


def hints(c, i, n, r):
    """instances of the lemmas proved in section 'cell ranges'"""
    q = dst(c, n, r)
    ok = z3.And(c >= 0, c < n)
    return [z3.Implies(c >= 0, r * (c + 1) >= r), z3.Implies(ok, z3.And(inside(c, q, n, r), q >= 0, q < r)), z3.Implies(z3.And(inside(c, i, n, r), i >= 0, i < r), z3.And(ok, i == q))]


def ranges(ctx):
    """the cell ranges [n*i/r, n*(i+1)/r) of r domains tile n cells; ((c+1)*r-1)/n is the domain of cell c"""
    p = ctx.p
    n, r, c, i, q, a, b = z3.Ints('n r c i q a b')
    base = [n >= r, r >= 1]
    rg = {'n': lambda g: g.randint(3, 12), 'r': lambda g: g.randint(1, 4), 'c': lambda g: g.randint(-2, 13), 'i': lambda g: g.randint(-1, 5)}
    # a = n*q/r, b = n*(q+1)/r, q = ((c+1)*r-1)/n
    fl = lambda x, num, den: [den * x <= num, num < den * x + den]
    dfs = fl(q, (c + 1) * r - 1, n) + fl(a, n * q, r) + fl(b, n * (q + 1), r)
    p.holds('cell c is not below its domain', 'lemma', a <= c, base + dfs + [c >= 0, c < n, z3.Implies(a >= c + 1, r * a >= r * (c + 1))], [], ranges=rg)
    p.holds('cell c is not above its domain', 'lemma', c < b, base + dfs + [c >= 0, c < n, z3.Implies(b <= c, r * b <= r * c)], [], ranges=rg)
    p.holds('the domain exists', 'lemma', z3.And(q >= 0, q < r), base + dfs + [c >= 0, c < n, z3.Implies(q <= -1, n * q <= -n), z3.Implies(q >= r, n * q >= n * r), r * (c + 1) <= r * n, r * (c + 1) >= r], [], ranges=rg)
    d2 = fl(a, n * i, r) + fl(b, n * (i + 1), r) + fl(q, (c + 1) * r - 1, n)
    p.holds('only one domain holds the cell', 'lemma', i == q, base + d2 + [a <= c, c < b, i >= 0, i < r, z3.Implies(a <= c, r * a <= r * c), z3.Implies(c + 1 <= b, r * (c + 1) <= r * b), z3.Implies(i > q, n * i >= n * (q + 1)), z3.Implies(i < q, n * (i + 1) <= n * q)], [], ranges=rg)
    p.holds('cells of a domain are cells of the block', 'lemma', z3.And(c >= 0, c < n), base + d2 + [a <= c, c < b, i >= 0, i < r, n * i >= 0, n * (i + 1) <= n * r, z3.Implies(b > n, r * b >= r * (n + 1)), z3.Implies(a < 0, r * a <= -r)], [], ranges=rg)
    p.holds('the dividend is not negative', 'lemma', r * (c + 1) >= r, [r >= 1, c >= 0], [], ranges=rg)
    for nm, h in (('product monotone', z3.Implies(z3.And(a >= b, r >= 1), r * a >= r * b)), ('product sign', z3.Implies(z3.And(i >= 0, n >= 1), n * i >= 0))):
        p.holds('monotone products used above: ' + nm, 'lemma', h, [], [], ranges=rg)


def exclusive(ctx):
    """every push of the parallel migration loop happens inside a critical region (must-held data flow over the code compiled with OpenMP)"""
    txt, dem = ctx.work.module_text(config(), SRC, [PV + 'push_back'], ('-fopenmp', '-I' + VERIF + '/stubs_omp'))
    mod = ir.Module(txt)
    push = {k for k, v in dem.items() if v.startswith(PV + 'push_back')}
    name = lambda i: i.a[0][1] if i.op in ('call', 'invoke') and i.a[0][0] == 'g' else ''
    n = 0
    for f in mod.funcs.values():
        if FN not in dem.get(f.name, ''):
            continue
        blocks = f.blocks
        held = {f.entry: frozenset()}
        todo = [f.entry]
        bad = []

        def flow(b, h, check):
            for i in blocks[b].insts:
                c = name(i)
                if c == '@__kmpc_critical':
                    h = h | {str(i.a[1][-1][1])}
                elif c == '@__kmpc_end_critical':
                    h = h - {str(i.a[1][-1][1])}
                elif c in push and check:
                    bad.append(not h)
            return h
        while todo:
            b = todo.pop()
            h = flow(b, held[b], False)
            t = blocks[b].insts[-1]
            for x in ([t.a[0]] if t.op == 'br' else [t.a[1], t.a[2]] if t.op == 'condbr' else []):
                new = h if x not in held else held[x] & h
                if x not in held or new != held[x]:
                    held[x] = new
                    todo.append(x)
        for b in held:
            flow(b, held[b], True)
        n += len(bad)
        ctx.p.fact_true('particles are put to lists of other domains inside a critical region', FN, not any(bad), f'{sum(bad)} of {len(bad)} outside', refuted=False)
    ctx.p.fact_true('vacuity: there are particle transfers', FN, n > 0, refuted=False)


def sections(tier):
    return [('exclusive transfer', exclusive), ('migration', run), ('cell ranges', ranges)]


def natives(tier):
    d = Native('migration', 'c05.cpp', NSRC, config(), n=(60, 3000))
    d.env = {'OMP_NUM_THREADS': '8'}
    return [d]
