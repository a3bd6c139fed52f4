"""The configuration file is what is simulated: geometry, time, species, beams, macroparticle shares, probes, output."""
from specielib import *
from strlib import *
from C04 import SPF, BMF, VD, VU, VB, vec_contracts, put_vec, get_vec, empty_vec, push, assign, ilassign, darr, same, toreal, copy_vec, ld
from extract import config as _config
from runner import Native
import ir

LEVEL = 'proof'
PRF = dict(path=STR, component=STR, specie=STR, shape=U32, dims=VEC(U64), schedule=U32)
BMX = dict(BMF, current_bunch_number=U32, radial_profile=STR, longitudinal_profile=STR)
CFG = dict(log_file=PTR(STRUCT('JValue')), macro_amount=F64, beam_macro_ratio=U32, geometry=G(), time=T(), output_data=PTR(STRUCT('Save'), 'save'), particle_species=VEC(STRUCT('Specie')),
           particle_beams=VEC(STRUCT('Beam')), probes=VEC(STRUCT('Probe')), json_data=STRUCT('JValue'), external_fields=VEC(STRUCT('ExtF')))
EXF = dict(name=STR, formfactor=STR, params=VEC(F64))
SRC = ['src/cfg.cpp']
NOTRY = ('-Dtry=if(true)', '-Dcatch(x)=if(false)')
ELEM = {'particle_specie': ('Specie', SPF), 'particle_beam': ('Beam', BMX), 'probe': ('Probe', PRF)}
J = 'this.json_data'


def num(path, *idx):
    f = J + path + '='
    return z3.Function(f, *[z3.IntSort()] * len(idx), z3.RealSort())(*idx) if idx else z3.Real(f)


def txt(path, *idx):
    f = 'text:' + J + path + '$'
    return z3.Function(f, *[z3.IntSort()] * len(idx), z3.IntSort())(*idx) if idx else z3.Int(f)


def world(ctx, fn, **kw):
    cfg = config(**kw)
    ext = {'Cfg': ('Cfg', CFG), 'ExtF': ('external_field', EXF), 'JValue': ('picojson::value', dict(kind=I32)), 'Save': ('save_data', dict(data_root=PTR(STRUCT('JValue')), compress=BOOL, compress_level=I32)),
           **{n: (c, f) for c, (n, f) in ELEM.items()}}
    m = ctx.load(cfg, SRC, [fn, 'Geometry::Geometry', 'algo::common::hash_from_string'] + STRKEEP + [f'std::vector<{t}, std::allocator<{t}>>::{f}' for t in ('double', 'unsigned long', 'bool', 'external_field', 'picojson::value', *ELEM)
                                                                                                        for f in ('push_back', 'vector', '~vector', 'operator=', 'resize', 'emplace_back')],
                 ['cfg.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Geometry', 'TimeSim'], ext, cflags=NOTRY)
    ex = m.exec()
    vec_contracts(ex, m)
    strings(ctx, m, ex)
    json(ctx, m, ex)
    for ty, w, key in ((VD, 8, 'd'), (VU, 8, 'i'), (VB, 1, 'b')):
        for sy in m.inv.get(ty + '::vector', []):
            d = m.dem[sy]
            if d.endswith('::vector()'):
                ex.contracts[sy] = empty_vec
            elif d[len(ty) + 2:].startswith('vector(unsigned long, ') and 'const&, std::allocator' in d:
                ex.contracts[sy] = filled(w, key)
            elif d[len(ty) + 2:].startswith('vector(unsigned long, '):
                ex.contracts[sy] = filled(w, key, True)
        for sy in m.inv.get(ty + '::push_back', []) + m.inv.get(ty + '::emplace_back', []):
            ex.contracts[sy] = push(w, key)
        for sy in m.inv.get(ty + '::operator=', []):
            ex.contracts[sy] = ilassign(w, key) if 'initializer_list' in m.dem[sy] else assign
        for sy in m.inv.get(ty + '::resize', []):
            ex.contracts[sy] = resize(w, key)
    for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith('algo::common::hash_from_string('):
            ex.contracts[sy] = lambda ex, st, A: [(st, HASH(iv(tok(ex, st, A[0])), iv(A[1])))]
        for t, (n, f) in ELEM.items():
            if d.startswith(f'std::vector<{t}, std::allocator<{t}>>::push_back('):
                ex.contracts[sy] = taken(m, n, f)
    return m, ex


HASH = z3.Function('hash', z3.IntSort(), z3.IntSort(), z3.IntSort())


def filled(w, key, zero=False):
    def h(ex, st, A):
        if not isinstance(A[1], int):
            raise Unsupported('vector length')
        ty = ir.Ty('double') if key == 'd' else ir.Ty('int', 8 * w)
        v = (Fraction(0) if key == 'd' else 0) if zero else ex.load(st, A[2], ty)
        put_vec(ex, st, A[0], darr(ex, st, [v] * A[1], w), A[1] * w)
        return [(st, None)]
    return h


def resize(w, key):
    def h(ex, st, A):
        if not isinstance(A[1], int):
            raise Unsupported('vector length')
        b = ex.load(st, A[0], ir.PTR)
        old = [] if b is NULL or b.fam is None else get_vec(ex, st, A[0], w, key)
        new = (old + [Fraction(0) if key == 'd' else 0] * A[1])[:A[1]]
        put_vec(ex, st, A[0], darr(ex, st, new, w), w * len(new))
        return [(st, None)]
    return h


def taken(m, n, fields):
    """vector::push_back(const T &): a copy of the record, with the values it has now, is added to the list"""
    def h(ex, st, A):
        v = {}
        for f, sh in fields.items():
            p = A[1].add(m.lay.offset(n, f)[0])
            try:
                if sh is STR:
                    v[f] = tok(ex, st, p)
                elif sh.k == 'vec':
                    v[f] = get_vec(ex, st, p, 8, 'i')
                else:
                    v[f] = ex.load(st, p, ir.Ty('double') if sh is F64 else ir.Ty('int', sh.a))
            except Unsupported as e:
                v[f] = None
        st.log.append(Ent('op', 'push', '', (), None, meta={'list': A[0], 'v': v}))
        return [(st, None)]
    return h


def start(ctx, fn, **kw):
    m, ex = world(ctx, fn, **kw)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Cfg'))])
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)), str([o.kind for o in outs]))
    return m, ex, outs


def whole(x):
    """(int) of a configured number"""
    return z3.ToInt(x)


def times(ctx):
    fn = 'Cfg::init_time'
    m, ex, outs = start(ctx, fn)
    for o in rets(outs):
        hy = pc_of(ex, o)
        w = {(e.fam, e.leaf) for e in o.st.log if e.kind in ('w', 'inc')}
        ctx.p.fact_true('frame: only the clock is written', fn, all(f == 'time' for f, _ in w), str(w))
        for f in ('start', 'end', 'step'):
            ctx.p.eq(f'{f} as configured', fn, ex.value_at(o.st, 'time', '.' + f, ()), num('/time/' + f), hy, ex.facts)
        ctx.p.eq('the clock starts from zero', fn, ex.value_at(o.st, 'time', '.current', ()), Fraction(0), hy, ex.facts)


def geometry(**kw):
    def go(ctx):
        fn = 'Cfg::init_geometry'
        p = ctx.p
        m, ex = world(ctx, fn, **kw)
        pml = kw.get('ENABLE_PML', 'true') is not None
        for sy in m.inv.get('Geometry::Geometry', []):
            n = m.dem[sy].count('std::vector<')
            if n:
                ex.contracts[sy] = made(n)
        outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Cfg'))])
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        nr, nz = whole(num('/geometry/grid/radius')), whole(num('/geometry/grid/longitude'))
        dom = [nr >= 1, nz >= 1, nr < 2 ** 31, nz < 2 ** 31] + [num('/geometry/' + q) >= 0 for q in ('grid/radius', 'grid/longitude', 'domains_amount/radius', 'domains_amount/longitude', 'pml/left_wall', 'pml/right_wall', 'pml/outer_wall')]
        for o in rets(outs):
            hy = dom + pc_of(ex, o)
            E = lambda x: x if is_c(x) or isinstance(x, (bool, int)) else ex.expand(o.st, x)
            w = written(o.st)
            p.fact_true('frame: only the geometry is written', fn, w <= {('this', '.geometry')}, str(w))
            ops = [e for e in o.st.log if e.kind == 'op' and e.fam == 'Geometry']
            g = ex.load(o.st, ex.root('this', STRUCT('Cfg')).add(m.lay.offset('Cfg', 'geometry')[0]), ir.PTR)
            p.fact_true('one geometry is made and kept', fn, len(ops) == 1 and same(ops[0].meta['obj'], g), str(ops), refuted=False)
            if len(ops) != 1:
                continue
            v = ops[0].meta
            p.fact_true('sizes, cells and walls of two axes are given', fn, len(v['size']) == 2 and len(v['dims']) == 4 and len(v['walls']) == 4, str(v))
            for n, f in enumerate(('radius', 'longitude')):
                p.eq(f'{f} as configured', fn, E(v['size'][n]), num('/geometry/size/' + f), hy, ex.facts)
                p.holds(f'cells along {f} as configured', fn, tr(E(v['dims'][n + 2])) == tr((nr, nz)[n]), hy, ex.facts)
                p.holds(f'the space begins at cell zero along {f}', fn, tr(E(v['dims'][n])) == 0, hy, ex.facts)
            for n in range(4):
                p.holds(f'the space has wall {n}', fn, truth(E(v['walls'][n])), hy, ex.facts)
            if pml:
                p.fact_true('layers at four walls', fn, v['pml'] is not None and len(v['pml']) == 4 and len(v['sigma']) == 2, str(v))
                want = [0, z3.ToInt(num('/geometry/pml/left_wall') * z3.ToReal(nz)), z3.ToInt(num('/geometry/pml/outer_wall') * z3.ToReal(nr)), z3.ToInt(num('/geometry/pml/right_wall') * z3.ToReal(nz))]
                for n in range(4):
                    p.holds(f'layer {n}: the configured part of the cells', fn, tr(E(v['pml'][n])) == tr(want[n]), hy, ex.facts)
                for n in range(2):
                    p.eq(f'conductivity {n} as configured', fn, E(v['sigma'][n]), num(f'/geometry/pml/sigma_{n + 1}'), hy, ex.facts)
            da = get_vec(ex, o.st, g.add(m.lay.offset('Geometry', 'domains_amount')[0]), 8, 'i')
            p.fact_true('amount of domains along two axes', fn, len(da) == 2, str(da))
            for n, f in enumerate(('radius', 'longitude')):
                want = 1 if 'ENABLE_SINGLETHREAD' in kw else whole(num('/geometry/domains_amount/' + f))
                p.holds(f'domains along {f}' + (': one' if isinstance(want, int) else ' as configured'), fn, tr(E(da[n])) == tr(want), hy, ex.facts)
    return go


def made(n):
    """Geometry::Geometry(size, cells, [layers, sigma,] walls)"""
    def h(ex, st, A):
        v = dict(obj=A[0], size=get_vec(ex, st, A[1], 8, 'd'), dims=get_vec(ex, st, A[2], 8, 'i'), walls=get_vec(ex, st, A[n], 1, 'b'), pml=None, sigma=None)
        if n == 5:
            v.update(pml=get_vec(ex, st, A[3], 8, 'i'), sigma=get_vec(ex, st, A[4], 8, 'd'))
        if n not in (3, 5):
            raise Unsupported('geometry constructor')
        st.log.append(Ent('op', 'Geometry', '', (), None, meta=v))
        return [(st, None)]
    return h


def tr(x):
    return z3.RealVal(x) if isinstance(x, (int, Fraction)) else (z3.ToReal(x) if z3.is_int(x) else x)


def output(ctx):
    fn = 'Cfg::init_output_data'
    m, ex, outs = start(ctx, fn)
    p = ctx.p
    for o in rets(outs):
        hy = pc_of(ex, o)
        w = written(o.st)
        p.fact_true('frame: only the output settings are written', fn, all(f == 'save' for f, _ in w), str(w))
        sv = ex.root('save', STRUCT('Save'))
        q = ex.load(o.st, sv.add(m.lay.offset('Save', 'data_root')[0]), ir.PTR)
        p.fact_true('output goes to the configured place', fn, isinstance(q, Ptr) and q.fam is not None and q.fam.name == J + '/data/data_root$', str(q), refuted=isinstance(q, Ptr) and q.fam is not None and q.fam.name.startswith(J))
        c = ex.value_at(o.st, 'save', '.compress', (), sh=BOOL)
        b = z3.Int(J + '/data/compression/use?')
        p.holds('compression as configured', fn, (truth(c)) == (b != 0), hy + [z3.Or(b == 0, b == 1)], ex.facts)
        lv = num('/data/compression/level')
        p.holds('compression level as configured', fn, tr(ex.value_at(o.st, 'save', '.compress_level', (), sh=I32)) == tr(whole(lv)), hy + [lv >= 0, lv < 100], ex.facts)


def truth(w):
    if isinstance(w, int):
        return z3.BoolVal(bool(w))
    return w if z3.is_bool(w) else w != 0


SALT = {'Cfg::init_particles': 1394, 'Cfg::init_beam': 18132}


def records(ctx, fn, lst, arr, spec, **kw):
    """a loop over a JSON array that adds one record per entry; spec(k) -> {field: wanted}"""
    m, ex, outs = start(ctx, fn, **kw)
    p = ctx.p
    n = z3.Int(J + arr + '/.size')
    for o in rets(outs):
        pc = pc_of(ex, o)
        w = written(o.st)
        p.fact_true('frame: nothing else is written', fn, not w, str(w))
        pu = [e for e in o.st.log if e.kind == 'op' and e.fam == 'push']
        if not pu:
            p.holds('entries are taken unless there are none', fn, n == 0, pc, ex.facts)
            continue
        ok = all(len(e.loops) == 1 and e.meta['list'].fam.name == 'this' and e.meta['list'].off == m.lay.offset('Cfg', lst)[0] and e.loops[0].k is pu[0].loops[0].k for e in pu)
        p.fact_true('records go to their list', fn, ok, str(pu)[:300], refuted=False)
        if not ok:
            continue
        lv = pu[0].loops[0]
        p.holds('every entry is looked at', fn, lv.dom == z3.And(lv.k >= 0, lv.k < n), pc + [n >= 0], ex.facts)
        gs = [z3.BoolVal(True) if e.guard is True else ex.ended(ex.expand(o.st, e.guard)) for e in pu]
        yield m, ex, o, pu, lv, gs, pc + [lv.dom]


def field(p, ex, o, fn, nm, have, want, hy, exact=True):
    if have is None:
        p.fact_true(nm, fn, False, 'not known', refuted=False)
        return
    have = have if isinstance(have, (int, Fraction)) else ex.expand(o.st, have)
    if z3.is_expr(want) and z3.is_int(want) or isinstance(want, int):
        p.holds(nm, fn, tr(have) == tr(want), hy, ex.facts)
    else:
        p.eq(nm, fn, have, want, hy, ex.facts)


def species(ctx):
    fn = 'Cfg::init_particles'
    p = ctx.p
    for m, ex, o, pu, lv, gs, hy in records(ctx, fn, 'particle_species', '/particles', None):
        k = lv.k
        at = '/particles/[]'
        p.holds('one species per entry', fn, z3.Sum([z3.If(g, 1, 0) for g in gs]) == 1, hy, ex.facts)
        for e, g in zip(pu, gs):
            v, h2 = e.meta['v'], hy + [g, num(at + '/mass', k) >= 0]
            nm = txt(at + '/name', k)
            for f in ('left_density', 'right_density'):
                field(p, ex, o, fn, f'{f} as configured', v[f], num(at + '/density', k), h2)
            field(p, ex, o, fn, 'temperature as configured', v['temperature'], num(at + '/temperature', k), h2)
            field(p, ex, o, fn, 'mass as configured', v['mass'], whole(num(at + '/mass', k)), h2)
            c = num(at + '/charge', k)
            field(p, ex, o, fn, 'charge as configured', v['charge'], z3.If(c >= 0, z3.ToInt(c), -z3.ToInt(-c)), h2)
            field(p, ex, o, fn, 'name as configured', v['name'], nm, h2)
            field(p, ex, o, fn, 'number made from the name', v['id'], HASH(nm, SALT[fn]), h2 + [HASH(nm, SALT[fn]) >= 0, HASH(nm, SALT[fn]) < 2 ** 15])


def beams(ctx):
    fn = 'Cfg::init_beam'
    p = ctx.p
    for m, ex, o, pu, lv, gs, hy in records(ctx, fn, 'particle_beams', '/beams', None):
        k = lv.k
        at, bn = '/beams/[]', '/beams/[]/bunch'
        p.holds('one beam per entry', fn, z3.Sum([z3.If(g, 1, 0) for g in gs]) == 1, hy, ex.facts)
        for e, g in zip(pu, gs):
            v, h2 = e.meta['v'], hy + [g, num(at + '/mass', k) >= 0, num(bn + '/amount', k) >= 0]
            for f, w in (('start_time', at + '/start_time'), ('velocity', at + '/velocity'), ('bunches_distance', bn + '/distance'), ('bunch_length', bn + '/length'), ('bunch_radius', bn + '/radius'),
                         ('density', bn + '/density')):
                field(p, ex, o, fn, f'{f} as configured', v[f], num(w, k), h2)
            field(p, ex, o, fn, 'mass as configured', v['mass'], whole(num(at + '/mass', k)), h2)
            c = num(at + '/charge', k)
            field(p, ex, o, fn, 'charge as configured', v['charge'], z3.If(c >= 0, z3.ToInt(c), -z3.ToInt(-c)), h2)
            field(p, ex, o, fn, 'amount of bunches as configured', v['bunches_amount'], whole(num(bn + '/amount', k)), h2)
            field(p, ex, o, fn, 'the first bunch is next', v['current_bunch_number'], 0, h2)
            for f in ('radial', 'longitudinal'):
                field(p, ex, o, fn, f'{f} profile as configured', v[f + '_profile'], txt(bn + '/profile/' + f, k), h2)
            nm = cat(lit('beam_'), txt(at + '/name', k))
            field(p, ex, o, fn, 'name as configured, marked as a beam', v['name'], nm, h2)
            field(p, ex, o, fn, 'number made from the name', v['id'], HASH(nm, SALT[fn]), h2 + [HASH(nm, SALT[fn]) >= 0, HASH(nm, SALT[fn]) < 2 ** 15])


SHAPES = {'rec': 0, 'col': 1, 'row': 2, 'dot': 3}
OWN = ['temperature', 'energy', 'momentum/r', 'momentum/phi', 'momentum/z', 'density']


def probes(ctx):
    fn = 'Cfg::init_probes'
    p = ctx.p
    m, ex = world(ctx, fn)
    NG = z3.Ints('nr nz')
    vec_pin(ex, 'geometry', '.cell_amount', list(NG))
    room = [NG[0] >= 1, NG[1] >= 1, NG[0] < 2 ** 31, NG[1] < 2 ** 31]
    for q in room:
        ex.fact(q)
    at = '/data/probes/[]'
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Cfg'))])
    p.fact_true('returns', fn, bool(rets(outs)), str([o.kind for o in outs]))
    n = z3.Int(J + '/data/probes/.size')
    for o in rets(outs):
        pc = pc_of(ex, o)
        w = written(o.st)
        p.fact_true('frame: nothing else is written', fn, not w, str(w))
        pu = [e for e in o.st.log if e.kind == 'op' and e.fam == 'push']
        if not pu:
            p.holds('entries are taken unless there are none', fn, n == 0, pc, ex.facts)
            continue
        ok = all(len(e.loops) == 1 and e.meta['list'].fam.name == 'this' and e.meta['list'].off == m.lay.offset('Cfg', 'probes')[0] and e.loops[0].k is pu[0].loops[0].k for e in pu)
        p.fact_true('records go to their list', fn, ok, str(pu)[:300], refuted=False)
        if not ok:
            continue
        lv = pu[0].loops[0]
        k = lv.k
        p.holds('every entry is looked at', fn, lv.dom == z3.And(k >= 0, k < n), pc + [n >= 0], ex.facts)
        c, sp, sh = txt(at + '/component', k), txt(at + '/specie', k), txt(at + '/shape', k)
        raw = [num(at + q, k) for q in ('/start/r', '/start/z', '/end/r', '/end/z', '/r', '/z', '/schedule')]
        v4, rz = [whole(q) for q in raw[:4]], [whole(q) for q in raw[4:6]]
        is_ = {q: sh == lit(q) for q in SHAPES}
        sane = room + [q >= 0 for q in raw] + [q < 2 ** 31 for q in raw] + pc + [lv.dom]
        good = z3.Or(z3.And(is_['rec'], v4[0] <= v4[2], v4[1] <= v4[3], v4[2] <= NG[0], v4[3] <= NG[1]), z3.And(is_['col'], rz[1] <= NG[1]), z3.And(is_['row'], rz[0] <= NG[0]),
                     z3.And(is_['dot'], rz[0] <= NG[0], rz[1] <= NG[1]))
        gs = [z3.BoolVal(True) if e.guard is True else ex.ended(ex.expand(o.st, e.guard)) for e in pu]
        p.holds('one probe per entry inside the space', fn, z3.Sum([z3.If(g, 1, 0) for g in gs]) == z3.If(good, 1, 0), sane, ex.facts)
        own = z3.Or(*[c == lit(q) for q in OWN])
        want = [z3.If(is_['rec'], v4[0], 0), z3.If(is_['rec'], v4[1], 0), z3.If(is_['rec'], v4[2], z3.If(is_['col'], 0, rz[0])), z3.If(is_['rec'], v4[3], z3.If(is_['row'], 0, rz[1]))]
        for e, g in zip(pu, gs):
            v, h2 = e.meta['v'], sane + [g]
            E = lambda x: x if isinstance(x, (int, Fraction)) else ex.expand(o.st, x)
            field(p, ex, o, fn, 'component as configured', v['component'], c, h2)
            field(p, ex, o, fn, 'species as configured', v['specie'], sp, h2)
            field(p, ex, o, fn, 'schedule as configured', v['schedule'], whole(raw[6]), h2)
            field(p, ex, o, fn, 'shape as configured', v['shape'], z3.If(is_['rec'], 0, z3.If(is_['col'], 1, z3.If(is_['row'], 2, 3))), h2)
            if v['dims'] is None or len(v['dims']) != 4:
                p.fact_true('window of four numbers', fn, v['dims'] is None, str(v['dims']), refuted=v['dims'] is not None)
                continue
            for i in range(4):
                field(p, ex, o, fn, f'window as configured [{i}]', v['dims'][i], want[i], h2)
            # the path names component, species where it matters, shape and window
            if v['path'] is None:
                p.fact_true('path is known', fn, False, '', refuted=False)
                continue
            parts = flat(E(v['path']))
            whose = [c, '/', sp] if len(parts) > 2 and z3.is_expr(parts[2]) and parts[2].eq(sp) else [c]
            done = False
            for q, (wl, seps) in {'rec': ((v4[0], v4[2], v4[1], v4[3]), '-_-'), 'col': ((rz[1],), ''), 'row': ((rz[0],), ''), 'dot': (rz, '_')}.items():
                exp = whose + [f'/{q}/'] + [x for t, sep in zip(wl, list(seps) + [None]) for x in ((t, sep) if sep else (t,))]
                if len(exp) == len(parts) and all(isinstance(a, str) and a == b if isinstance(b, str) else z3.is_expr(a) for a, b in zip(parts, exp)):
                    done = True
                    p.holds(f'path: {q} probes only', fn, is_[q], h2, ex.facts)
                    p.holds('path: with the species where the component belongs to one', fn, own if len(whose) > 1 else z3.Not(own), h2, ex.facts)
                    for a, b in zip(parts, exp):
                        if not isinstance(b, str):
                            a = a.arg(0) if a.decl().name() == 'to_string' else a
                            p.holds('path: parts are those of the probe', fn, tr(a) == tr(b), h2, ex.facts)
            p.fact_true('path: component, species, shape, window', fn, done, str(parts)[:400], refuted=False)


def external(ctx):
    """init_external_fields: first the electric field, then the magnetic one, each with its profile and every parameter in its place"""
    fn = 'Cfg::init_external_fields'
    p = ctx.p
    m, ex = world(ctx, fn, ENABLE_EXTERNAL_FIELDS='true')
    json_copies(ctx, m, ex)

    def more(ex, st, A):
        st.log.append(Ent('op', 'param', '', (), None, meta=dict(to=A[0], v=ex.load(st, A[1], ir.Ty('double')))))
        return [(st, None)]

    def add(ex, st, A):
        L = lambda f: A[1].add(m.lay.offset('ExtF', f)[0])
        st.log.append(Ent('op', 'field', '', (), None, meta=dict(list=A[0], name=tok(ex, st, L('name')), ff=tok(ex, st, L('formfactor')), params=L('params'))))
        return [(st, None)]
    for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith((VD + '::push_back(', VD + '::emplace_back')):
            ex.contracts[sy] = more
        elif d.startswith('std::vector<external_field, std::allocator<external_field>>::push_back('):
            ex.contracts[sy] = add
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Cfg'))])
    p.fact_true('returns', fn, bool(rets(outs)), str([o.kind for o in outs]))
    for o in rets(outs):
        pc = pc_of(ex, o)
        p.fact_true('frame: nothing else is written', fn, not written(o.st), str(written(o.st)))
        log = [e for e in o.st.log if e.kind == 'op']
        fs = [(n, e) for n, e in enumerate(log) if e.fam == 'field']
        ok = len(fs) == 2 and all(not e.loops and e.guard is True and e.meta['list'].fam.name == 'this' and e.meta['list'].off == m.lay.offset('Cfg', 'external_fields')[0] for _, e in fs)
        p.fact_true('two fields are recorded', fn, ok, str(fs)[:300], refuted=bool(fs))
        if not ok:
            continue
        for (n, e), at in zip(fs, ('electric', 'magnetic')):
            P = f'/external_fields/{at}'
            p.holds(f'{at}: profile as configured', fn, iv(e.meta['ff']) == txt(P + '/formfactor'), pc, ex.facts)
            cnt = z3.Int(J + P + '/params/.size')
            to = e.meta['params']
            mine = [(k, q) for k, q in enumerate(log) if q.fam == 'param' and same(q.meta['to'], to)]
            if not mine:
                p.holds(f'{at}: parameters are taken unless there are none', fn, cnt == 0, pc + [cnt >= 0], ex.facts)
                continue
            good = len(mine) == 1 and len(mine[0][1].loops) == 1 and mine[0][1].guard is True and mine[0][0] < n
            p.fact_true(f'{at}: one parameter per turn, before the field is recorded', fn, good, str(mine)[:300], refuted=False)
            if not good:
                continue
            q = mine[0][1]
            k = q.loops[0].k
            p.holds(f'{at}: every parameter is looked at', fn, q.loops[0].dom == z3.And(k >= 0, k < cnt), pc + [cnt >= 0], ex.facts)
            p.eq(f'{at}: parameter as configured', fn, ex.expand(o.st, q.meta['v']), num(P + '/params/[]', k), pc + [q.loops[0].dom], ex.facts)


def shares(ctx):
    fn = 'Cfg::weight_macro_amount'
    p = ctx.p
    m, ex = world(ctx, fn)
    NG = z3.Ints('nr nz')
    HR, HZ = z3.Reals('hr hz')
    vec_pin(ex, 'geometry', '.cell_amount', list(NG))
    vec_pin(ex, 'geometry', '.cell_size', [HR, HZ])
    NS, NB = z3.Int('this.particle_species.size'), z3.Int('this.particle_beams.size')
    MA, BR = z3.Real('this.macro_amount'), z3.Int('this.beam_macro_ratio')
    room = [NG[0] >= 1, NG[1] >= 1, NG[0] < 2 ** 31, NG[1] < 2 ** 31, HR > 0, HZ > 0, NS >= 1, NB >= 0, MA >= 0, MA < 2 ** 31, BR >= 0, BR < 2 ** 32, NS < 2 ** 16, NG[0] * NG[1] * NS < 2 ** 60]
    for q in room:
        ex.fact(q)
    outs = ex.call_function(m.sym(fn), [ex.root('this', STRUCT('Cfg'))])
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        pc = pc_of(ex, o)
        w = {(e.fam, e.leaf) for e in o.st.log if e.kind in ('w', 'inc')}
        p.fact_true('frame: only the shares are written', fn, w <= {('this.particle_species[]', '.macro_amount'), ('this.particle_beams[]', '.macro_amount')}, str(w))
        k = z3.Int('k')
        F = lambda f, q, sort=z3.RealSort(): z3.Function('this.particle_beams[].' + f, z3.IntSort(), sort)(q)
        cells = lambda q: (F('bunch_radius', q) / HR) * (F('bunch_length', q) * z3.ToReal(F('bunches_amount', q, z3.IntSort())) / HZ) * z3.ToReal(BR)
        sums = list(ex.sums.values())
        if len(sums) != 1:
            raise Unsupported(f'{len(sums)} sums')
        sym, acc, v0, new, lv = sums[0]
        p.eq('the total starts with the cells of all species', fn, R(v0), z3.ToReal(NG[0] * NG[1] * NS), room, ex.facts, ranges=RS)
        p.holds('the total runs over all beams', fn, lv.dom == z3.And(lv.k >= 0, lv.k < NB), room, ex.facts)
        for g, nv in new:
            p.holds('every beam counts', fn, z3.BoolVal(True) if g is True else g, room + [lv.dom], ex.facts)
            p.eq('a beam counts with its cells times the ratio', fn, rsub(ex.expand(o.st, nv), acc), cells(lv.k), room + [lv.dom], ex.facts, ranges=RS)
        norm = MA / sym
        for fam, size, x, nm in (('this.particle_species[]', NS, z3.ToReal(NG[0] * NG[1]) * norm, 'species'), ('this.particle_beams[]', NB, cells(k) * norm, 'beam')):
            have = ex.value_at(o.st, fam, '.macro_amount', (k,))
            have = ex.expand(o.st, have) if z3.is_expr(have) else have
            h2 = room + pc + [k >= 0, k < size, sym > 0, F('bunch_radius', k) >= 0, F('bunch_length', k) >= 0, F('bunches_amount', k, z3.IntSort()) >= 0]
            ins = [q for q in toints(have)]
            args = []
            for q in ins:
                if not any(q.arg(0).eq(y) for y in args):
                    args.append(q.arg(0))
            pos = [y for y in args if nonneg(y)]
            if len(pos) != 1:
                p.fact_true(f'{nm}: whole number of macroparticles', fn, False, str(args)[:300], refuted=False)
                continue
            p.eq(f'{nm}: share of the macroparticles by cells', fn, pos[0], x, h2, ex.facts, ranges=RS)
            y = z3.Real('y')
            hv = z3.substitute(have, *[(q, y) for q in [pos[0]]], *[(q, -y) for q in args if not q.eq(pos[0])])
            p.holds(f'{nm}: rounded down to a whole number', fn, z3.simplify(R(hv)) == z3.ToReal(z3.ToInt(y)), [y >= 0, y < 2 ** 32, k >= 0, k < size], [])


def toints(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_INT):
            out.append(x)
        st.extend(x.children())
    return out


def nonneg(t):
    """not written as the negative of something"""
    return not (z3.is_app_of(t, z3.Z3_OP_UMINUS) or z3.is_mul(t) and any(z3.is_rational_value(c) and c.as_fraction() < 0 for c in t.children()))


RS = {'nr': lambda g: g.randint(1, 9), 'nz': lambda g: g.randint(1, 9), 'this.particle_species.size': lambda g: g.randint(1, 4), 'this.beam_macro_ratio': lambda g: g.randint(1, 5), 'hr': lambda g: g.uniform(.1, 1),
      'hz': lambda g: g.uniform(.1, 1), 'this.macro_amount': lambda g: g.uniform(1, 1000), 'sum*': lambda g: g.uniform(1, 1000), 'this.particle_beams[].bunches_amount': lambda g: g.randint(1, 5),
      'this.particle_beams[].bunch_*': lambda g: g.uniform(.1, 5)}


def sections(tier):
    return [('time', times), ('output', output), ('geometry', geometry()), ('geometry without layers', geometry(ENABLE_PML=None)), ('geometry, one thread', geometry(ENABLE_SINGLETHREAD='true')),
            ('species', species), ('beams', beams), ('probes', probes), ('shares', shares), ('external fields', external)]


def natives(tier):
    S = ['src/cfg.cpp', 'src/algo/common.cpp', 'src/phys/plasma.cpp']
    return [Native('configuration', 'c24.cpp', S, config(), n=(300, 5000)),
            Native('configuration, no layers, external fields', 'c24.cpp', S, config(ENABLE_PML=None, ENABLE_EXTERNAL_FIELDS='true', ENABLE_SINGLETHREAD='true'), n=(300, 5000))]
