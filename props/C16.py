"""Output: every probe value is written once, at its time, from its node, to its place in the dataset."""
from extract import config, VERIF, REPO
from lib import *
from shapes import G, T
from yeelib import vec_pin, grid_pins, NR, NZ, S, scal
from smblib import NSRC, GRIDD, DOM, MSY, zi, Op, has_var, occurs
from C04 import get_vec, put_vec, op, rec, darr, hand_over, deref, vec_contracts, il_vec, empty_vec, push, assign, copy_vec, VU, STRC, same, toreal
from runner import Native
import ir

LEVEL = 'proof'
VS16 = 'std::vector<short, std::allocator<short>>'
VD = 'std::vector<double, std::allocator<double>>'
VVD = 'std::vector<std::vector<double, std::allocator<double>>, std::allocator<std::vector<double, std::allocator<double>>>>'
P0, P1, P2, P3, SCH, K = z3.Ints('p0 p1 p2 p3 schedule step_number')
I16 = INT(16, False)
SHAPES = ('rec', 'col', 'row', 'dot')
OE = 'OutEngineHDF5::'
VOW = 'std::vector<OutWriter, std::allocator<OutWriter>>'
VU4 = 'std::vector<unsigned int, std::allocator<unsigned int>>'


def round_contract(ex, log):
    """round(x): the nearest whole number (x is checked to be current / step)"""
    def h(ex, st, A):
        log.append(A[0])
        return [(st, z3.ToReal(K))]
    for n in ('@round', '@llvm.round.f64'):
        ex.contracts[n] = h


def writer(shape):
    def go(ctx):
        fn = 'OutWriter::operator()'
        wr = {'rec': 'write_rec', 'col': 'write_vec', 'row': 'write_vec', 'dot': 'write_dot'}
        m = ctx.load(config(), ['src/outWriter.cpp'], [fn] + [t + '::' + q for t in (VD, VVD) for q in ('vector', '~vector', 'push_back')], ['outWriter.hpp'], ['Grid', 'TimeSim'],
                     {'OW': ('OutWriter', dict(engine=STRUCT('OE'), time=T(), schedule=U16, shape=U16, position=VEC(I16), values=PTR(STRUCT('Grid'), 'values'), path=STR)), 'OE': ('OutEngineHDF5', {}),
                      'VVD': (VVD, {}), 'Row': (VD, {})})
        ex = m.exec()
        ex.pins[('this', '.shape')] = SHAPES.index(shape)
        ex.pins[('this', '.schedule')] = SCH
        vec_pin(ex, 'this', '.position', [P0, P1, P2, P3])
        grid_pins(ex, 'values', '')
        rnd = []
        round_contract(ex, rnd)
        for f in (SCH >= 1, SCH < 65536, K >= 0, K < 2 ** 31, NR >= 1, NZ >= 1, NR < 32768, NZ < 32768, *[x >= 0 for x in (P0, P1, P2, P3)], P0 <= P2, P2 <= NR, P1 <= P3, P3 <= NZ):
            ex.fact(f)
        ops = {'n': 0}

        def rows(ex, st, A):
            st.log.append(op('rows', obj=A[0], n=A[1], row=A[2]))
            p = ex.root('val', VEC(VEC(F64)))
            for o in (0, 8, 16):
                ex.store(st, A[0].add(o), ex.load(st, p.add(o), ir.PTR), ir.PTR)
            return [(st, None)]

        def row(ex, st, A):
            st.log.append(op('row', obj=A[0], n=A[1], v=ex.load(st, A[2], ir.Ty('double'))))
            return [(st, None)]
        for sy in m.inv.get(VVD + '::vector', []):
            if 'unsigned long' in m.dem[sy]:
                ex.contracts[sy] = rows
        for sy in m.inv.get(VD + '::vector', []):
            if m.dem[sy].count('(unsigned long, double const&'):
                ex.contracts[sy] = row
            elif m.dem[sy].endswith('::vector()'):
                ex.contracts[sy] = rec('row', obj=0, n=lambda *a: 0)
        for t in (VD, VVD):
            for sy in m.inv.get(t + '::~vector', []):
                ex.contracts[sy] = lambda ex, st, A: [(st, None)]
            for sy in m.inv.get(t + '::vector', []):
                if m.dem[sy].endswith(f'::vector({t} const&)'):
                    ex.contracts[sy] = hand_over
        for sy in m.inv.get(VD + '::push_back', []):
            ex.contracts[sy] = rec('push', obj=0, v=lambda ex, st, A: ex.load(st, A[1], ir.Ty('double')))
        for nm, dm in list(m.dem.items()) + [(c, d) for c, d in ctx.work.demangle(sorted(m.mod.decls)).items()]:
            if dm.startswith(OE + 'write_'):
                w = dm[len(OE):].split('(')[0]
                ex.contracts[nm] = rec('write', how=lambda ex, st, A, w=w: w, slice=1, val=lambda ex, st, A, w=w: A[2] if w == 'write_dot' else ex.load(st, A[2], ir.PTR), engine=0)
        this = ex.root('this', STRUCT('OW'))
        outs = ex.call_function(m.sym(fn), [this])
        p = ctx.p
        p.fact_true('returns', fn, bool(outs) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        p.fact_true('the number of the step is rounded once from its time', fn, len(rnd) >= 1, '', refuted=False)
        for x in rnd:
            p.eq('the number of the step is the current time divided by the step', fn, x, z3.Real('time.current') / z3.Real('time.step'), [z3.Real('time.step') > 0], ex.facts)
        val = z3.Function('values.grid->->', z3.IntSort(), z3.IntSort(), z3.RealSort())
        i, j = z3.Ints('i j')
        due = K % SCH == 0
        for o in rets(outs):
            pc = pc_of(ex, o)
            E = lambda x: x if is_c(x) or isinstance(x, (bool, int, Ptr)) else ex.expand(o.st, x)
            ops = [e for e in o.st.log if e.kind == 'op']
            W = [e for e in ops if e.fam == 'write']
            p.fact_true('frame: nothing but the gathered values is written', fn, {w[0] for w in written(o.st)} <= {'val[][]'}, str(written(o.st)))
            p.holds('values are written exactly at steps that are multiples of the schedule', fn, due if W else z3.Not(due), pc, ex.facts)
            if not W:
                continue
            p.fact_true('one write a step', fn, len(W) == 1 and not W[0].loops and W[0].guard is True and W[0].meta['how'] == wr[shape], str(W))
            w = W[0].meta
            p.fact_true('the write goes to the own place of the writer', fn, same(w['engine'], this.add(m.lay.offset('OW', 'engine')[0])), str(w['engine']))
            p.eq('the number of the slice counts writes', fn, rmul(toreal(E(w['slice'])), toreal(SCH)), toreal(K), pc + [due], ex.facts)
            if shape == 'dot':
                p.eq('the value is that of the node', fn, E(w['val']), val(P2 + S, P3 + S), pc, ex.facts)
                continue
            mk = [e for e in ops if e.fam in ('row', 'rows')]
            if shape == 'rec':
                rs, rw = [e for e in mk if e.fam == 'rows'], [e for e in mk if e.fam == 'row']
                ok = len(rs) == 1 and len(rw) == 1 and same(w['val'], rs[0].meta['obj']) and same(rs[0].meta['row'], rw[0].meta['obj'])
                p.fact_true('the gathered window is what is written', fn, ok, str(mk), refuted=False)
                if not ok:
                    continue
                p.eq('rows of the window', fn, toreal(E(rs[0].meta['n'])), toreal(P2 - P0), pc, ex.facts)
                p.eq('columns of the window', fn, toreal(E(rw[0].meta['n'])), toreal(P3 - P1), pc, ex.facts)
                dom = [i >= 0, i < P2 - P0, j >= 0, j < P3 - P1]
                p.eq('each value is that of its node', fn, ex.value_at(o.st, 'val[][]', '', (i, j)), val(P0 + i + S, P1 + j + S), pc + dom, ex.facts)
                for e in [e for e in o.st.log if e.kind in ('w', 'inc') and e.fam == 'val[][]']:
                    hy = [l.dom for l in e.loops] + ([] if e.guard is True else [e.guard])
                    x, y = (E(q) for q in e.idx)
                    p.holds('the window is not written out of bounds', fn, z3.And(x >= 0, x < P2 - P0, y >= 0, y < P3 - P1), pc + hy, ex.facts)
                continue
            pu = [e for e in ops if e.fam == 'push']
            ok = len(pu) == 1 and len(pu[0].loops) == 1 and pu[0].guard is True and all(e.fam == 'row' and e.meta['n'] == 0 for e in mk) and len(mk) == 1 and same(w['val'], mk[0].meta['obj']) and same(pu[0].meta['obj'], mk[0].meta['obj'])
            p.fact_true('values are gathered one after another', fn, ok, str(pu), refuted=False)
            if not ok:
                continue
            l = pu[0].loops[0]
            n, node = (NR, val(l.k + S, P3 + S)) if shape == 'col' else (NZ, val(P2 + S, l.k + S))
            p.holds('one value for every cell of the domain', fn, l.dom == z3.And(l.k >= 0, l.k < n), pc, ex.facts)
            p.eq('each value is that of its node', fn, E(pu[0].meta['v']), node, pc + [l.dom], ex.facts)
    return go


H5 = ['HighFive::' + x for x in ('File::getDataSet', 'File::createGroup', 'File::createDataSet*', 'DataSet::select', 'DataSet::resize', 'DataSet::getDimensions', 'DataSet::~DataSet', 'Selection::write', 'Selection::~Selection',
                                  'DataSpace::DataSpace', 'DataSpace::~DataSpace', 'DataSetCreateProps::DataSetCreateProps', 'DataSetCreateProps::~DataSetCreateProps', 'DataSetCreateProps::add*', 'Chunking::Chunking', 'Chunking::~Chunking')]
VH = 'std::vector<unsigned long long, std::allocator<unsigned long long>>'
VVVD = f'std::vector<{VVD}, std::allocator<{VVD}>>'
UNL = -1      # DataSpace::UNLIMITED
noop = lambda ex, st, A: [(st, A[0] if A else None)]


def engine_setup(ctx, fn, noff, nsize):
    m = ctx.load(config(), ['src/outEngine/outEngineHDF5.cpp'], H5 + [fn, 'std::operator+*'] + [t + '::' + q for t in (VD, VVD, VVVD, VU, VH) for q in ('vector', '~vector', 'push_back', 'operator=', 'emplace_back*')] +
                 [STRC + '::' + q for q in ('basic_string*', '~basic_string', 'substr', 'find_last_of')], ['outEngine/outEngineHDF5.hpp'], [],
                 {'OE': ('OutEngineHDF5', dict(path=STR, size=VEC(U64), offset=VEC(U64), data_file=PTR(STRUCT('File'), 'file'))), 'File': ('HighFive::File', {}), 'VVD': (VVD, {})},
                 cflags=('-fexceptions', '-I' + VERIF + '/stubs_h5', '-I' + REPO))
    ex = m.exec()
    vec_pin(ex, 'this', '.offset', list(z3.Ints('off0 off1'))[:noff])
    vec_pin(ex, 'this', '.size', list(z3.Ints('size0 size1'))[:nsize])
    for q in (*z3.Ints('off0 off1'), *z3.Ints('size0 size1'), z3.Int('slice')):
        ex.fact(q >= 0)
        ex.fact(q < 2 ** 48)
    vec_contracts(ex, m)
    for t, w in ((VU, 8), (VH, 8)):
        for sy in m.inv.get(t + '::vector', []):
            if m.dem[sy].endswith('::vector()'):
                ex.contracts[sy] = empty_vec
            elif 'initializer_list' in m.dem[sy]:
                ex.contracts[sy] = il_vec(8, 'i')
            elif f'({t} const&)' in m.dem[sy]:
                ex.contracts[sy] = copy_vec
        for sy in m.inv.get(t + '::push_back', []):
            ex.contracts[sy] = push(8, 'i')
        for sy in m.inv.get(t + '::operator=', []):
            ex.contracts[sy] = assign
    for t in (VD, VVD, VVVD, VU, VH):
        for sy in m.inv.get(t + '::~vector', []):
            ex.contracts[sy] = noop

    def block(ex, st, A):
        """vector(n, value): one block of elements when n is one; a record of the size otherwise"""
        st.log.append(op('made', obj=A[0], n=A[1]))
        b = ex.new_local(st, 'block', 24)
        put_vec(ex, st, A[0], b, 24)
        return [(st, None)]
    for t in (VVD, VVVD):
        for sy in m.inv.get(t + '::vector', []):
            if '(unsigned long,' in m.dem[sy]:
                ex.contracts[sy] = block
    for sy in m.inv.get(VD + '::vector', []):
        if '(unsigned long,' in m.dem[sy]:
            ex.contracts[sy] = noop
    for t in (VD, VVD):
        for sy in m.inv.get(t + '::operator=', []):
            ex.contracts[sy] = lambda ex, st, A: (st.log.append(op('assign', dst=A[0], src=A[1])), [(st, A[0])])[1]
    for n, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if n not in ex.contracts and ('basic_string' in d.split('(')[0] or d.startswith(('HighFive::', 'std::operator+', 'std::__cxx11::basic_string'))):
            ex.contracts[n] = noop

    def named(nm, h):
        for sy, d in m.dem.items():
            if 'HighFive::' + nm in d.split('(')[0]:
                ex.contracts[sy] = h

    def ds(ex, st, A):
        q = ex.new_local(st, 'dataset', 8)
        st.log.append(op('getDataSet', file=A[0], path=A[1], res=q))
        return [(st, q)]
    named('File::getDataSet', ds)
    L = lambda k: (lambda ex, st, A: get_vec(ex, st, A[k], 8, 'i'))
    named('DataSet::select', rec('select', res=0, set=deref(1), off=L(2), cnt=L(3)))
    named('DataSet::resize', rec('resize', set=deref(0), dims=L(1)))

    def dims(ex, st, A):
        d = darr(ex, st, [z3.Int('slices')] + list(z3.Ints('size0 size1'))[:nsize], 8)
        put_vec(ex, st, A[0], d, 8 * (1 + nsize))
        return [(st, None)]
    named('DataSet::getDimensions', dims)
    ex.fact(z3.Int('slices') >= 1)
    ex.fact(z3.Int('slices') < 2 ** 48)
    for sy in m.inv.get('HighFive::Selection::write', []):
        w = 'dot' if '(double)' in m.dem[sy] else 'rec' if VVVD in m.dem[sy] else 'vec'
        ex.contracts[sy] = rec('write', how=lambda ex, st, A, w=w: w, sel=0, val=(lambda ex, st, A: A[1]) if w == 'dot' else (lambda ex, st, A: ex.load(st, A[1], ir.PTR)))
    for sy in m.inv.get('HighFive::DataSpace::DataSpace', []):
        if m.dem[sy].count('std::vector') == 2:
            ex.contracts[sy] = rec('DataSpace', obj=0, dims=L(1), max=L(2))
    for sy in m.inv.get('HighFive::Chunking::Chunking', []):
        ex.contracts[sy] = rec('Chunking', dims=L(1))
    named('File::createGroup', rec('createGroup', file=0))
    for k in m.inv:
        if k.startswith('HighFive::File::createDataSet'):
            for sy in m.inv[k]:
                ex.contracts[sy] = lambda ex, st, A: (st.log.append(op('createDataSet', file=A[0], path=A[1], space=A[2])), [(st, ex.new_local(st, 'dataset', 8))])[1]
    return m, ex


def engine(what):
    """OutEngineHDF5: where in the dataset the values of one slice go"""
    def go(ctx):
        fn = OE + 'write_' + what
        n = {'rec': 2, 'vec': 1, 'dot': 2}[what]
        m, ex = engine_setup(ctx, fn, n, 1 if what == 'dot' else n)
        this = ex.root('this', STRUCT('OE'))
        sl = z3.Int('slice')
        st = State()
        data = z3.Real('value') if what == 'dot' else ex.root('data', VEC(VEC(F64)) if what == 'rec' else VEC(F64))
        outs = ex.call_function(m.sym(fn), [this, sl, data], st)
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            pc = pc_of(ex, o)
            E = lambda x: x if is_c(x) or isinstance(x, (bool, int, Ptr)) else ex.expand(o.st, x)
            ops = [e for e in o.st.log if e.kind == 'op']
            N = lambda k: [e for e in ops if e.fam == k]
            p.fact_true('frame: nothing else is written', fn, not written(o.st), str(written(o.st)))
            p.fact_true('one selection is written', fn, len(N('write')) == 1 and len(N('select')) == 1 and len(N('getDataSet')) == 1 and not N('resize') and N('write')[0].meta['how'] == what and all(e.guard is True and not e.loops for e in ops), str(ops))
            if not (len(N('write')) == len(N('select')) == len(N('getDataSet')) == 1):
                continue
            w, s, g = N('write')[0].meta, N('select')[0].meta, N('getDataSet')[0].meta
            p.fact_true('the dataset is the one of the path of the probe', fn, same(g['path'], this.add(m.lay.offset('OE', 'path')[0])) and same(g['file'], ex.load(o.st, this.add(m.lay.offset('OE', 'data_file')[0]), ir.PTR)) and same(s['set'], g['res']), str(g))
            p.fact_true('the selection is of that dataset', fn, same(w['sel'], s['res']), str(w))
            off, cnt = [sl] + list(z3.Ints('off0 off1'))[:n], [1, z3.Int('data.size'), z3.Int('data[].size')]
            if what == 'vec':
                cnt = [1, z3.Int('data.size')]
            if what == 'dot':
                off, cnt = [sl, 0], [1, 1]
            p.fact_true('dimensions of the selection', fn, len(s['off']) == len(off) and len(s['cnt']) == len(cnt), str((s['off'], s['cnt'])))
            for k, (a, b) in enumerate(zip(s['off'], off)):
                p.eq(f'offset of the selection along axis {k}', fn, toreal(E(a)), toreal(b), pc, ex.facts)
            if what == 'dot':
                for k, (a, b) in enumerate(zip(s['cnt'], cnt)):
                    p.eq(f'extent of the selection along axis {k}', fn, toreal(E(a)), toreal(b), pc, ex.facts)
                p.eq('the value is the one given', fn, E(w['val']), data, pc, ex.facts)
                continue
            dsz = ex.load(o.st, data.add(8), ir.PTR), ex.load(o.st, data, ir.PTR)
            sizes = [1, idiv_exact(isub(dsz[0].off, dsz[1].off), 24 if what == 'rec' else 8)]
            if what == 'rec':
                r0 = dsz[1]
                e0, b0 = ex.load(o.st, r0.add(8), ir.PTR), ex.load(o.st, r0, ir.PTR)
                sizes.append(idiv_exact(isub(e0.off, b0.off), 8))
            for k, (a, b) in enumerate(zip(s['cnt'], sizes)):
                p.eq(f'extent of the selection along axis {k}', fn, toreal(E(a)), toreal(b), pc, ex.facts)
            asg = N('assign')
            p.fact_true('the values are those given', fn, len(asg) == 1 and same(asg[0].meta['dst'], w['val']) and same(asg[0].meta['src'], data) and any(e.meta['n'] == 1 for e in N('made') if isinstance(e.meta['n'], int)), str((asg, w)))
    return go


def dataset(what):
    """OutEngineHDF5::create_dataset, extend_dataset: the dataset has a place for every slice, and never loses one"""
    def go(ctx):
        fn = OE + what + '_dataset'
        for n in (2, 1):
            m, ex = engine_setup(ctx, fn, n, n)
            this = ex.root('this', STRUCT('OE'))
            sl, have = z3.Ints('slice slices')
            size = list(z3.Ints('size0 size1'))[:n]
            outs = ex.call_function(m.sym(fn), [this] + ([sl] if what == 'extend' else []))
            p = ctx.p
            p.fact_true(f'returns ({n} axes)', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
            for o in rets(outs):
                pc = pc_of(ex, o)
                E = lambda x: x if is_c(x) or isinstance(x, (bool, int, Ptr)) else ex.expand(o.st, x)
                ops = [e for e in o.st.log if e.kind == 'op']
                N = lambda k: [e for e in ops if e.fam == k]
                own = this.add(m.lay.offset('OE', 'path')[0])
                p.fact_true(f'frame ({n} axes)', fn, not written(o.st), str(written(o.st)))

                def dims(name, got, want):
                    p.fact_true(f'{name}: number of axes', fn, len(got) == len(want), str(got))
                    for k, (x, y) in enumerate(zip(got, want)):
                        p.eq(f'{name} along axis {k}', fn, toreal(E(x)), toreal(y), pc, ex.facts)
                if what == 'extend':
                    g, r = N('getDataSet'), N('resize')
                    p.fact_true(f'one dataset is opened, at most one change ({n} axes)', fn, len(g) == 1 and len(r) <= 1 and all(e.guard is True and not e.loops for e in ops), str(ops))
                    p.holds(f'the dataset grows exactly when it has no place for the slice ({n} axes)', fn, (have <= sl) if r else have > sl, pc, ex.facts)
                    if r:
                        p.fact_true('the dataset that grows is the one opened', fn, same(r[0].meta['set'], g[0].meta['res']), str(r))
                        dims('new extent', r[0].meta['dims'], [sl + 1] + size)
                else:
                    d, c = N('DataSpace'), N('createDataSet')
                    p.fact_true(f'one dataset is created ({n} axes)', fn, len(d) == 1 and len(c) == 1 and same(c[0].meta['space'], d[0].meta['obj']) and same(c[0].meta['path'], own) and all(e.guard is True and not e.loops for e in ops), str(ops))
                    if len(d) == 1:
                        dims('initial extent', d[0].meta['dims'], [1] + size)
                        dims('final extent', d[0].meta['max'], [UNL] + size)
    return go


def idiv_exact(a, n):
    if isinstance(a, int):
        return a // n
    return a / n


FIELDS = {'E/r': ('maxwell_solver', 'MSY', 'field_e', 0), 'E/phi': ('maxwell_solver', 'MSY', 'field_e', 1), 'E/z': ('maxwell_solver', 'MSY', 'field_e', 2),
          'H/r': ('maxwell_solver', 'MSY', 'field_h_at_et', 0), 'H/phi': ('maxwell_solver', 'MSY', 'field_h_at_et', 1), 'H/z': ('maxwell_solver', 'MSY', 'field_h_at_et', 2),
          'J/r': ('current', 'Current', 'current', 0), 'J/phi': ('current', 'Current', 'current', 1), 'J/z': ('current', 'Current', 'current', 2)}
MAPS = {'density': ('density_map', None), 'temperature': ('temperature_map', None), 'energy': ('energy_map', None),
        'momentum/r': ('momentum_map', 0), 'momentum/phi': ('momentum_map', 1), 'momentum/z': ('momentum_map', 2)}
PROBE = dict(path=STR, component=STR, specie=STR, shape=U32, dims=VEC(U64), schedule=U32)
DD = 'smb.domains.grid->->->'
IS, ZS = z3.IntSort(), z3.IntSort()
DIM = [z3.Function(f'window{n}', IS, IS) for n in range(4)]                      # window of probe p
CD = [z3.Function(f'cells{n}', IS, IS, IS) for n in range(4)]                    # first and last cells of domain (r, z)
MATCH = z3.Function('specie_of_probe', IS, IS, z3.BoolSort())                    # species k (the same in every domain) has the name asked for by probe p
NSP = z3.Int('species')
SCHED = z3.Function('schedule_of', IS, IS)
OC = 'OutController::'
RD, ZD = z3.Ints('RD ZD')
NP = z3.Int('probes.size')


def ctl_setup(ctx, keep, shape, comp, root=''):
    m = ctx.load(config(), ['src/outController.cpp'], keep + ['OutWriter::OutWriter', 'OutWriter::~OutWriter', OE + '*', 'std::stable_partition*', STRC + '::basic_string*', STRC + '::~basic_string', STRC + '::operator=', STRC + '::compare', 'picojson::value::*',
                                                              'std::vector<probe, std::allocator<probe>>::operator=', 'std::vector<probe, std::allocator<probe>>::~vector', 'std::vector<probe, std::allocator<probe>>::vector', VOW + '::push_back', 'msg::*'] +
                 [v + '::' + q for v in (VS16, VU, VU4) for q in ('vector', '~vector', 'push_back', 'operator=')],
                 ['outController.hpp', 'SMB.hpp', 'domain.hpp', 'specieP.hpp', 'geometry.hpp', 'timeSim.hpp'], ['Grid', 'Grid3D', 'Geometry', 'TimeSim', 'SpecieP', 'Particle'],
                 {'OC': ('OutController', dict(geometry=G(), time=T(), probes=VEC(STRUCT('Probe')), smb=PTR(STRUCT('SMB'), 'smb'), hdf5_file=PTR(STRUCT('File'), 'file'), print_progress_table=BOOL)),
                  'Probe': ('probe', PROBE), 'File': ('HighFive::File', {}), 'SMB': ('SMB', dict(domains=STRUCT('GridD'))), 'GridD': ('Grid<Domain*>', GRIDD), 'OW': ('OutWriter', {}),
                  'Domain': ('Domain', dict(DOM, out_writers=VEC(STRUCT('OW')))), 'MSY': ('MaxwellSolverYee', MSY), 'Current': ('Current', dict(current=STRUCT('Grid3D')))})
    ex = m.exec()
    num = lambda k: k if isinstance(k, int) else z3.simplify(k).as_long()
    probes = root + 'probes[]'
    for f, v in (('.o_s', 0), ('.x_size', RD), ('.y_size', ZD), ('.x_real_size', RD), ('.y_real_size', ZD)):
        ex.pins[('smb', '.domains' + f)] = v
    vec_pin(ex, 'geometry', '.domains_amount', [RD, ZD])
    vec_pin(ex, 'geometry', '.cell_amount', [NR, NZ])
    ex.pins[(DD, '.species_p')] = NSP
    ex.fact(NSP >= 0)
    if root:
        ex.pins[('this', '.probes')] = NP
    ex.pins[(DD, '.geometry.cell_dims')] = 4

    def window(t):
        ex.fact(z3.And(t >= 0, t < 32768))
        return t
    ex.pins[(DD + '.geometry.cell_dims[]', '')] = lambda idx: window(CD[num(idx[-1])](zi(idx[0]), zi(idx[1])))
    ex.pins[(probes, '.dims')] = 4
    ex.pins[(probes + '.dims[]', '')] = lambda idx: window(DIM[num(idx[-1])](zi(idx[0])))
    ex.pins[(probes, '.shape')] = SHAPES.index(shape)

    def schedule(t):
        ex.fact(z3.And(t >= 1, t < 65536))
        return t
    ex.pins[(probes, '.schedule')] = lambda idx: schedule(SCHED(zi(idx[0])))
    for f in (RD >= 1, ZD >= 1, NR >= 1, NZ >= 1, NR < 32768, NZ < 32768, NP >= 1):
        ex.fact(f)
    vec_contracts(ex, m)
    for v, w in ((VS16, 2), (VU, 8), (VU4, 4)):
        for sy in m.inv.get(v + '::vector', []):
            d = m.dem[sy]
            ex.contracts[sy] = il_vec(w, 'i') if 'initializer_list' in d else copy_vec if f'({v} const&)' in d else empty_vec if d.endswith('::vector()') else None
            if ex.contracts[sy] is None:
                del ex.contracts[sy]
        for sy in m.inv.get(v + '::push_back', []):
            ex.contracts[sy] = push(w, 'i')
        for sy in m.inv.get(v + '::operator=', []):
            ex.contracts[sy] = ilassign(w) if 'initializer_list' in m.dem[sy] else assign
        for sy in m.inv.get(v + '::~vector', []):
            ex.contracts[sy] = noop
    for sy in m.inv.get(STRC + '::basic_string', []):
        if 'const&)' in m.dem[sy]:
            ex.contracts[sy] = hand_over
    every = list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items())

    def compare(ex, st, A):
        f, idx, leaf, _, res = ex.locate(A[0])
        if f.name != probes or res:
            raise Unsupported(f'comparison of {A}')
        if isinstance(A[1], GlobPtr):
            if leaf != '.component':
                raise Unsupported(f'comparison of {leaf} with a literal')
            return [(st, 0 if cstring(m, ex, A[1]) == comp else 1)]
        g, jdx, lf, _, res = ex.locate(A[1])
        if leaf != '.specie' or lf != '.name' or res or not g.name.startswith(DD + '.species_p') or len(jdx) != 3:
            raise Unsupported(f'comparison of names {A}')
        return [(st, z3.If(MATCH(zi(idx[-1]), zi(jdx[-1])), 0, 1))]
    for n, d in every:
        if n in ex.contracts:
            continue
        h = d.split('(')[0]
        if 'basic_string' in h and h.endswith('::compare'):
            ex.contracts[n] = compare
        elif h.startswith(OE) and h.endswith('::OutEngineHDF5') and 'HighFive' in d:
            ex.contracts[n] = rec('engine', obj=0, file=1, path=deref(2), size=lambda ex, st, A: get_vec(ex, st, A[3], 8, 'i'), off=lambda ex, st, A: get_vec(ex, st, A[4], 8, 'i'))
        elif h.startswith(OE):
            ex.contracts[n] = rec(h[len(OE):], obj=0, arg=lambda ex, st, A: A[1] if len(A) > 1 else None)
        elif h == 'OutWriter::OutWriter' and 'HighFive' in d:
            ex.contracts[n] = rec('writer', obj=0, file=1, path=deref(2), shape=3, pos=lambda ex, st, A: get_vec(ex, st, A[4], 2, 'i'), off=lambda ex, st, A: get_vec(ex, st, A[5], 8, 'i'), sched=6, time=9, val=10)
        elif h.startswith(VOW + '::push_back'):
            ex.contracts[n] = rec('push', vec=0, obj=1)
        elif 'stable_partition' in h:
            ex.contracts[n] = rec('partition', b=0, e=1)
        elif h.startswith('std::vector<probe') and h.endswith('operator='):
            ex.contracts[n] = assign
        elif h.startswith(('std::vector<probe', 'picojson::', 'msg::', 'OutWriter::~')) or 'basic_string' in h:
            ex.contracts[n] = noop
    return m, ex


def cstring(m, ex, p):
    v, ty = ex.global_init(p.name)
    if v[0] != 'str' or p.off or not v[1].endswith('\\00'):
        raise Unsupported('literal')
    return v[1][:-3]


def ilassign(w):
    h = il_vec(w, 'i')

    def f(ex, st, A):
        h(ex, st, A)
        return [(st, A[0])]
    return f


def controller(shape, comp):
    """OutController::OutController: which domains get a writer of a probe, of what window, of what grid, to what place"""
    def go(ctx):
        fn = OC + 'OutController'
        m, ex = ctl_setup(ctx, [fn], shape, comp)
        st = State()
        this = ex.new_local(st, 'controller', m.lay.size(STRUCT('OC')))
        meta = ex.new_local(st, 'metadata', 64)
        fs = [sy for sy in m.inv[fn] if m.dem[sy].endswith(', bool)')]
        ctx.funcs.add(fn)
        outs = ex.call_function(sorted(fs)[0], [this, ex.root('file', STRUCT('File')), ex.root('geometry', STRUCT('Geometry')), ex.root('time', STRUCT('TimeSim')), ex.root('probes', VEC(STRUCT('Probe'))),
                                                ex.root('smb', STRUCT('SMB')), meta, 0], st)
        p = ctx.p
        p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
        for o in rets(outs):
            check_controller(ctx, m, ex, o, this, shape, comp, fn)
    return go


def pathof(ex, q):
    """(field, index) of an element of a probe"""
    if not isinstance(q, Ptr) or q.fam is None or q.fam.name not in ('probes[]', 'this.probes[]'):
        return None, None
    f, idx, leaf, _, res = ex.locate(q)
    return leaf if not res else None, idx[-1]


PP, RR, ZZ, KK = z3.Ints('probe r z specie')


def preconditions(shape):
    """windows as the configuration makes them; cells of domains as the block makes them (C04)"""
    w, c = [f(PP) for f in DIM], [f(RR, ZZ) for f in CD]
    r = [PP >= 0, PP < NP, RR >= 0, RR < RD, ZZ >= 0, ZZ < ZD, c[0] < c[2], c[1] < c[3], c[2] <= NR, c[3] <= NZ]
    r += [z3.And(x >= 0, x < 32768) for x in w + c]
    r += {'rec': [w[0] < w[2], w[1] < w[3], w[2] <= NR, w[3] <= NZ], 'col': [w[0] == 0, w[1] == 0, w[2] == 0, w[3] < NZ], 'row': [w[0] == 0, w[1] == 0, w[3] == 0, w[2] < NR], 'dot': [w[0] == 0, w[1] == 0, w[2] < NR, w[3] < NZ]}[shape]
    return r


def extent(p, ex, E, fn, shape, g, l, pre):
    want = {'rec': [DIM[2](PP) - DIM[0](PP), DIM[3](PP) - DIM[1](PP)], 'col': [NR], 'row': [NZ], 'dot': [zi(1)]}[shape]
    got = g.meta['size']
    p.fact_true('axes of the dataset', fn, len(got) == len(want), str(got))
    for k, (x, y) in enumerate(zip(got, want)):
        p.eq(f'extent of the dataset along axis {k}', fn, toreal(z3.substitute(E(x), (l.k, PP))), toreal(y), pre, ex.facts)


def check_controller(ctx, m, ex, o, this, shape, comp, fn):
    p = ctx.p
    pc = pc_of(ex, o)
    E = lambda x: zi(x) if isinstance(x, int) else ex.expand(o.st, x)
    p.fact_true('frame: nothing but writers is added', fn, not written(o.st), str(written(o.st)))
    for f, w in (('geometry', 'geometry'), ('time', 'time'), ('smb', 'smb')):
        q = ex.load(o.st, this.add(m.lay.offset('OC', f)[0]), ir.PTR)
        p.fact_true(f'{f} is the one passed', fn, isinstance(q, Ptr) and q.fam.name == w, str(q))
    ops = [(n, e) for n, e in enumerate(o.st.log) if e.kind == 'op']
    pre = preconditions(shape) + pc
    pt = [(n, e) for n, e in ops if e.fam == 'partition']
    wr0 = [n for n, e in ops if e.fam == 'push']
    base = ex.load(o.st, this.add(m.lay.offset('OC', 'probes')[0]), ir.PTR), ex.load(o.st, this.add(m.lay.offset('OC', 'probes')[0] + 8), ir.PTR)
    p.fact_true('probes of density are moved behind all others before anything else is done with them', fn, len(pt) == 1 and pt[0][1].guard is True and not pt[0][1].loops and all(pt[0][0] < n for n in wr0) and
                same(pt[0][1].meta['b'], base[0]) and same(pt[0][1].meta['e'], base[1]), str((pt, base)), refuted=False)
    # datasets: one for every probe, with the extent of its window
    cr = [(n, e) for n, e in ops if e.fam == 'create_dataset']
    ok = len(cr) == 1 and len(cr[0][1].loops) == 1 and cr[0][1].guard is True
    p.fact_true('one dataset is created for every probe', fn, ok, str(cr), refuted=False)
    if ok:
        n, e = cr[0]
        l = e.loops[0]
        p.holds('a dataset is created for every probe', fn, z3.substitute(l.dom, (l.k, PP)), pre, ex.facts)
        g = [x for k, x in ops if k < n and x.fam == 'engine' and same(x.meta['obj'], e.meta['obj'])]
        p.fact_true('the dataset is of the probe', fn, len(g) >= 1 and len(g[-1].loops) == 1 and g[-1].loops[0].k.eq(l.k) and g[-1].guard is True, str(g), refuted=False)
        if g and len(g[-1].loops) == 1:
            extent(p, ex, E, fn, shape, g[-1], l, pre)
            lf, ix = pathof(ex, g[-1].meta['path'])
            p.fact_true('the dataset has the path of the probe', fn, lf == '.path', str(g[-1].meta['path']))
            if lf == '.path':
                p.holds('the dataset has the path of its own probe', fn, z3.substitute(E(ix), (l.k, PP)) == PP, pre, ex.facts)
    # writers
    w, c = [f(PP) for f in DIM], [f(RR, ZZ) for f in CD]
    mx, mn = lambda a, b: z3.If(a > b, a, b), lambda a, b: z3.If(a < b, a, b)
    lo, hi = [mx(w[0], c[0]), mx(w[1], c[1])], [mn(w[2], c[2]), mn(w[3], c[3])]
    inside = {'rec': z3.And(lo[0] < hi[0], lo[1] < hi[1]), 'col': z3.And(w[3] >= c[1], w[3] < c[3]), 'row': z3.And(w[2] >= c[0], w[2] < c[2]),
              'dot': z3.And(w[2] >= c[0], w[2] < c[2], w[3] >= c[1], w[3] < c[3])}[shape]
    # a domain that ends at the probe writes its copy first and the owner, which comes later in the order of writing, overwrites it
    before = {'rec': z3.BoolVal(False), 'col': w[3] == c[3], 'row': w[2] == c[2], 'dot': z3.And(w[2] >= c[0], w[3] >= c[1], z3.Or(z3.And(w[2] == c[2], w[3] <= c[3]), z3.And(w[2] < c[2], w[3] == c[3])))}[shape]
    mp = comp in MAPS
    name = [KK >= 0, KK < NSP, MATCH(PP, KK)] if mp else []
    pushes = [(n, e) for n, e in ops if e.fam == 'push']
    occ = []
    for n, e in pushes:
        wr = [x for k, x in ops if k < n and x.fam == 'writer' and same(x.meta['obj'], e.meta['obj'])]
        v = e.meta['vec']
        if not wr or len(e.loops) != 3 or not (isinstance(v, Ptr) and v.fam.name == DD and v.off == m.lay.offset('Domain', 'out_writers')[0]):
            raise Unsupported('writers of a domain')
        x = wr[-1]
        lf, ix = pathof(ex, x.meta['path'])
        if lf != '.path' or not all(a.k.eq(b.k) for a, b in zip(x.loops, e.loops)) or len(x.loops) != 3:
            raise Unsupported('path of a writer')
        free = {}
        atoms(e.guard, free) if e.guard is not True else None
        q = Op('push', '', [E(ix), E(v.idx[0]), E(v.idx[1])], None, e)
        at = [a for a in free.values() if z3.is_const(a) and str(a).startswith('at!')]
        sub = [(a, KK) for a in at]
        if len(at) > 1 or bool(at) != mp:
            raise Unsupported('choice of the specie')
        S_ = lambda t: z3.substitute(t, *sub) if sub else t
        # the loop variables, as functions of probe and domain
        ks = [l.k for l in e.loops]
        lin = [(zi(a), b) for a, b in zip(q.at, (PP, RR, ZZ))]
        if not all(a.eq(k) for (a, _), k in zip(lin, ks)):
            raise Unsupported('loops over probes and domains')
        at_here = lambda t: S_(z3.substitute(t, *zip(ks, (PP, RR, ZZ))))
        cond = at_here(z3.And(*[l.dom for l in e.loops], *([] if e.guard is True else [e.guard])))
        occ.append(cond)
        hy = pre + name + [cond]
        if not ex.feasible([]):
            pass
        M = x.meta
        tag = ''
        H = lambda nm, goal: p.holds(nm, fn, goal, hy, ex.facts)
        Q = lambda nm, a, b: p.eq(nm, fn, toreal(at_here(E(a))), toreal(b), hy, ex.facts)
        H('a writer belongs to a domain which the window reaches', z3.Or(inside, before))
        p.fact_true('window of a writer', fn, len(M['pos']) == 4)
        use = {'rec': {0: lo[0] - c[0], 1: lo[1] - c[1], 2: hi[0] - c[0], 3: hi[1] - c[1]}, 'col': {3: w[3] - c[1]}, 'row': {2: w[2] - c[0]}, 'dot': {2: w[2] - c[0], 3: w[3] - c[1]}}[shape]
        for k, want in use.items():
            Q(f'window of a writer, in cells of its domain: element {k}', M['pos'][k], want)
        off = {'rec': [lo[0] - w[0], lo[1] - w[1]], 'col': [c[0]], 'row': [c[1]], 'dot': []}[shape]
        if shape != 'dot':
            p.fact_true('axes of the place in the dataset', fn, len(M['off']) == len(off), str(M['off']))
        for k, want in enumerate(off):
            if k < len(M['off']):
                Q(f'place in the dataset along axis {k}', M['off'][k], want)
        Q('schedule of the writer is that of the probe', M['sched'], SCHED(PP))
        p.fact_true('shape of the writer is that of the probe', fn, M['shape'] == SHAPES.index(shape), str(M['shape']))
        p.fact_true('the writer follows the clock of the block', fn, isinstance(M['time'], Ptr) and M['time'].fam.name == 'time')
        p.fact_true('the writer writes to the file of the block', fn, isinstance(M['file'], Ptr) and M['file'].fam.name == 'file')
        val = M['val']
        if comp in FIELDS:
            obj, st_, f, k = FIELDS[comp]
            fam, off0 = f'{DD}.{obj}->', m.lay.offset(st_, f)[0] + m.lay.offset('Grid3D', ('r_component', 'phi_component', 'z_component')[k])[0]
            ix = (RR, ZZ)
        else:
            f, k = MAPS[comp]
            fam, off0 = f'{DD}.species_p[]->', m.lay.offset('SpecieP', f)[0] + (m.lay.offset('Grid3D', ('r_component', 'phi_component', 'z_component')[k])[0] if k is not None else 0)
            ix = (RR, ZZ, KK)
        okv = isinstance(val, Ptr) and val.fam is not None and val.fam.name == fam and val.off == off0 and len(val.idx) == len(ix)
        p.fact_true(f'the writer dumps the grid of {comp}', fn, okv, str(val))
        if okv:
            H(f'the writer dumps the grid of {comp} of its own domain', z3.And(*[at_here(E(a)) == b for a, b in zip(val.idx, ix)]))
    n = z3.Sum([z3.If(q, 1, 0) for q in occ] + [z3.IntVal(0)])
    p.holds('every domain that holds a part of the window gets exactly one writer', fn, n == 1, pre + name + [inside], ex.facts)
    p.holds('a domain gets no more than one writer of a probe', fn, n <= 1, pre + name, ex.facts)


CALC = {'density': 'density', 'temperature': 'temperature', 'energy': 'energy', 'momentum/r': 'momentum', 'momentum/phi': 'momentum', 'momentum/z': 'momentum'}
KIND = {'Grid<double>::overlay_' + k: k for k in ('x', 'y', 'xy', 'yx')}
PAIR = {'x': ((0, 0), (1, 0)), 'y': ((0, 0), (0, 1)), 'xy': ((0, 0), (1, 1)), 'yx': ((1, 0), (0, 1))}
TXT = {'x': 'radial neighbours', 'y': 'longitudinal neighbours', 'xy': 'diagonal neighbours', 'yx': 'neighbours across the other diagonal'}


def prepare(shape, comp):
    """OutController::init_datasets: what is prepared before the values are written"""
    def go(ctx):
        for table in (0, 1) if comp in ('E/r', 'density') else (0,):
            one_prepare(ctx, shape, comp, table)
    return go


def one_prepare(ctx, shape, comp, table):
    fn = OC + 'init_datasets'
    m, ex = ctl_setup(ctx, [fn] + list(KIND) + ['SpecieP::calc_*'], shape, comp, 'this.')
    ex.pins[('this', '.print_progress_table')] = table
    rnd = []
    round_contract(ex, rnd)
    for f in (K >= 0, K < 2 ** 31):
        ex.fact(f)
    for n, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        h = d.split('(')[0]
        if h.startswith('SpecieP::calc_'):
            ex.contracts[n] = rec('calc', what=lambda ex, st, A, h=h: h[len('SpecieP::calc_'):], obj=0)
        elif h in KIND:
            ex.contracts[n] = rec('overlay', kind=lambda ex, st, A, h=h: KIND[h], a=0, b=lambda ex, st, A: ex.load_local(st, A[1], ir.PTR) if A[1].fam.local else A[1])
    this = ex.root('this', STRUCT('OC'))
    outs = ex.call_function(m.sym(fn), [this])
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for x in rnd:
        p.eq('the number of the step is the current time divided by the step', fn, x, z3.Real('time.current') / z3.Real('time.step'), [z3.Real('time.step') > 0], ex.facts)
    for o in rets(outs):
        check_prepare(ctx, m, ex, o, this, shape, comp, fn)


def write_all(ctx):
    """OutController::operator(): everything is prepared, then every writer of every domain writes"""
    fn = OC + 'operator()'
    m, ex = ctl_setup(ctx, [fn, OC + 'init_datasets', 'OutWriter::operator()'], 'rec', 'E/r', 'this.')
    for n, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        h = d.split('(')[0]
        if h == OC + 'init_datasets':
            ex.contracts[n] = rec('prepare', obj=0)
        elif d.startswith('OutWriter::operator()'):
            ex.contracts[n] = rec('write', obj=0)
    this = ex.root('this', STRUCT('OC'))
    outs = ex.call_function(m.sym(fn), [this])
    p = ctx.p
    p.fact_true('returns', fn, bool(rets(outs)) and all(o.kind == 'ret' for o in outs), str([o.kind for o in outs]))
    for o in rets(outs):
        pc = pc_of(ex, o)
        E = lambda x: zi(x) if isinstance(x, int) else ex.expand(o.st, x)
        p.fact_true('frame: nothing else is written', fn, not written(o.st), str(written(o.st)))
        ops = [e for e in o.st.log if e.kind == 'op']
        pr, wr = [e for e in ops if e.fam == 'prepare'], [e for e in ops if e.fam == 'write']
        p.fact_true('everything is prepared once, before anything is written', fn, len(pr) == 1 and ops[0] is pr[0] and pr[0].guard is True and not pr[0].loops and same(pr[0].meta['obj'], this), str(ops))
        n = []
        for e in wr:
            v = e.meta['obj']
            if not (isinstance(v, Ptr) and v.fam.name == DD + '.out_writers[]') or len(e.loops) != 3:
                raise Unsupported(f'writer {v}')
            f, idx, leaf, _, res = ex.locate(v)
            p.fact_true('writers are run as a whole', fn, not res and leaf == '' or v.off is not None and not res, str(v))
            q = Op('write', '', [E(t) for t in idx], None, e)
            n.append(occurs(q, RR, ZZ, KK))
            p.fact_true('domains write in the order of rows and columns', fn, all(has_var(t, l.k) for t, l in zip(q.at, e.loops)) and all(z3.simplify(t - l.k).eq(z3.simplify(z3.substitute(t, (l.k, z3.IntVal(0))))) for t, l in zip(q.at, e.loops)), str(e), refuted=False)
        cnt = z3.Sum([z3.If(c, 1, 0) for c in n] + [z3.IntVal(0)])
        size = z3.Function(DD + '.out_writers.size', IS, IS, IS)
        p.holds('every writer of every domain writes exactly once', fn, cnt == z3.If(z3.And(RR >= 0, RR < RD, ZZ >= 0, ZZ < ZD, KK >= 0, KK < size(RR, ZZ)), 1, 0), pc, ex.facts)


def order(ctx):
    """The other maps recalculate the density of the specie without the exchange, so probes of density come after all others"""
    fn = OC + 'OutController'
    m, ex = ctl_setup(ctx, [fn, OC + 'OutController*'], 'rec', 'density')
    lam = [sy for sy in m.mod.funcs if m.dem.get(sy, '').startswith(fn) and '$_' in m.dem[sy] and 'operator()' in m.dem[sy]]
    p = ctx.p
    p.fact_true('one condition splits the probes', fn, len(lam) == 1, str(lam), refuted=False)
    for comp in (*FIELDS, *MAPS):
        m, ex = ctl_setup(ctx, [fn, OC + 'OutController*'], 'rec', comp)
        st = State()
        ex.pins[('a_probe', '.shape')] = 0
        for sy in lam:
            for n, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
                if 'basic_string' in d.split('(')[0] and d.split('(')[0].endswith('::compare'):
                    def cmp(ex, st, A):
                        return [(st, 0 if cstring(m, ex, A[1]) == comp else 1)]
                    ex.contracts[n] = cmp
            outs = ex.call_function(sy, [0, ex.root('a_probe', STRUCT('Probe'))])
            for o in rets(outs):
                v = o.val if not isinstance(o.val, int) else bool(o.val)
                p.holds(f'a probe of {comp} comes ' + ('last' if comp == 'density' else 'first'), fn, bool_of(v) if comp != 'density' else z3.Not(bool_of(v)), pc_of(ex, o), ex.facts)


def happens(e, idx, other=()):
    """condition that an operation on element idx of (domain r, domain z, specie) happens for probe, r, z, specie; a specie found by a search is the one of the probe (names are unique)"""
    g = [l.dom for l in e.loops] + ([] if e.guard is True else [e.guard])
    sub, eqs = [], []
    for l, X, x in [(e.loops[0], PP, None)] + [(None, X, x) for X, x in zip((RR, ZZ, KK), idx)]:
        x = l.k if x is None else z3.simplify(zi(x))
        ks = [q.k for q in e.loops if has_var(x, q.k)]
        if not ks:
            eqs.append(x == X)
            continue
        k = ks[0]
        c0 = z3.simplify(z3.substitute(x, (k, z3.IntVal(0))))
        if len(ks) != 1 or any(k.eq(a) for a, _ in sub) or not z3.is_int_value(c0) or not z3.simplify(x - c0).eq(k):
            raise Unsupported(f'element {x}')
        sub.append((k, X - c0))
    if len(sub) != len(e.loops):
        raise Unsupported('loop without effect on the element')
    free = {}
    for t in g + list(idx) + list(other):
        if isinstance(t, z3.ExprRef):
            atoms(t, free)
    sub += [(a, KK) for a in free.values() if z3.is_const(a) and str(a).startswith('at!')]
    return z3.And(*[z3.substitute(t, *sub) for t in g + eqs if t is not True]), [z3.substitute(zi(t), *sub) for t in other]


def check_prepare(ctx, m, ex, o, this, shape, comp, fn):
    p = ctx.p
    pc = pc_of(ex, o)
    E = lambda x: zi(x) if isinstance(x, int) else ex.expand(o.st, x)
    p.fact_true('frame: nothing else is written', fn, not written(o.st), str(written(o.st)))
    ops = [(n, e) for n, e in enumerate(o.st.log) if e.kind == 'op']
    due = K % SCHED(PP) == 0
    pre = preconditions(shape)[:2] + [SCHED(PP) >= 1] + [z3.And(f(PP) >= 0, f(PP) < 32768) for f in DIM] + ([DIM[0](PP) < DIM[2](PP), DIM[1](PP) < DIM[3](PP)] if shape == 'rec' else []) + pc
    xs = [(n, e) for n, e in ops if e.fam == 'extend_dataset']
    ok = len(xs) == 1 and len(xs[0][1].loops) == 1
    p.fact_true('the dataset of every probe is extended', fn, ok, str(xs), refuted=False)
    if ok:
        n, e = xs[0]
        l = e.loops[0]
        at = lambda t: z3.substitute(t, (l.k, PP))
        p.holds('the dataset of a probe is extended exactly when it is due', fn, at(z3.And(l.dom, *([] if e.guard is True else [e.guard]))) == due, pre, ex.facts)
        p.eq('the place of the slice is its number', fn, rmul(toreal(at(E(e.meta['arg']))), toreal(SCHED(PP))), toreal(K), pre + [due], ex.facts)
        g = [x for k, x in ops if k < n and x.fam == 'engine' and same(x.meta['obj'], e.meta['obj']) and (x.guard is True or ex.valid([] if e.guard is True else [e.guard], x.guard))]
        p.fact_true('the dataset is of the probe', fn, len(g) >= 1 and len(g[-1].loops) == 1 and g[-1].loops[0].k.eq(l.k), str(g), refuted=False)
        if g and len(g[-1].loops) == 1:
            extent(p, ex, E, fn, shape, g[-1], l, pre)
            lf, ix = pathof(ex, g[-1].meta['path'])
            p.fact_true('the dataset has the path of the probe', fn, lf == '.path', str(g[-1].meta['path']))
            if lf == '.path':
                p.holds('the dataset has the path of its own probe', fn, at(E(ix)) == PP, pre, ex.facts)
            p.fact_true('the dataset is in the file of the block', fn, isinstance(g[-1].meta['file'], Ptr) and g[-1].meta['file'].fam.name == 'file')
    dd = DD
    name = [KK >= 0, KK < NSP, MATCH(PP, KK), RR >= 0, RR < RD, ZZ >= 0, ZZ < ZD]
    calcs = [(n, e) for n, e in ops if e.fam == 'calc']
    overs = [(n, e) for n, e in ops if e.fam == 'overlay']
    want = CALC.get(comp)
    p.fact_true(f'what is prepared for {comp}', fn, {e.meta['what'] for _, e in calcs} == ({want} if want else set()), str(calcs))

    def place(e, ptr, fam):
        """(indices, condition of happening, existential symbols) of an operation, as functions of probe, domain and specie"""
        if not (isinstance(ptr, Ptr) and ptr.fam is not None and ptr.fam.name == fam and len(ptr.idx) == 3):
            raise Unsupported(f'what is prepared: {ptr}')
        return [E(q) for q in ptr.idx], ptr.off

    if want:
        # maps of species
        occ = []
        for n, e in calcs:
            if len(e.loops) not in (3, 4):
                raise Unsupported('preparation of maps')
            idx, off = place(e, e.meta['obj'], dd + '.species_p[]->')
            p.fact_true('maps of the specie itself are prepared', fn, off == 0, str(e.meta['obj']))
            occ.append((e, idx))
        cs = [happens(e, idx)[0] for e, idx in occ]
        n = z3.Sum([z3.If(c, 1, 0) for c in cs] + [z3.IntVal(0)])
        p.holds(f'the {want} of the specie of a probe which is due is prepared in every domain exactly once', fn, n == 1, pre + name + [due], ex.facts)
        p.holds(f'the {want} is prepared of the specie of a probe which is due only', fn, n == 0, pre + [z3.Not(due)], ex.facts)
        last = max([n for n, _ in calcs] + [-1])
        p.fact_true('maps are exchanged when all of them are prepared', fn, all(k > last and e.loops[0].k.eq(c.loops[0].k) and not e.loops[1].k.eq(c.loops[1].k) for k, e in overs for _, c in calcs), str(overs), refuted=False)
    # exchanges
    grids = {}
    for f, off in ((q, m.lay.offset('SpecieP', q)[0]) for q in ('density_map', 'temperature_map', 'energy_map')):
        grids[f] = [(off, f'{dd}.species_p[]->.{f}')]
    mo = m.lay.offset('SpecieP', 'momentum_map')[0]
    for c in ('r', 'phi', 'z'):
        grids['momentum_map ' + c] = [(mo + m.lay.offset('Grid3D', c + '_component')[0], f'{dd}.species_p[]->.momentum_map.{c}_component')]
    if comp == 'density':
        sel = {'x': [], 'y': [], 'xy': [], 'yx': []}
        for n, e in overs:
            ia, off = place(e, e.meta['a'], dd + '.species_p[]->')
            b = e.meta['b']
            if not isinstance(b, Ptr) or b.fam is None or len(b.idx) != 3:
                raise Unsupported(f'exchange with {b}')
            ib = [E(q) for q in b.idx]
            gb = b.fam.name
            p.fact_true('densities are exchanged with densities', fn, off == grids['density_map'][0][0] and gb == f'{dd}.species_p[]->.density_map.grid->', f'{e.meta}')
            k = e.meta['kind']
            (a0, a1), (b0, b1) = PAIR[k]
            sel[k].append((e, [ia[0] - a0, ia[1] - a1, ia[2]], ib, (b0, b1)))
        for k in sel:
            n = []
            for e, ia, ib, (b0, b1) in sel[k]:
                cs, sub = happens(e, ia, ib)
                n.append(cs)
                p.holds(f'exchange_{k} is between {TXT[k]} and one specie', fn, z3.And(sub[0] == RR + b0, sub[1] == ZZ + b1, sub[2] == KK), pre + name + [cs], ex.facts)
            cnt = z3.Sum([z3.If(c, 1, 0) for c in n] + [z3.IntVal(0)])
            need = z3.And(RR >= 0, ZZ >= 0, RR < RD - (1 if k != 'y' else 0), ZZ < ZD - (1 if k != 'x' else 0), due)
            p.holds(f'densities of every pair of {TXT[k]} are exchanged exactly once', fn, cnt == z3.If(need, 1, 0), pre + name, ex.facts)
    elif not want:
        p.fact_true('fields are not exchanged again', fn, not overs, str(overs))


def sections(tier):
    cs = [(s, c) for s in SHAPES for c in (*FIELDS, *MAPS) if tier == 'thorough' or s == 'rec' or c in ('E/r', 'H/phi', 'J/z', 'density', 'temperature')]
    ps = [(s, c) for s in SHAPES for c in ('E/r', *MAPS) if tier == 'thorough' or s == 'rec' or c == 'density']
    return [(f'writer {s}', writer(s)) for s in SHAPES] + [(f'engine {s}', engine(s)) for s in ('rec', 'vec', 'dot')] + [(f'dataset {s}', dataset(s)) for s in ('create', 'extend')] + \
        [(f'controller {s} {c}', controller(s, c)) for s, c in cs] + [(f'prepare {s} {c}', prepare(s, c)) for s, c in ps] + [('write', write_all), ('order', order)]


def natives(tier):
    return [Native('probes', 'c16.cpp', NSRC + ['src/outController.cpp', 'src/outWriter.cpp', 'src/outEngine/outEngineHDF5.cpp', 'src/msg.cpp'], config(), flags=['-fno-access-control', '-DVERIF_JSON_LENIENT', '-I' + VERIF + '/stubs_h5', '-I' + REPO], n=(300, 3000))]
