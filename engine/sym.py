"""Symbolic execution of extracted LLVM IR into verification conditions.

 * double is read as the mathematical reals, iN as the mathematical integers;
 * memory is a set of typed, pairwise separate object families (a heap shape is
   part of a function's precondition) plus a log of guarded, possibly
   quantified writes;
 * loops with a symbolic trip count are replaced by their inductive summary:
   "iteration k, for arbitrary k in the loop's domain, starting from the state
   in which no *other* iteration touched what it reads" -- the frame condition
   that makes the summary inductive is an obligation discharged for every loop;
 * calls to functions with a registered contract use the contract.
"""
import itertools
import z3
from fractions import Fraction
from ir import Unsupported, Ty
from terms import *

_cnt = itertools.count()


def fresh(prefix, sort='r'):
    n = f'{prefix}!{next(_cnt)}'
    return {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[sort](n)


# ------------------------------------------------------------------- shapes
class Sh:
    def __init__(self, k, a=None, b=None, **kw):
        self.k = k
        self.a = a
        self.b = b
        self.kw = kw


F64 = Sh('f64')
F32 = Sh('f32')


def INT(bits, unsigned=True):
    return Sh('int', bits, unsigned)


U16, U32, U64, I32, I64 = INT(16), INT(32), INT(64), INT(32, False), INT(64, False)
BOOL = INT(8)


def PTR(target, shared=None):
    return Sh('ptr', target, shared)


def STRUCT(name):
    return Sh('struct', name)


def VEC(elem):
    return Sh('vec', elem)


VECB = Sh('vecb')
STR = Sh('str')


def DYN(elem):
    return Sh('dyn', elem)


def ARR(elem, n):
    return Sh('arr', elem, n)


def VPTR(sym):
    return Sh('vptr', sym)


class Layout:
    """struct name -> (size, [(off, field, shape)]), from the layout probe"""

    def __init__(self, structs):
        self.s = structs

    def size(self, sh):
        k = sh.k
        if k in ('f64', 'ptr', 'vptr'):
            return 8
        if k == 'f32':
            return 4
        if k == 'int':
            return sh.a // 8
        if k == 'vec':
            return 24
        if k == 'vecb':
            return 40
        if k == 'str':
            return 32
        if k == 'struct':
            return self.s[sh.a][0]
        if k == 'arr':
            return self.size(sh.a) * sh.b
        raise Unsupported('shape size ' + k)

    def offset(self, struct, field):
        for o, f, sh in self.s[struct][1]:
            if f == field:
                return o, sh
        raise Unsupported(f'{struct}.{field}')

    def leaf(self, sh, off):
        """-> (pathname, shape, residual)"""
        if sh.k == 'struct':
            for o, f, s2 in self.s[sh.a][1]:
                if o <= off < o + self.size(s2):
                    p, l, r = self.leaf(s2, off - o)
                    return '.' + f + p, l, r
            return f'.+{off}', None, 0
        if sh.k == 'arr':
            es = self.size(sh.a)
            p, l, r = self.leaf(sh.a, off % es)
            return f'[{off // es}]' + p, l, r
        if sh.k == 'vec':
            return '', sh, off
        if sh.k == 'vecb':
            return '', sh, off
        return '', sh, off

    def leaves(self, sh, base=0):
        """all (off, size, shape) leaves, for memcpy"""
        if sh.k == 'struct':
            for o, f, s2 in self.s[sh.a][1]:
                yield from self.leaves(s2, base + o)
        elif sh.k == 'arr':
            es = self.size(sh.a)
            for i in range(sh.b):
                yield from self.leaves(sh.a, base + i * es)
        elif sh.k == 'vec':
            for i in range(3):
                yield (base + 8 * i, 8, sh)
        elif sh.k == 'vecb':
            for i, s in ((0, 8), (8, 4), (16, 8), (24, 4), (32, 8)):
                yield (base + i, s, sh)
        elif sh.k == 'str':
            return
        else:
            yield (base, self.size(sh), sh)


class Fam:
    __slots__ = ('name', 'shape', 'local', 'size')

    def __init__(self, name, shape, local=False, size=None):
        self.name = name
        self.shape = shape
        self.local = local
        self.size = size

    def __repr__(self):
        return 'Fam(' + self.name + ')'


class Ptr:
    __slots__ = ('fam', 'idx', 'off')

    def __init__(self, fam, idx, off):
        self.fam = fam
        self.idx = idx
        self.off = off

    def add(self, o):
        return Ptr(self.fam, self.idx, iadd(self.off, o))

    def __repr__(self):
        return f'&{self.fam.name if self.fam else None}{list(self.idx)}+{self.off}'


NULL = Ptr(None, (), 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class GlobPtr:
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name = name
        self.off = off


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Fork(Unsupported):
    """a value that needs a case split on a condition"""
    def __init__(self, c, why):
        super().__init__(why)
        self.c = c


class Hole:
    """value a search loop carries before anything is found; must not be used inside the loop"""
    def __repr__(self):
        return 'hole'


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ent:
    """memory log entry. kind: 'w' write, 'inc' accumulate, 'op' abstract call"""
    __slots__ = ('kind', 'fam', 'leaf', 'idx', 'val', 'guard', 'loops', 'meta')

    def __init__(self, kind, fam, leaf, idx, val, guard=True, loops=(), meta=None):
        self.kind = kind
        self.fam = fam
        self.leaf = leaf
        self.idx = idx
        self.val = val
        self.guard = guard
        self.loops = loops
        self.meta = meta or {}

    def __repr__(self):
        return f'<{self.kind} {self.fam}{self.leaf}{list(self.idx)} := {self.val} if {self.guard} loops {self.loops}>'


class LoopVar:
    __slots__ = ('k', 'dom', 'line', 'func', 'vals')

    def __init__(self, k, dom, line=None, func=None, vals=None):
        self.k = k
        self.dom = dom
        self.line = line
        self.func = func
        self.vals = vals

    def __repr__(self):
        return f'{self.k}:{self.dom}'


class Frame:
    __slots__ = ('f', 'blk', 'i', 'env', 'prev', 'res', 'iters')

    def __init__(self, f, blk):
        self.f = f
        self.blk = blk
        self.i = 0
        self.env = {}
        self.prev = None
        self.res = None
        self.iters = {}

    def copy(self):
        n = Frame(self.f, self.blk)
        n.i = self.i
        n.env = dict(self.env)
        n.prev = self.prev
        n.res = self.res
        n.iters = dict(self.iters)
        return n


class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.log = []
        self.loc = {}      # local object contents: fam name -> {off: (size, val)}
        self.lds = {}      # Ld symbol id -> (sym, key, idx, logpos)
        self.reads = []    # (key, idx, pc snapshot length, sym or None)
        self.trk = []      # loop trackers for locals
        self.fatals = []   # (cond list, loops)
        self.ghost = {}

    def copy(self):
        n = State()
        n.frames = [f.copy() for f in self.frames]
        n.pc = list(self.pc)
        n.log = list(self.log)
        n.loc = {k: dict(v) for k, v in self.loc.items()}
        n.lds = dict(self.lds)
        n.reads = list(self.reads)
        n.trk = [(set(a), set(b), c) for a, b, c in self.trk]
        n.fatals = list(self.fatals)
        n.ghost = dict(self.ghost)
        return n

    def path(self):
        return band(*self.pc)


class Out:
    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


def bool_of(v):
    if isinstance(v, (bool,)):
        return v
    if isinstance(v, int):
        return v != 0
    if z3.is_bool(v):
        return v
    return v != 0


class Exec:
    def __init__(self, mod, layout, opts=None):
        self.mod = mod
        self.lay = layout
        self.fams = {}
        self.facts = []            # axioms about created terms (z3 Bool)
        self.fact_ids = set()
        self.contracts = {}        # symbol -> handler(ex, st, args) -> [(st, ret)]
        self.hooks = {}            # (function symbol) -> loop handler
        self.pins = {}             # (fam name, leaf) -> value | callable(idx)
        self.lazy = set()          # family-name suffix predicates for lazy loads
        self.qtime = 0.0
        self.nq = 0
        self.opts = opts or {}
        self.max_steps = 400000
        self.steps = 0
        self.used_contracts = set()
        self.inlined = set()
        self.loop_obl = []
        self.plans = {}
        self.kstack = []
        self.exits = []        # counters of the loops being summarised
        self.sums = {}
        self.timeout = 1500
        self.forks = []
        self.max_unroll = 64
        self.pure = {}
        self.loop_count = 0

    # ----------------------------------------------------------- facts/solver
    def fact(self, f):
        if f is True:
            return
        i = f.get_id()
        if i not in self.fact_ids:
            self.fact_ids.add(i)
            self.facts.append(f)

    def solver(self, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        return s

    def relevant(self, fs):
        """facts sharing atoms (transitively) with fs -- keeps queries small"""
        return self.facts

    def check(self, conds, timeout=None):
        import time
        conds = [c for c in conds if c is not True]
        if any(c is False for c in conds):
            return z3.unsat
        s = self.solver(timeout)
        for f in self.facts:
            s.add(f)
        for c in conds:
            s.add(c)
        t = time.time()
        r = s.check()
        self.qtime += time.time() - t
        self.nq += 1
        return r

    def feasible(self, conds):
        return self.check(conds, 400) != z3.unsat

    def valid(self, pc, goal, timeout=None):
        if goal is True:
            return True
        return self.check(list(pc) + [bnot(goal)], timeout) == z3.unsat

    # ----------------------------------------------------------- objects
    def fam(self, name, shape):
        if name not in self.fams:
            self.fams[name] = Fam(name, shape)
        return self.fams[name]

    def root(self, name, shape):
        return Ptr(self.fam(name, shape), (), 0)

    def new_local(self, st, name, size):
        f = Fam(f'{name}#{next(_cnt)}', None, True, size)
        st.loc[f.name] = {}
        return Ptr(f, (), 0)

    def uf(self, name, idx, sort):
        if not idx:
            return {'r': z3.Real, 'i': z3.Int}[sort](name)
        S = z3.RealSort() if sort == 'r' else z3.IntSort()
        f = z3.Function(name, *([z3.IntSort()] * len(idx)), S)
        return f(*[to_z(i) for i in idx])

    def locate(self, p):
        """-> (fam, idx, leafname, shape, residual)"""
        fam = p.fam
        idx = tuple(p.idx)
        sh = fam.shape
        off = p.off
        if sh.k == 'dyn':
            es = self.lay.size(sh.a)
            c, d = lin(off)
            if any(v[0] % es for v in d.values()):
                raise Unsupported(f'unaligned index into {fam.name}: {off}')
            i = unlin(c // es, {k: (v[0] // es, v[1]) for k, v in d.items()})
            idx = idx + (i,)
            off = c % es
            sh = sh.a
        if not isinstance(off, int):
            raise Unsupported(f'symbolic offset into {fam.name}: {off}')
        leaf, lsh, res = self.lay.leaf(sh, off)
        return fam, idx, leaf, lsh, res

    def init_value(self, fam, idx, leaf, sh, res, ty):
        key = (fam.name, leaf)
        if sh is None:
            raise Unsupported(f'untyped field {fam.name}{leaf}')
        nm = fam.name + leaf
        if key in self.pins:
            v = self.pins[key]
            if callable(v):
                v = v(idx) if sh.k != 'vecb' else v(idx, res)
            if sh.k != 'vec' and not (sh.k == 'vecb' and isinstance(v, int)):
                return v
        if sh.k == 'f64':
            return self.uf(nm, idx, 'r')
        if sh.k == 'int':
            v = self.uf(nm, idx, 'i')
            if sh.b:
                self.fact(v >= 0)
            return v
        if sh.k == 'ptr':
            if sh.a is None:
                raise Unsupported(f'opaque pointer {nm}')
            if sh.b:
                return Ptr(self.fam(sh.b, sh.a), (), 0)
            return Ptr(self.fam(nm + '->', sh.a), idx, 0)
        if sh.k == 'vptr':
            return GlobPtr(sh.a, 16)
        if sh.k == 'vec':
            d = self.fam(nm + '[]', Sh('dyn', sh.a))
            if res == 0:
                return Ptr(d, idx, 0)
            n = self.pins.get((fam.name, leaf))
            if callable(n):
                n = n(idx)
            if n is None:
                n = self.uf(nm + '.size', idx, 'i')
                self.fact(n >= 0)
            return Ptr(d, idx, imul(self.lay.size(sh.a), n))
        if sh.k == 'vecb':
            if res == 0:
                return Ptr(self.fam(nm + '.bits', Sh('dyn', I64)), idx, 0)
            if res == 8:
                return 0
        raise Unsupported(f'initial value of {nm} ({sh.k})')

    def is_lazy(self, fam):
        s = fam.shape
        return s.k == 'dyn' and s.a.k in ('f64',)

    # ----------------------------------------------------------- loads/stores
    def load(self, st, p, ty):
        if isinstance(p, GlobPtr):
            return self.load_global(p, ty)
        if not isinstance(p, Ptr) or p.fam is None:
            raise Unsupported(f'load from {p}')
        if p.fam.local:
            return self.load_local(st, p, ty)
        fam, idx, leaf, sh, res = self.locate(p)
        key = (fam.name, leaf + (f'+{res}' if res else ''))
        pos = len(st.log)
        amb = False
        for e in reversed(st.log):
            pos -= 1
            if e.kind == 'op' or (e.fam, e.leaf) != key:
                continue
            if e.loops or e.kind == 'inc' or e.guard is not True:
                amb = True
                break
            q = [ieq(a, b) for a, b in zip(e.idx, idx)]
            if all(x is True for x in q):
                st.reads.append((key, idx, list(st.pc), None, pos))
                return e.val
            if any(x is False for x in q):
                continue
            amb = True
            break
        if not amb and (not self.is_lazy(fam) or (fam.name, leaf) in self.pins):
            if sh is not None and sh.k in ('f64', 'int'):
                st.reads.append((key, idx, list(st.pc), None, -1))
            v = self.init_value(fam, idx, leaf, sh, res, ty)
            return v
        if sh.k == 'f64':
            s = fresh('ld')
        elif sh.k == 'int':
            s = fresh('ldi', 'i')
        else:
            raise Unsupported('ambiguous pointer load ' + fam.name + leaf)
        st.lds[s.get_id()] = (s, key, idx, len(st.log), fam, leaf, sh, res)
        st.reads.append((key, idx, list(st.pc), s, -1))
        return s

    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr) or p.fam is None:
            raise Unsupported(f'store to {p}')
        if p.fam.local:
            return self.store_local(st, p, v, self.mod.size(ty))
        fam, idx, leaf, sh, res = self.locate(p)
        key = (fam.name, leaf + (f'+{res}' if res else ''))
        # read-modify-write of the form x += e
        if not is_c(v) and isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and v.num_args() == 2:
            for a, b, sg in ((0, 1, 1), (1, 0, 1)):
                if a == 1 and v.decl().kind() == z3.Z3_OP_SUB:
                    continue
                s = v.arg(a)
                if s.get_id() in st.lds:
                    _, k2, ix2, pos = st.lds[s.get_id()][:4]
                    if k2 == key and all(ieq(x, y) is True for x, y in zip(ix2, idx)):
                        clean = all(e.kind == 'op' or (e.fam, e.leaf) != key or any(ieq(x, y) is False for x, y in zip(e.idx, idx))
                                    for e in st.log[pos:])
                        o = v.arg(b)
                        if clean and not contains(o, {s.get_id()}):
                            if v.decl().kind() == z3.Z3_OP_SUB:
                                o = -o
                            st.log.append(Ent('inc', key[0], key[1], idx, o))
                            return
        st.log.append(Ent('w', key[0], key[1], idx, v))

    # local objects: byte-addressed with concrete offsets
    def load_local(self, st, p, ty):
        off = p.off
        if not isinstance(off, int):
            raise Unsupported(f'symbolic offset into local {p.fam.name}')
        c = st.loc.get(p.fam.name)
        if c is None:
            raise Unsupported('use of dead object ' + p.fam.name)
        size = self.mod.size(ty)
        for w, r, born in st.trk:
            if p.fam.name in born and (p.fam.name, off) not in w:
                r.add((p.fam.name, off))
        if off in c and c[off][0] == size:
            return self.coerce(c[off][1], ty)
        if off in c and c[off][0] > size and isinstance(c[off][1], int):
            return c[off][1] & ((1 << (8 * size)) - 1)
        # assemble from smaller int pieces / zero fill
        for o, (s, v) in c.items():
            if o <= off and off + size <= o + s and v == ('fill', 0):
                return self.zero(ty)
            if o <= off and off + size <= o + s and isinstance(v, tuple) and v[0] == 'fill':
                return self.undef(ty)
        for o, (s, v) in c.items():
            if o < off + size and off < o + s:
                raise Unsupported(f'partial overlap load in {p.fam.name} at {off}')
        return self.undef(ty)

    def coerce(self, v, ty):
        if isinstance(v, tuple) and v[0] == 'fill':
            return self.zero(ty) if v[1] == 0 else self.undef(ty)
        if ty.k == 'double':
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return Fraction(0)
                import struct
                return fp_val(struct.unpack('<d', (v & (2**64 - 1)).to_bytes(8, 'little'))[0])
        if ty.k == 'int' and ty.a > 1:
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Fraction):
                if v == 0:
                    return 0
                raise Unsupported('reinterpret double as int')
            if isinstance(v, z3.ExprRef) and z3.is_real(v):
                return v   # bit copy of a double through an integer register
        return v

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ('double', 'float'):
            return Fraction(0)
        if ty.k == 'int':
            return 0 if ty.a > 1 else False
        if ty.k == 'ptr':
            return NULL
        raise Unsupported('zero ' + ty.k)

    def undef(self, ty):
        if ty.k == 'double':
            return fresh('uninit')
        if ty.k == 'int':
            if ty.a == 1:
                return fresh('uninit', 'b')
            return fresh('uninit', 'i')
        return UNDEF

    def store_local(self, st, p, v, size):
        off = p.off
        if not isinstance(off, int):
            raise Unsupported(f'symbolic offset into local {p.fam.name}')
        c = st.loc.get(p.fam.name)
        if c is None:
            raise Unsupported('store to dead object')
        for w, r, born in st.trk:
            if p.fam.name in born:
                w.add((p.fam.name, off))
        for o in [o for o, (s, _) in c.items() if o < off + size and off < o + s and not (o == off and s == size)]:
            s, vv = c.pop(o)
            if isinstance(vv, tuple) and vv[0] == 'fill':
                if o < off:
                    c[o] = (off - o, vv)
                if o + s > off + size:
                    c[off + size] = (o + s - off - size, vv)
            elif o >= off and o + s <= off + size:
                pass
            else:
                if isinstance(vv, int):
                    raw = (vv & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
                    if o < off:
                        c[o] = (off - o, int.from_bytes(raw[:off - o], 'little'))
                    if o + s > off + size:
                        c[off + size] = (o + s - off - size, int.from_bytes(raw[off + size - o:], 'little'))
                # other partially clobbered values become unknown
        c[off] = (size, v)

    def load_global(self, p, ty):
        g = self.mod.globals.get(p.name)
        if g is None:
            raise Unsupported('global ' + p.name)
        v, t = self.global_init(p.name)
        return self.dig(v, t, p.off, ty)

    def global_init(self, name):
        from ir import P, tokenize
        g = self.mod.globals[name]
        if not isinstance(g, tuple):
            toks = tokenize(g)
            p = P(toks, self.mod)
            while p.peek() not in ('constant', 'global'):
                p.next()
                if p.peek() == '(':
                    p.skip_paren()
            isconst = p.next() == 'constant'
            ty = p.type()
            if p.peek() is None or p.peek() == ',':
                v = ('unsup', 'extern')
            else:
                v = p.value(ty)
            g = (v, ty, isconst)
            self.mod.globals[name] = g
        v, ty, isconst = g
        if not isconst and name not in self.opts.get('const_globals', ()):
            raise Unsupported('mutable global ' + name)
        return v, ty

    def dig(self, v, t, off, ty):
        t = self.mod.resolve(t)
        if v[0] == 'zero':
            return self.zero(ty)
        if t.k in ('array', 'struct', 'pstruct'):
            n = t.a[0] if t.k == 'array' else len(t.a)
            if v[0] == 'str':
                raise Unsupported('string constant')
            for i in range(n):
                o, et = self.mod.field(t, i)
                if o <= off < o + self.mod.size(et):
                    return self.dig(v[1][i][1], et, off - o, ty)
        if off == 0:
            return self.const(t, v)
        raise Unsupported('global offset')

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            raise Unsupported(f'memcpy of symbolic length {n}')
        if isinstance(s, GlobPtr):
            v, t = self.global_init(s.name)
            if not d.fam.local:
                raise Unsupported('memcpy global->typed')
            self.copy_global(st, d, v, t, s.off, n)
            return
        if s.fam.local:
            c = st.loc[s.fam.name]
            so = s.off
            if not isinstance(so, int):
                raise Unsupported('memcpy sym off')
            for w, r, born in st.trk:
                if s.fam.name in born:
                    for o in c:
                        if so <= o < so + n and (s.fam.name, o) not in w:
                            r.add((s.fam.name, o))
            items = sorted((o, sz, v) for o, (sz, v) in c.items() if o < so + n and so < o + sz)
            for o, sz, v in items:
                if isinstance(v, tuple) and v[0] == 'fill':
                    a = max(o, so)
                    b = min(o + sz, so + n)
                    o, sz = a, b - a
                elif o < so or o + sz > so + n:
                    raise Unsupported('memcpy splits a value')
                if d.fam.local:
                    self.store_local(st, d.add(o - so), v, sz)
                else:
                    self.store_typed(st, d.add(o - so), v, sz)
            return
        # typed source
        fam, idx, sh, base = self.typed_range(s)
        for off, sz, lsh in self.lay.leaves(sh):
            if base <= off and off + sz <= base + n:
                ty = self.leaf_ty(lsh, sz)
                try:
                    v = self.load(st, s.add(off - base), ty)
                except Unsupported:
                    continue
                if d.fam.local:
                    self.store_local(st, d.add(off - base), v, sz)
                else:
                    self.store_typed(st, d.add(off - base), v, sz)

    def leaf_ty(self, lsh, sz):
        if lsh.k == 'f64':
            return Ty('double')
        if lsh.k == 'int':
            return Ty('int', lsh.a)
        return Ty('ptr')

    def store_typed(self, st, p, v, sz):
        self.store(st, p, v, Ty('double'))

    def typed_range(self, s):
        sh = s.fam.shape
        off = s.off
        if sh.k == 'dyn':
            es = self.lay.size(sh.a)
            c, d = lin(off)
            off = c % es
            sh = sh.a
        if not isinstance(off, int):
            raise Unsupported('typed_range')
        return s.fam, s.idx, sh, off

    def copy_global(self, st, d, v, t, so, n):
        t = self.mod.resolve(t)

        def flat(v, t, base):
            t = self.mod.resolve(t)
            if t.k in ('array', 'struct', 'pstruct'):
                if v[0] == 'str':
                    return
                cnt = t.a[0] if t.k == 'array' else len(t.a)
                for i in range(cnt):
                    o, et = self.mod.field(t, i)
                    yield from flat(('zero',) if v[0] == 'zero' else v[1][i][1], et, base + o)
            else:
                yield base, self.mod.size(t), (self.zero(t) if v[0] == 'zero' else self.const(t, v))
        for o, sz, x in flat(v, t, 0):
            if so <= o < so + n:
                self.store_local(st, d.add(o - so), x, sz)

    # ----------------------------------------------------------- operands
    def const(self, ty, v):
        k = v[0]
        if k == 'c':
            x = v[1]
            if ty.k == 'int' and ty.a == 1:
                return bool(x)
            if ty.k == 'int' and x in (-1431655766, -86, -6148914691236517206, -21846):
                return fresh('uninit', 'i')
            return x
        if k == 'fp':
            x = fp_const(v[1])
            if isinstance(x, str):
                if x == 'nan':
                    return fresh('uninit')
                return fresh('inf')
            return x
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'g':
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return FnPtr(v[1])
            return GlobPtr(v[1])
        if k == 'cgep':
            b = self.const(Ty('ptr'), v[2][0][1])
            off = self.gep_off(v[1], [(t, self.const(t, o)) for t, o in v[2][1:]])
            if isinstance(b, GlobPtr):
                return GlobPtr(b.name, b.off + off)
            return b
        raise Unsupported('constant ' + k)

    def val(self, fr, ty, v):
        if v[0] == 'l':
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Unsupported('value ' + v[1] + ' not available')
        return self.const(ty, v)

    def gep_off(self, st, ops):
        t0, i0 = ops[0]
        off = imul(self.mod.size(st), i0)
        ty = st
        for t, i in ops[1:]:
            ty = self.mod.resolve(ty)
            if ty.k in ('struct', 'pstruct'):
                o, ty = self.mod.field(ty, i)
                off = iadd(off, o)
            else:
                es = self.mod.size(ty.a[1])
                off = iadd(off, imul(es, i))
                ty = ty.a[1]
        return off

    # ----------------------------------------------------------- running
    def call_function(self, name, args, st=None, pc=()):
        """symbolically execute function symbol on args; list of Out"""
        st = st or State()
        st.pc.extend(pc)
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('no body for ' + name)
        f.blocks
        fr = Frame(f, f.entry)
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames = [fr]
        return self.run(st, None)

    def run(self, st, stop):
        """stop: None or (depth, header, body) for a loop sub-execution"""
        outs = []
        work = [st]
        while work:
            s = work.pop()
            try:
                while True:
                    r = self.step(s, stop, work)
                    if self.forks:
                        for q, qs in self.forks:
                            if isinstance(q, Out):
                                self.pending(work, q)
                            elif q is None:
                                work.append(qs)
                        self.forks = []
                    if r is not None:
                        if isinstance(r, Out):
                            outs.append(r)
                        break
            except RecursionError:
                raise Unsupported('recursion')
        return outs

    def goto(self, s, target, stop):
        fr = s.frames[-1]
        d = len(s.frames)
        if stop and d == stop[0]:
            if target == stop[1]:
                fr.prev = fr.blk
                fr.blk = target
                return Out('latch', s)
            if target not in stop[2] and target not in fr.f.doomed:
                fr.prev = fr.blk
                fr.blk = target
                return Out('exit', s)
        fr.prev = fr.blk
        fr.blk = target
        fr.i = 0
        f = fr.f
        if target in f.loops:
            fromin = fr.prev in f.loops[target]
            n = fr.iters.get(target, 0) + 1 if fromin else 1
            fr.iters[target] = n
            if n > self.max_unroll:
                raise Unsupported(f'loop not summarised in {f.name} at {target}')
            return self.enter_loop(s, target, stop)
        return None

    def phis(self, s):
        fr = s.frames[-1]
        b = fr.f.blocks[fr.blk]
        vals = []
        i = 0
        while i < len(b.insts) and b.insts[i].op == 'phi':
            ins = b.insts[i]
            for v, p in ins.a:
                if p == fr.prev:
                    vals.append((ins.res, self.val(fr, ins.ty, v)))
                    break
            else:
                raise Unsupported('phi without incoming')
            i += 1
        for r, v in vals:
            fr.env[r] = v
        fr.i = i

    def step(self, s, stop, work):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        fr = s.frames[-1]
        b = fr.f.blocks[fr.blk]
        if fr.i == 0 and b.insts and b.insts[0].op == 'phi':
            self.phis(s)
        ins = b.insts[fr.i]
        op = ins.op
        if op == 'br':
            return self.goto(s, ins.a[0], stop)
        if op == 'condbr':
            c = self.val(fr, Ty('int', 1), ins.a[0])
            c = bool_of(c)
            if isinstance(c, bool):
                return self.goto(s, ins.a[1] if c else ins.a[2], stop)
            c = z3.simplify(c)
            if z3.is_true(c):
                return self.goto(s, ins.a[1], stop)
            if z3.is_false(c):
                return self.goto(s, ins.a[2], stop)
            t = self.feasible(s.pc + [c])
            e = self.feasible(s.pc + [bnot(c)])
            if t and e:
                s2 = s.copy()
                s2.pc.append(bnot(c))
                r = self.goto(s2, ins.a[2], stop)
                if isinstance(r, Out):
                    self.pending(work, r)
                elif r is None:
                    work.append(s2)
                s.pc.append(c)
                return self.goto(s, ins.a[1], stop)
            if t:
                return self.goto(s, ins.a[1], stop)
            if e:
                return self.goto(s, ins.a[2], stop)
            return 'dead'
        if op == 'switch':
            v = self.val(fr, ins.ty, ins.a[0])
            if isinstance(v, int):
                for c, l in ins.a[2]:
                    if c == v:
                        return self.goto(s, l, stop)
                return self.goto(s, ins.a[1], stop)
            rest = []
            for c, l in ins.a[2]:
                cond = v == c
                rest.append(bnot(cond))
                if self.feasible(s.pc + [cond]):
                    s2 = s.copy()
                    s2.pc.append(cond)
                    r = self.goto(s2, l, stop)
                    if isinstance(r, Out):
                        self.pending(work, r)
                    elif r is None:
                        work.append(s2)
            if self.feasible(s.pc + rest):
                s.pc.extend(rest)
                return self.goto(s, ins.a[1], stop)
            return 'dead'
        if op == 'ret':
            v = None if ins.a is None else self.val(fr, ins.ty, ins.a)
            s.frames.pop()
            if not s.frames:
                return Out('ret', s, v)
            if stop and len(s.frames) < stop[0]:
                raise Unsupported('return from inside a loop')
            up = s.frames[-1]
            if up.res:
                up.env[up.res] = v
            return None
        if op == 'unreachable':
            return Out('unreach', s)
        if op == 'call' or op == 'invoke':
            return self.do_call(s, ins, work, stop)
        try:
            v = self.eval(s, fr, ins)
        except Fork as e:
            # both cases repeat the instruction; where the condition decides nothing is left to split
            s2 = s.copy()
            s2.pc.append(bnot(e.c))
            s.pc.append(e.c)
            if self.feasible(s2.pc):
                work.append(s2)
            return None if self.feasible(s.pc) else 'dead'
        if ins.res:
            fr.env[ins.res] = v
        fr.i += 1
        return None

    def pending(self, work, out):
        # an Out produced for a forked state: wrap so that run() collects it
        class _S:
            pass
        work.append(_Done(out))

    def enter_loop(self, s, h, stop):
        """called when control reaches loop header h (phis not yet evaluated)"""
        fr = s.frames[-1]
        f = fr.f
        hook = self.hooks.get(f.name)
        if hook is not None:
            r = hook(self, s, h, stop)
            if r is not NotImplemented:
                return r
        b = f.blocks[h]
        t = b.insts[-1]
        if t.op != 'condbr':
            return None
        ins = [x in f.loops[h] for x in (t.a[1], t.a[2])]
        if all(ins) or not any(ins):
            return None
        # trial evaluation of the header on a copy: concrete -> plain execution
        c = s.copy()
        try:
            self.phis(c)
            cf = c.frames[-1]
            ok = True
            while cf.i < len(b.insts) - 1:
                i = b.insts[cf.i]
                if i.op in ('call', 'invoke'):
                    nm = i.a[0][1] if i.a[0][0] == 'g' else ''
                    w = []
                    r = self.do_call(c, i, w, None)
                    if w or r is not None or len(c.frames) != len(s.frames):
                        ok = False
                        break
                    continue
                v = self.eval(c, cf, i)
                if i.res:
                    cf.env[i.res] = v
                cf.i += 1
            if not ok:
                return None
            cond = bool_of(self.val(cf, Ty('int', 1), t.a[0]))
        except Unsupported:
            raise
        if not isinstance(cond, bool):
            cond = z3.simplify(cond)
            cond = True if z3.is_true(cond) else False if z3.is_false(cond) else cond
        if isinstance(cond, bool):
            return None
        if fr.prev in f.loops[h] and fr.iters.get(h, 0) < 1:
            return None
        return self.summarise(s, h, stop)

    def step_of(self, f, h, ins):
        """static step of header phi: ('int',c) / ('ptr',bytes) / ('inv',) / None"""
        body = f.loops[h]
        backs = [v for v, p in ins.a if p in body]
        defs = {}
        for bn in body:
            for i in f.blocks[bn].insts:
                if i.res:
                    defs[i.res] = i
        steps = set()
        for v in backs:
            if v == ('l', ins.res):
                steps.add(('inv',))
                continue
            if v[0] != 'l' or v[1] not in defs:
                return None
            d = defs[v[1]]
            if d.op in ('add', 'sub'):
                a, b = d.a
                if a == ('l', ins.res) and b[0] == 'c':
                    steps.add(('int', b[1] if d.op == 'add' else -b[1]))
                    continue
                if d.op == 'add' and b == ('l', ins.res) and a[0] == 'c':
                    steps.add(('int', a[1]))
                    continue
            if d.op == 'fadd' and d.a.count(('l', ins.res)) == 1:
                o = [x for x in d.a if x != ('l', ins.res)][0]
                if (o[0] != 'l' or o[1] not in defs) and self.counts(f, h, ins.res):
                    steps.add(('real', o))
                    continue
            if d.op == 'gep' and d.a[0][1] == ('l', ins.res) and all(o[1][0] == 'c' for o in d.a[1:]):
                steps.add(('ptr', self.gep_off(d.ty, [(t, o[1]) for t, o in d.a[1:]])))
                continue
            return None
        if len(steps) == 1:
            return steps.pop()
        return None

    def counts(self, f, h, res):
        """does the loop condition in header h depend on the value res?"""
        b = f.blocks[h]
        need = {b.insts[-1].a[0][1]} if b.insts[-1].a[0][0] == 'l' else set()
        for i in reversed(b.insts[:-1]):
            if i.res in need and i.op != 'phi':
                q = [i.a]
                while q:
                    x = q.pop()
                    if isinstance(x, (list, tuple)):
                        if len(x) == 2 and x[0] == 'l':
                            need.add(x[1])
                        else:
                            q += list(x)
        return res in need

    def summarise(self, s, h, stop):
        """one arbitrary iteration stands for all; counters that live in memory (captured by reference) are found by guess and check"""
        key = (s.frames[-1].f.name, h, len(s.frames))
        plan = {c: x for c, x in self.plans.get(key, {}).items() if c[1] in s.loc.get(c[0], {})}
        for attempt in range(5):
            nobl = len(self.loop_obl)
            r = self.summarise1(s, h, stop, plan)
            if not isinstance(r, _Retry):
                self.plans[key] = plan
                return r
            del self.loop_obl[nobl:]
            plan = r.plan
        raise Unsupported(f'loop-carried local in {s.frames[-1].f.name}')

    def summarise1(self, s, h, stop, plan):
        fr = s.frames[-1]
        f = fr.f
        body = f.loops[h]
        b = f.blocks[h]
        t = b.insts[-1]
        depth = len(s.frames)
        self.loop_count += 1
        k = fresh('k', 'i')
        # initial phi values
        s0 = s.copy()
        self.phis(s0)
        f0 = s0.frames[-1]
        nph = f0.i
        phs = b.insts[:nph]
        info = {}
        s1 = s0.copy()
        f1 = s1.frames[-1]
        s1.pc.append(k >= 0)
        s1.trk.append((set(), set(), frozenset(s1.loc)))
        for (nm, off), st_ in plan.items():
            sz, v0 = s0.loc[nm][off]
            s1.loc[nm][off] = (sz, self.havoc_like(s1, v0, sz) if st_[0] == 'havoc' else self.affine(v0, st_, k))
        accs = {}
        srch = {}
        hits = []
        search = any(p.ty.k == 'ptr' and self.step_of(f, h, p) is None for p in phs)
        for p in phs:
            st_ = self.step_of(f, h, p)
            v0 = f0.env[p.res]
            if st_ is None:
                if p.ty.k == 'double':
                    a = fresh('acc')
                    accs[p.res] = (a, v0)
                    f1.env[p.res] = a
                    continue
                if p.ty.k == 'ptr' or p.ty.k == 'int' and p.ty.a == 1:
                    srch[p.res] = f1.env[p.res] = Hole() if p.ty.k == 'ptr' else fresh('found', 'b')
                    continue
                if search and p.ty.k == 'int':
                    srch[p.res] = f1.env[p.res] = fresh('found', 'i')
                    continue
                a = fresh('accu', 'i') if p.ty.k == 'int' and p.ty.a > 1 else None
                if a is None:
                    raise Unsupported(f'loop-carried value {p.res} in {f.name}')
                accs[p.res] = (a, v0)
                f1.env[p.res] = a
                continue
            if st_[0] == 'real':
                st_ = ('real', self.val(f0, p.ty, st_[1]))
            info[p.res] = st_
            f1.env[p.res] = self.affine(v0, st_, k)
        cond, inb, outb = self.header_cond(s1, b, t, body)
        self._trip = None
        self._body = body
        nodom = None
        try:
            dom = self.domain(s1, b, t, cond, k, inb)
        except Unsupported as e:
            if plan:
                raise
            nodom = e
            dom = bool_of(cond)
        trip = self._trip
        lv = LoopVar(k, band(k >= 0, dom), ins_line(t), f.name,
                     {p.res: f1.env[p.res] for p in phs})
        # one arbitrary iteration
        sb = s1.copy()
        sb.pc.append(dom)
        logstart = len(sb.log)
        readstart = len(sb.reads)
        pc0 = len(sb.pc)
        outs = []
        if self.feasible(sb.pc):
            fb = sb.frames[-1]
            fb.i = len(b.insts) - 1
            sub = (depth, h, body)
            self.kstack.append(k)
            try:
                r = self.goto(sb, inb, sub)
                if self.forks:
                    raise Unsupported('fork at loop entry')
                if isinstance(r, Out):
                    outs.append(r)
                elif r is None:
                    outs = self.run(sb, sub)
            finally:
                self.kstack.pop()
        ents = []
        reads = []
        wl, rl = set(), set()
        fatal = []
        accn = {p: [] for p in accs}
        lds = {}
        for o in outs:
            g = band(*o.st.pc[pc0:])
            if o.kind == 'unreach' or o.kind == 'fatal':
                fatal.append((band(*o.st.pc[pc0:]), (lv,)))
                for c, lps in o.st.fatals[len(s.fatals):]:
                    fatal.append((band(g, c), (lv,) + lps))
                continue
            if o.kind == 'exit':
                raise Unsupported(f'data-dependent exit from loop in {f.name}')
            if o.kind != 'latch':
                raise Unsupported('loop outcome ' + o.kind)
            fo = o.st.frames[-1]
            new = {}
            for p in phs:
                nv = None
                for v, pb in p.a:
                    if pb == fo.prev:
                        nv = self.val(fo, p.ty, v)
                if p.res in srch and isinstance(nv, z3.ExprRef) and z3.is_bool(nv) and not nv.eq(srch[p.res]) and not isinstance(srch[p.res], Hole):
                    nv = True if self.valid(o.st.pc, nv) else False if self.valid(o.st.pc, z3.Not(nv)) else srch[p.res] if self.valid(o.st.pc, nv == srch[p.res]) else nv
                if p.res in srch and not (nv is srch[p.res] or isinstance(nv, z3.ExprRef) and isinstance(srch[p.res], z3.ExprRef) and nv.eq(srch[p.res])):
                    new[p.res] = nv
                if p.res in accs:
                    accn[p.res].append((g, nv))
            if new:
                if len(new) != len(srch):
                    raise Unsupported(f'loop-carried value in {f.name}')
                hits.append((g, new))
            for e in o.st.log[logstart:]:
                ents.append(Ent(e.kind, e.fam, e.leaf, e.idx, e.val, band(g, e.guard), (lv,) + e.loops, e.meta))
            for rd in o.st.reads[readstart:]:
                reads.append(rd + (g,) if len(rd) == 5 else rd)
            w, r_, _ = o.st.trk[-1]
            wl |= w
            rl |= r_
            for c, lps in o.st.fatals[len(s.fatals):]:
                fatal.append((band(g, c), (lv,) + lps))
            for i, x in o.st.lds.items():
                if i not in s.lds:
                    lds[i] = x
        latch = [o.st for o in outs if o.kind == 'latch']
        retry = dict(plan)
        for c in sorted((wl & rl) | set(plan)):
            nm, off = c
            if off not in s0.loc[nm]:
                raise Unsupported(f'loop-carried local {c} in {f.name}')
            sz, v0 = s0.loc[nm][off]
            new = [q.loc[nm].get(off) for q in latch]
            if any(x is None or x[0] != sz for x in new):
                raise Unsupported(f'loop-carried local {c} in {f.name}')
            if c not in plan:
                retry[c] = self.guess_step(v0, [x[1] for x in new])
            elif plan[c][0] != 'havoc':
                nx = self.affine(v0, plan[c], k + 1)
                for q, (_, v) in zip(latch, new):
                    same = isinstance(v, Ptr) == isinstance(nx, Ptr)
                    if same and isinstance(v, Ptr):
                        same = v.fam is nx.fam and len(v.idx) == len(nx.idx) and all(to_z(x).eq(to_z(y)) for x, y in zip(v.idx, nx.idx))
                        x, y = v.off, nx.off
                    else:
                        x, y = v, nx
                    if not same or not self.valid(q.pc, to_z(x) == to_z(y)):
                        retry[c] = ('havoc',)
                        break
        if retry != plan:
            return _Retry(retry)
        if nodom:
            raise nodom
        # drop reads whose only use is the read-modify-write they belong to
        used = {}
        for e in ents:
            for x in (e.val, e.guard) + tuple(e.idx):
                if isinstance(x, z3.ExprRef):
                    atoms(x, used)
            for x in (e.meta or {}).values():
                if isinstance(x, z3.ExprRef):
                    atoms(x, used)
        for p in accn.values():
            for g, v in p:
                atoms(g, used)
                atoms(v, used)
        for q in list(srch.values()) + [v for _, n in hits for v in n.values()]:
            if isinstance(q, Hole) or q is None:
                continue
            if isinstance(q, z3.ExprRef) and q.get_id() in used:
                raise Unsupported(f'loop-carried value in {f.name}')
        for g, n in hits:
            for x in [g] + [y for v in n.values() for y in ((v.off,) + tuple(v.idx) if isinstance(v, Ptr) and v.fam is not None else (v,))]:
                a = {}
                if isinstance(x, z3.ExprRef):
                    atoms(x, a)
                if any(i in o.st.lds for o in outs for i in a) or any(isinstance(q, z3.ExprRef) and q.get_id() in a for q in srch.values()):
                    raise Unsupported(f'search depends on memory in {f.name}')
        reads = [r for r in reads if r[3] is None or r[3].get_id() in used]
        reads = [r for r in reads if r[4] < logstart]
        self.loop_frame(s, f, lv, ents, reads, logstart, s1.pc)
        # continue after the loop
        s.log.extend(ents)
        s.lds.update(lds)
        s.reads.extend(r[:5] for r in reads)
        s.fatals.extend(fatal)
        for (w, r_, bn) in s.trk:
            w |= {x for x in wl if x[0] in bn}
            r_ |= {x for x in rl if x[0] in bn and x not in w}
        for nm, off in wl:
            if nm in s.loc and (nm, off) not in plan:
                s.loc[nm].pop(off, None)
        self.phis(s)
        fe = s.frames[-1]
        if trip is not None:
            kT = trip if self.valid(s.pc, trip >= 0) else z3.If(trip >= 0, trip, z3.IntVal(0))
            if z3.is_int_value(kT):
                kT = kT.as_long()
        else:
            kT = fresh('n', 'i')
            d = subst(dom, [(k, kT)])
            # kT exists because the loop ends: no restriction of the path
            ends = [kT >= 0, bnot(d), z3.Or(kT == 0, subst(dom, [(k, kT - 1)]))]
            s.pc.extend(ends)
            self.exits.append((kT, ends))
        for (nm, off), st_ in plan.items():
            sz, v0 = s0.loc[nm][off]
            s.loc[nm][off] = (sz, self.havoc_like(s, v0, sz) if st_[0] == 'havoc' else self.affine(v0, st_, kT))
        for p in phs:
            if p.res in accs or p.res in srch:      # nothing found: the initial value
                continue
            fe.env[p.res] = self.affine(f0.env[p.res], info[p.res], kT)
        for p, (a, v0) in accs.items():
            sym = fresh('sum') if z3.is_real(a) else fresh('last', 'i')
            self.sums[sym.get_id()] = (sym, a, v0, accn[p], lv)
            fe.env[p] = sym
        for g, n in hits:
            # found: the last iteration that met the condition
            kk = fresh('at', 'i')
            q = s.copy()
            q.pc += [kk >= 0, subst(dom, [(k, kk)])] + ([] if g is True else [subst(g, [(k, kk)])])
            if not self.feasible(q.pc):
                continue
            for r, v in n.items():
                q.frames[-1].env[r] = Ptr(v.fam, tuple(subst(x, [(k, kk)]) for x in v.idx), subst(v.off, [(k, kk)])) if isinstance(v, Ptr) and v.fam is not None else \
                    v if isinstance(v, (bool, int)) or not isinstance(v, z3.ExprRef) else subst(v, [(k, kk)])
            q.ghost['search'] = q.ghost.get('search', ()) + ((True, kk, lv),)
            _, _, ob = self.header_cond(q, b, t, body)
            q.frames[-1].i = len(b.insts) - 1
            self.forks.append((self.goto(q, ob, stop), q))
        if srch:
            s.ghost['search'] = s.ghost.get('search', ()) + ((False, [g for g, _ in hits], lv),)
        cond2, inb, outb = self.header_cond(s, b, t, body)
        fe.i = len(b.insts) - 1
        return self.goto(s, outb, stop)

    def havoc_like(self, st, v0, size):
        if isinstance(v0, bool) or (isinstance(v0, z3.ExprRef) and z3.is_bool(v0)):
            return fresh('any', 'b')
        if isinstance(v0, Fraction) or (isinstance(v0, z3.ExprRef) and z3.is_real(v0)):
            return fresh('any')
        if isinstance(v0, (int, z3.ExprRef)):
            return fresh('any', 'i')
        raise Unsupported('loop-carried pointer')

    def guess_step(self, v0, new):
        d = set()
        for v in new:
            if isinstance(v, Ptr) and isinstance(v0, Ptr) and v.fam is v0.fam:
                x, kind = isub(v.off, v0.off), 'ptr'
            elif isinstance(v, (Ptr, Undef)) or isinstance(v0, (Ptr, Undef, tuple)) or isinstance(v, tuple):
                raise Unsupported('loop-carried local')
            elif isinstance(v0, Fraction) or isinstance(v, Fraction) or isinstance(v, bool) or isinstance(v0, bool) or \
                    any(isinstance(q, z3.ExprRef) and not z3.is_int(q) for q in (v, v0)):
                return ('havoc',)
            else:
                x, kind = isub(v, v0), 'int'
            if isinstance(x, z3.ExprRef):
                x = z3.simplify(x)
                x = x.as_long() if z3.is_int_value(x) else None
            if x is None:
                if kind == 'ptr':
                    raise Unsupported('loop-carried pointer')
                return ('havoc',)
            d.add((kind, x))
        if len(d) == 1:
            return d.pop()
        if any(k_ == 'ptr' for k_, _ in d) or not d:
            raise Unsupported('loop-carried local')
        return ('havoc',)

    def while_loop(self, s, h, stop, spec):
        """unbounded loop verified against an invariant.
        spec.state(ex, s0, phis) -> chosen initial values (dict name -> term) found among phis / heap cells
        spec must provide:
          cells(ex, s, init)  -> [(fam, leaf, idx, name)] heap cells the loop may write
          vars(ex, s, init)   -> {phi: name}
          inv(ex, cur, skolem) -> formula, candidates(ex, old, new) for the preservation
        """
        fr = s.frames[-1]
        f = fr.f
        body = f.loops[h]
        depth = len(s.frames)
        s0 = s.copy()
        self.phis(s0)
        f0 = s0.frames[-1]
        b = f.blocks[h]
        phs = b.insts[:f0.i]
        init = {p.res: f0.env[p.res] for p in phs}
        plan = spec.begin(self, s0, init)         # -> dict(phi -> (name, fresh term)), heap [(fam, leaf, idx, name, fresh)]
        st = s0.copy()
        fe = st.frames[-1]
        for p in phs:
            fe.env[p.res] = plan['phi'].get(p.res, (None, None))[1]
            if fe.env[p.res] is None:
                if p.ty.k == 'double':
                    fe.env[p.res] = spec.skolem(self, 'any')
                else:
                    raise Unsupported(f'loop-carried value {p.res} in {f.name}')
        for fam, leaf, idx, nm, v in plan['heap']:
            st.log.append(Ent('w', fam, leaf, idx, v))
        mark = len(st.log)
        pc0 = len(st.pc)
        st.pc.extend(spec.assume(self, plan))
        outs = self.run(st, (depth, h, body))
        exits = []
        for o in outs:
            if o.kind == 'latch':
                fo = o.st.frames[-1]
                new = {}
                for p in phs:
                    if p.res in plan['phi']:
                        for v, pb in p.a:
                            if pb == fo.prev:
                                new[plan['phi'][p.res][0]] = self.val(fo, p.ty, v)
                known = {(x[0], x[1]) for x in plan['heap']}
                for e in o.st.log[mark:]:
                    if e.kind == 'op' or (e.fam, e.leaf) not in known or e.loops:
                        raise Unsupported(f'loop body writes {e.fam}{e.leaf} outside its frame')
                for fam, leaf, idx, nm, v in plan['heap']:
                    new[nm] = self.value_at(o.st, fam, leaf, idx)
                spec.preserve(self, plan, o.st, new, o.st.pc[pc0:])
            elif o.kind == 'exit':
                exits.append(o)
            elif o.kind in ('unreach', 'fatal'):
                raise Unsupported('fatal inside an invariant loop')
            else:
                raise Unsupported('loop outcome ' + o.kind)
        spec.done(self, plan, [band(*o.st.pc[pc0:]) for o in exits])
        first = 'dead'
        for n, o in enumerate(exits):
            fo = o.st.frames[-1]
            tgt, fo.blk = fo.blk, fo.prev
            # leave the loop: everything assumed about the loop state is recorded by spec.done, keep it on the path
            r = self.goto(o.st, tgt, stop)
            self.forks.append((r, o.st))
        return 'dead'

    def affine(self, v0, st_, k):
        if st_[0] == 'inv':
            return v0
        if isinstance(v0, Ptr):
            return v0.add(imul(st_[1], k))
        if st_[0] == 'int':
            return iadd(v0, imul(st_[1], k))
        if st_[0] == 'real':
            return radd(v0, rmul(st_[1], Fraction(k) if isinstance(k, int) else z3.ToReal(k)))
        raise Unsupported('affine')

    def header_cond(self, s, b, t, body):
        fr = s.frames[-1]
        while fr.i < len(b.insts) - 1:
            i = b.insts[fr.i]
            if i.op in ('call', 'invoke'):
                w = []
                d = len(s.frames)
                r = self.do_call(s, i, w, None)
                if w or r is not None or len(s.frames) != d:
                    raise Unsupported('call in loop header')
                continue
            v = self.eval(s, fr, i)
            if i.res:
                fr.env[i.res] = v
            fr.i += 1
        c = bool_of(self.val(fr, Ty('int', 1), t.a[0]))
        if t.a[1] in body:
            return c, t.a[1], t.a[2]
        return bnot(c), t.a[2], t.a[1]

    def domain(self, s, b, t, cond, k, inb):
        if cond is True or cond is False:
            raise Unsupported('constant loop condition')
        # "!=" tests: rewrite to k < T with T the exact trip count
        if t.a[0][0] == 'l':
            d = [i for i in b.insts if i.res == t.a[0][1]]
            if d and d[0].op == 'icmp' and d[0].a[0] in ('ne', 'eq'):
                fr = s.frames[-1]
                x = self.val(fr, d[0].ty, d[0].a[1])
                y = self.val(fr, d[0].ty, d[0].a[2])
                if isinstance(x, Ptr):
                    if x.fam is not y.fam:
                        raise Unsupported('pointer loop bound in another object')
                    x, y = x.off, y.off
                c0, ds = lin(isub(x, y))
                kk = ds.pop(k.get_id(), None)
                if kk is None:
                    raise Unsupported('loop bound')
                T = idiv_exact(unlin(c0, ds), -kk[0])
                if T is None:
                    raise Unsupported('loop bound divisibility')
                T = to_z(T)
                if not self.valid(s.pc, T >= 0):
                    raise Unsupported('loop bound sign')
                self._trip = T
                return k < T
            if d and d[0].op == 'icmp':
                fr = s.frames[-1]
                x = self.val(fr, d[0].ty, d[0].a[1])
                y = self.val(fr, d[0].ty, d[0].a[2])
                pr = d[0].a[0]
                if t.a[1] not in self._body:      # loop continues on the false edge
                    pr = {'gt': 'le', 'ge': 'lt', 'lt': 'ge', 'le': 'gt'}[pr[1:]]
                else:
                    pr = pr[1:]
                uns = d[0].a[0][0] == 'u'
                if isinstance(x, Ptr):
                    if x.fam is not y.fam:
                        raise Unsupported('pointer loop bound in another object')
                    x, y = x.off, y.off
                    uns = False
                if pr in ('gt', 'ge'):
                    x, y, pr = y, x, {'gt': 'lt', 'ge': 'le'}[pr]
                c0, ds = lin(isub(x, y))
                if pr == 'le':
                    c0 -= 1
                kk = ds.pop(k.get_id(), None)
                if kk is None or any(contains(v[1], {k.get_id()}) for v in ds.values()):
                    return cond
                m = kk[0]
                if m <= 0 or (uns and not (self.valid(s.pc, to_z(x) >= 0) and self.valid(s.pc, to_z(y) >= 0))):
                    return cond
                # c0 + ds + m*k < 0  <=>  k < ceil(-(c0+ds)/m)
                rest = imul(-1, unlin(c0, ds))
                if m == 1:
                    T = rest
                else:
                    T = idiv_exact(rest, m)
                    if T is None:
                        T = (to_z(rest) + (m - 1)) / m
                T = to_z(T)
                self._trip = T
                return k < T
        # compound condition: accept only if its negation is upward closed
        k2 = fresh('k', 'i')
        if self.valid(s.pc + [k2 >= 0, k2 < k, cond], subst(cond, [(k, k2)])):
            return cond
        raise Unsupported('loop condition shape')

    def loop_frame(self, s, f, lv, ents, reads, logstart, pc):
        """frame obligation: iteration k reads nothing another iteration wrote"""
        k = lv.k
        wr = {}
        for e in ents:
            if e.kind == 'op':
                continue
            wr.setdefault((e.fam, e.leaf), []).append(e)
        for r in reads:
            key, idx, rpc, sym = r[0], r[1], r[2], r[3]
            for e in wr.get(key, ()):
                if self.distinct_iter(lv, idx, rpc, e, pc, earlier=True):
                    continue
                raise Unsupported(f'loop-carried dependence through {key} in {f.name}')
        for key, es in wr.items():
            ws = [e for e in es if e.kind == 'w']
            for a in ws:
                for e in es:
                    if not self.distinct_iter(lv, a.idx, [a.guard] + [x.dom for x in a.loops], e, pc, earlier=False):
                        a.meta = dict(a.meta, noninj=True)
                        e.meta = dict(e.meta, noninj=True)
        self.loop_obl.append((f.name, str(lv.k), len(reads), len(ents)))

    def distinct_iter(self, lv, idx, rpc, e, pc, earlier):
        k = lv.k
        k2 = fresh('k', 'i')
        ren = [(k, k2)]
        for l in e.loops[1:]:
            ren.append((l.k, fresh('k', 'i')))
        widx = [subst(to_z(i), ren) for i in e.idx]
        # fast syntactic case
        for a, w in zip(idx, widx):
            a = to_z(a)
            ca, da = lin(a)
            cw, dw = lin(w)
            if ca == cw and k.get_id() in da and k2.get_id() in dw and da[k.get_id()][0] == dw[k2.get_id()][0]:
                da = dict(da)
                dw = dict(dw)
                da.pop(k.get_id())
                dw.pop(k2.get_id())
                if {i: v[0] for i, v in da.items()} == {i: v[0] for i, v in dw.items()}:
                    return True
        conds = [lv.dom, subst(lv.dom, ren), (k2 < k) if earlier else (k2 != k)]
        for l in e.loops[1:]:
            conds.append(subst(l.dom, ren))
        conds += [c for c in pc]
        g = subst(e.guard, ren) if e.guard is not True else True
        conds.append(g)
        conds += [c for c in rpc if c is not True]
        conds += [to_z(a) == w for a, w in zip(idx, widx)]
        return self.check(conds, 4000) == z3.unsat

    # ----------------------------------------------------------- resolution
    def solve_loops(self, e, idx, st=None, own=(), depth=0):
        """entry e hits cell idx iff returned cond; pairs = loop substitution.
        own: loops the reader itself sits in (same iteration, not re-solved)"""
        loops = [l for l in e.loops if l.k.get_id() not in own]
        guard, eidx = e.guard, e.idx
        doms = [l.dom for l in loops]
        if st is not None:
            mine = frozenset(l.k.get_id() for l in e.loops)
            X = lambda x: x if is_c(x) or isinstance(x, bool) else self.expand(st, x, depth + 1, mine)
            guard, eidx, doms = X(guard), [X(x) for x in eidx], [X(x) for x in doms]
        eqs = [(to_z(a), to_z(b)) for a, b in zip(eidx, idx)]
        pairs = []
        pend = [l for l in loops]
        conds = []
        progress = True
        while pend and progress:
            progress = False
            for l in list(pend):
                for n, (a, bb) in enumerate(eqs):
                    c, d = lin(a)
                    kk = d.get(l.k.get_id())
                    if kk is None:
                        continue
                    others = {i: v for i, v in d.items() if i != l.k.get_id()}
                    if any(p.k.get_id() in others for p in pend):
                        continue
                    rest = isub(bb, unlin(c, others))
                    if kk[0] in (1, -1):
                        sol = imul(kk[0], rest)
                        if not isinstance(sol, int) and contains(sol, {l.k.get_id()}):
                            continue
                    else:
                        q = idiv_exact(rest, kk[0])
                        if q is not None:
                            sol = q
                        else:
                            sol = to_z(rest) / abs(kk[0])
                            if kk[0] < 0:
                                raise Unsupported('negative stride')
                            conds.append(to_z(rest) == kk[0] * sol)
                    sub = [(l.k, to_z(sol))]
                    pairs = [(x, subst(y, sub)) for x, y in pairs] + sub
                    eqs = [(subst(x, sub), y) for x, y in eqs]
                    pend.remove(l)
                    progress = True
                    break
        if pend:
            return None
        for d in doms:
            conds.append(self.substall(d, pairs))
        if guard is not True:
            conds.append(self.substall(guard, pairs))
        for a, bb in eqs:
            q = ieq(a, bb)
            if q is True:
                continue
            if q is False:
                return False, pairs
            conds.append(a == bb)
        return band(*conds), pairs

    def substall(self, x, pairs):
        for _ in range(len(pairs) + 1):
            y = subst(x, pairs)
            if is_c(y) or (not is_c(x) and y.get_id() == x.get_id()):
                return y
            x = y
        return x

    def value_at(self, st, fam, leaf, idx, pos=None, sh=F64, depth=0, own=()):
        """value of a cell after log[:pos], as an expanded term"""
        if depth > 60:
            raise Unsupported('resolution depth')
        pos = len(st.log) if pos is None else pos
        i = pos
        while i > 0:
            i -= 1
            e = st.log[i]
            if e.kind == 'op' or (e.fam, e.leaf) != (fam, leaf):
                continue
            r = self.solve_loops(e, idx, st, own, depth)
            if r is None or e.meta.get('noninj'):
                if r is not None and r[0] is False:
                    continue
                raise Unsupported(f'cannot resolve {fam}{leaf} through a non-injective loop')
            c, pairs = r
            if c is False:
                continue
            c = c if isinstance(c, bool) else z3.simplify(c)
            if not isinstance(c, bool):
                if z3.is_false(c):
                    continue
                if z3.is_true(c):
                    c = True
            v = self.expand(st, e.val, depth + 1, frozenset(l.k.get_id() for l in e.loops))
            v = self.substall(to_zr(v), pairs) if not is_c(v) else v
            if e.kind == 'inc':
                rest = self.value_at(st, fam, leaf, idx, i, sh, depth + 1, own)
                return radd(rest, ite(c, v, Fraction(0)))
            if c is True:
                return v
            rest = self.value_at(st, fam, leaf, idx, i, sh, depth + 1, own)
            return ite(c, v, rest)
        f = self.fams[fam]
        return self.init_value(f, tuple(idx), leaf, sh, 0, None)

    def expand(self, st, x, depth=0, own=()):
        """replace load symbols by the value they denote"""
        if is_c(x) or not isinstance(x, z3.ExprRef):
            return x
        at = atoms(x)
        pairs = []
        for i, a in at.items():
            if i in st.lds:
                sym, key, idx, pos, fam, leaf, sh, res = st.lds[i]
                idx = tuple(self.expand(st, ii, depth + 1, own) for ii in idx)
                v = self.value_at(st, key[0], key[1], idx, pos, sh, depth + 1, own)
                pairs.append((sym, R(v) if z3.is_real(sym) else to_z(v)))
        if pairs:
            x = z3.substitute(x, *pairs)
        return x


    # ----------------------------------------------------------- evaluation
    def eval(self, s, fr, ins):
        op = ins.op
        V = lambda ty, v: self.val(fr, ty, v)
        if op == 'unsup':
            raise Unsupported(f'{ins.text[:120]} ({ins.a})')
        if op == 'load':
            p = V(Ty('ptr'), ins.a)
            ty = self.mod.resolve(ins.ty)
            if ty.k in ('struct', 'array', 'pstruct'):
                raise Unsupported('aggregate load')
            if ty.k == 'vector':
                n, et = ty.a
                return Agg([self.load(s, p.add(i * self.mod.size(et)), et) for i in range(n)])
            v = self.load(s, p, ty)
            if ty.k == 'int' and ty.a == 1 and not isinstance(v, bool):
                v = bool_of(v)
            return v
        if op == 'store':
            v = V(ins.ty, ins.a[0])
            p = V(Ty('ptr'), ins.a[1])
            ty = self.mod.resolve(ins.ty)
            if ty.k == 'vector':
                n, et = ty.a
                if not isinstance(v, Agg):
                    raise Unsupported('vector store')
                for i in range(n):
                    self.store(s, p.add(i * self.mod.size(et)), v.v[i], et)
                return None
            if isinstance(v, Undef):
                v = UNDEF
            self.store(s, p, v, ty)
            return None
        if op == 'gep':
            b = V(Ty('ptr'), ins.a[0][1])
            off = self.gep_off(ins.ty, [(t, V(t, o)) for t, o in ins.a[1:]])
            if isinstance(b, GlobPtr):
                if not isinstance(off, int):
                    raise Unsupported('global gep')
                return GlobPtr(b.name, b.off + off)
            if not isinstance(b, Ptr):
                raise Unsupported(f'gep on {b}')
            return b.add(off)
        if op == 'alloca':
            if ins.a is not None and ins.a != ('c', 1):
                n = V(Ty('int', 64), ins.a)
                if not isinstance(n, int):
                    raise Unsupported('vla')
            return self.new_local(s, 'alloca', self.mod.size(ins.ty))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.int_op(s, op, ins, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if isinstance(a, Agg):
                f = {'fadd': radd, 'fsub': rsub, 'fmul': rmul, 'fdiv': self.fdiv}[op]
                return Agg([f(x, y) for x, y in zip(a.v, b.v)])
            if op == 'fadd':
                return radd(a, b)
            if op == 'fsub':
                return rsub(a, b)
            if op == 'fmul':
                return rmul(a, b)
            return self.fdiv(a, b)
        if op == 'fneg':
            return rneg(V(ins.ty, ins.a))
        if op == 'icmp':
            return self.icmp(s, ins, V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]))
        if op == 'fcmp':
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            p = ins.a[0]
            if p in ('true', 'false'):
                return p == 'true'
            if p == 'ord':
                return True
            if p == 'uno':
                return False
            q = p[1:]
            if is_c(a) and is_c(b):
                return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q]
            a, b = R(a), R(b)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q]
        if op == 'select':
            c = bool_of(V(Ty('int', 1), ins.a[0]))
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            if isinstance(c, bool):
                return a if c else b
            if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Hole) or isinstance(b, Hole):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.fam is not None and a.fam is b.fam and all(ieq(x, y) is True for x, y in zip(a.idx, b.idx)):
                    if ieq(a.off, b.off) is True:
                        return a
                    if a.fam.shape.k == 'dyn' or not (isinstance(a.off, int) and isinstance(b.off, int)):
                        return Ptr(a.fam, a.idx, ite(c, a.off, b.off))
                    # two members of one object: no term stands for both
                if self.valid(s.pc, c):
                    return a
                if self.valid(s.pc, bnot(c)):
                    return b
                raise Fork(c, 'select of pointers')
            return ite(c, a, b)
        if op in ('zext', 'sext', 'trunc'):
            sty, v = ins.a
            v = V(sty, v)
            return self.icast(s, op, sty, ins.ty, v)
        if op in ('sitofp', 'uitofp'):
            sty, v = ins.a
            v = V(sty, v)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return Fraction(v)
            if z3.is_bool(v):
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if op == 'uitofp':
                v = self.nonneg(s, v, sty.a)
            return z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            sty, v = ins.a
            v = V(sty, v)
            if is_c(v):
                v = Fraction(v)
                return int(v)
            return self.trunc(s, v)
        if op in ('fpext', 'fptrunc'):
            return V(ins.a[0], ins.a[1])
        if op == 'freeze':
            return V(ins.ty, ins.a)
        if op == 'bitcast':
            return V(ins.a[0], ins.a[1])
        if op == 'ptrtoint':
            return V(ins.a[0], ins.a[1])
        if op == 'inttoptr':
            return V(ins.a[0], ins.a[1])
        if op == 'extractvalue':
            v = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v.v[i]
            return v
        if op == 'insertvalue':
            v = V(ins.ty, ins.a[0]) if ins.a[0][0] != 'undef' else None
            n = len(self.mod.resolve(ins.ty).a)
            xs = list(v.v) if isinstance(v, Agg) else [UNDEF] * n
            if len(ins.a[3]) != 1:
                raise Unsupported('nested insertvalue')
            xs[ins.a[3][0]] = V(ins.a[1], ins.a[2])
            return Agg(xs)
        if op == 'insertelement':
            ty = self.mod.resolve(ins.ty)
            v0 = ins.a[0]
            if v0[0] in ('undef',):
                xs = [self.undef(ty.a[1]) for _ in range(ty.a[0])]
            elif v0[0] == 'zero':
                xs = [self.zero(ty.a[1]) for _ in range(ty.a[0])]
            elif v0[0] == 'agg':
                xs = [self.const(t, x) for t, x in v0[1]]
            else:
                xs = list(V(ins.ty, v0).v)
            i = V(Ty('int', 64), ins.a[2])
            xs[i] = V(ty.a[1], ins.a[1])
            return Agg(xs)
        if op == 'extractelement':
            v = V(ins.ty, ins.a[0])
            return v.v[V(Ty('int', 64), ins.a[1])]
        if op == 'phi':
            raise Unsupported('phi')
        raise Unsupported('op ' + op)

    def fdiv(self, a, b):
        r = rdiv(a, b)
        if r is None:
            return fresh('divzero')
        return r

    def trunc(self, s, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        t = z3.ToInt(v)
        if self.valid(s.pc, v >= 0, 300):
            return t
        return z3.If(v >= 0, t, -z3.ToInt(-v))

    def nonneg(self, s, v, bits):
        if isinstance(v, int):
            return v if v >= 0 else v + (1 << bits)
        if self.valid(s.pc, v >= 0, 500):
            return v
        return z3.If(v >= 0, v, v + (1 << bits))

    def icast(self, s, op, sty, dty, v):
        if isinstance(v, (Ptr, Undef)):
            return v
        if op == 'trunc':
            if dty.a == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_bool(v):
                    return v
                return v != 0 if not z3.is_app(v) else v != 0
            if isinstance(v, int) and not isinstance(v, bool):
                v &= (1 << dty.a) - 1
                if v >> (dty.a - 1):
                    v -= 1 << dty.a
                return v
            return v
        if isinstance(v, bool):
            return (1 if op == 'zext' else -1) if v else 0
        if isinstance(v, int):
            if op == 'zext' and v < 0:
                return v + (1 << sty.a)
            if op == 'sext' and v >= (1 << (sty.a - 1)):
                return v - (1 << sty.a)
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1 if op == 'zext' else -1), z3.IntVal(0))
        if op == 'zext':
            return self.nonneg(s, v, sty.a)
        return v

    def int_op(self, s, op, ins, a, b):
        ty = ins.ty
        if ty.k == 'vector':
            raise Unsupported('vector int op')
        if ty.a == 1:
            if op == 'xor':
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return z3.Xor(a, b)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.fam is None and b.fam is None:
                    return isub(a.off, b.off)
                if a.fam is b.fam:
                    return isub(a.off, b.off)
                raise Unsupported('difference of unrelated pointers')
            if op == 'add' and isinstance(a, Ptr):
                return a.add(b)
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.undef(ty)
        if isinstance(a, z3.ExprRef) and z3.is_real(a):
            raise Unsupported('integer op on double bits')
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        if op == 'shl' and isinstance(b, int):
            return imul(a, 1 << b)
        if op in ('ashr', 'lshr') and isinstance(b, int):
            q = idiv_exact(a, 1 << b)
            if q is not None:
                return q
            if isinstance(a, int):
                return a >> b
            return a / (1 << b)
        if op in ('sdiv', 'udiv'):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Unsupported('division by zero')
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if isinstance(b, int):
                q = idiv_exact(a, b)
                if q is not None:
                    return q
            if self.valid(s.pc, to_z(a) >= 0, 500) and self.valid(s.pc, to_z(b) > 0, 500):
                return to_z(a) / to_z(b)
            if isinstance(b, int) and b > 0:
                return z3.If(a >= 0, a / b, -((-a) / b))
            if self.valid(s.pc, to_z(b) > 0, 500):
                az = to_z(a)
                if op == 'udiv':
                    az = z3.If(az >= 0, az, az + (1 << ty.a))
                    return az / b
                return z3.If(az >= 0, az / b, -((-az) / b))
            raise Unsupported('integer division')
        if op in ('srem', 'urem'):
            if isinstance(a, int) and isinstance(b, int):
                return a - b * (abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1))
            if self.valid(s.pc, to_z(a) >= 0, 500) and self.valid(s.pc, to_z(b) > 0, 500):
                return to_z(a) % to_z(b)
            raise Unsupported('integer remainder')
        if isinstance(a, int) and isinstance(b, int):
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return a << b
            return a >> b
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == (1 << ty.a) - 1 or b == -1:
                    return a
                if b > 0 and (b & (b + 1)) == 0 and self.valid(s.pc, a >= 0, 500):
                    return a % (b + 1)
                if b > 0 and (b & (b - 1)) == 0 and self.valid(s.pc, a >= 0, 500):
                    return ((a / b) % 2) * b
            # booleans stored as integers
        if op in ('and', 'or', 'xor') and self.is01(a) and self.is01(b):
            x, y = self.as_b(a), self.as_b(b)
            r = band(x, y) if op == 'and' else bor(x, y) if op == 'or' else (z3.Xor(to_z(x), to_z(y)))
            return z3.If(r, z3.IntVal(1), z3.IntVal(0)) if not isinstance(r, bool) else int(r)
        if op == 'xor' and b == -1:
            return isub(-1, a)
        if op == 'or' and isinstance(b, int) and b == 0:
            return a
        raise Unsupported(f'integer {op} {a} {b}')

    def is01(self, a):
        if isinstance(a, int):
            return a in (0, 1)
        return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and all(
            z3.is_int_value(x) and x.as_long() in (0, 1) for x in (a.arg(1), a.arg(2)))

    def as_b(self, a):
        if isinstance(a, int):
            return bool(a)
        c = a.arg(0)
        return c if a.arg(1).as_long() == 1 else bnot(c)

    def icmp(self, s, ins, a, b):
        p = ins.a[0]
        if isinstance(a, (FnPtr, GlobPtr)) or isinstance(b, (FnPtr, GlobPtr)):
            same = type(a) is type(b) and a.name == b.name and getattr(a, 'off', 0) == getattr(b, 'off', 0)
            return same if p == 'eq' else not same
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.fam is not b.fam:
                if p == 'eq':
                    return False
                if p == 'ne':
                    return True
                raise Unsupported('pointer order')
            if len(a.idx) != len(b.idx):
                raise Unsupported('pointer compare')
            a, b = self._ptr_eq(a, b, p)
            if a is None:
                return b
        if isinstance(a, (Undef, Ptr)) or isinstance(b, (Undef, Ptr)):
            raise Unsupported('icmp on pointer/undef')
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)) or (isinstance(b, z3.ExprRef) and z3.is_bool(b)):
            a, b = bool_of(a), bool_of(b)
            if p == 'eq':
                return (a == b) if isinstance(a, bool) and isinstance(b, bool) else to_z(a) == to_z(b)
            if p == 'ne':
                return (a != b) if isinstance(a, bool) and isinstance(b, bool) else z3.Xor(to_z(a), to_z(b))
            raise Unsupported('bool order')
        # booleans materialised as integers
        if isinstance(b, int) and not isinstance(a, int) and self.is01(a) and p in ('eq', 'ne') and b in (0, 1):
            x = self.as_b(a)
            return x if (b == 1) == (p == 'eq') else bnot(x)
        if p[0] == 'u':
            bits = 64 if ins.ty.k == 'ptr' else ins.ty.a
            a, b = self.nonneg(s, a, bits), self.nonneg(s, b, bits)
        q = {'eq': 'eq', 'ne': 'ne', 'ugt': 'gt', 'uge': 'ge', 'ult': 'lt', 'ule': 'le',
             'sgt': 'gt', 'sge': 'ge', 'slt': 'lt', 'sle': 'le'}[p]
        d = isub(a, b)
        if isinstance(d, int):
            return {'eq': d == 0, 'ne': d != 0, 'gt': d > 0, 'ge': d >= 0, 'lt': d < 0, 'le': d <= 0}[q]
        a, b = to_z(a), to_z(b)
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q]

    def _ptr_eq(self, a, b, p):
        q = [ieq(x, y) for x, y in zip(a.idx, b.idx)]
        if all(x is True for x in q):
            return a.off, b.off
        if p not in ('eq', 'ne'):
            raise Unsupported('pointer order')
        c = band(*[to_z(x) == to_z(y) for x, y in zip(a.idx, b.idx)], to_z(a.off) == to_z(b.off)
                 if not (isinstance(a.off, int) and isinstance(b.off, int)) else a.off == b.off)
        if p == 'ne':
            c = bnot(c)
        return None, c

    # ----------------------------------------------------------- calls
    def do_call(self, s, ins, work, stop):
        fr = s.frames[-1]
        callee, args, nxt = ins.a
        if callee[0] == 'l':
            fp = fr.env.get(callee[1])
            if not isinstance(fp, FnPtr):
                raise Unsupported('indirect call')
            name = fp.name
        elif callee[0] == 'g':
            name = callee[1]
        else:
            raise Unsupported('callee')
        if name.startswith('@llvm.') and name.split('.')[1] in (
                'lifetime', 'dbg', 'invariant', 'assume', 'experimental', 'donothing', 'var'):
            fr.i += 1
            return None
        A = []
        for t, v in args:
            A.append(self.val(fr, t, v))

        def done(v):
            if ins.res:
                fr.env[ins.res] = v
            fr.i += 1
            if nxt:
                return self.goto(s, nxt, stop)
            return None
        if name in self.contracts:
            self.used_contracts.add(name)
            outs = self.contracts[name](self, s, A)
            first = True
            keep = None
            for st2, v in outs:
                f2 = st2.frames[-1]
                if ins.res:
                    f2.env[ins.res] = v
                f2.i += 1
                if st2 is s:
                    keep = s
                else:
                    work.append(st2)
            return None if keep is not None else 'moved'
        r = self.intrinsic(s, name, A, ins)
        if r is not NotImplemented:
            if isinstance(r, Out):
                return r
            return done(r)
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('call to external ' + name)
        if len(s.frames) > 40:
            raise Unsupported('call depth')
        f.blocks
        self.inlined.add(name)
        nf = Frame(f, f.entry)
        for (ty, nm), a in zip(f.params, A):
            nf.env[nm] = a
        fr.res = ins.res
        fr.i += 1
        s.frames.append(nf)
        return None

    def ended(self, g):
        """condition g with the existence of the end of each loop granted"""
        if g is True:
            return True
        return z3.simplify(z3.substitute(g, *[(c, z3.BoolVal(True)) for _, e in self.exits for c in e]))

    def sqrt(self, x):
        if is_c(x):
            x = Fraction(x)
            import math
            if x >= 0:
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return Fraction(n, d)
        x = R(x)
        f = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
        t = f(x)
        self.fact(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        return t

    def uf1(self, name, x):
        return z3.Function(name, z3.RealSort(), z3.RealSort())(R(x))

    def pow(self, x, y):
        if is_c(y):
            y = Fraction(y)
            if y.denominator == 1 and abs(y.numerator) <= 12:
                n = abs(y.numerator)
                r = Fraction(1)
                for _ in range(n):
                    r = rmul(r, x)
                return r if y >= 0 else self.fdiv(Fraction(1), r)
            if y.denominator == 2 and abs(y.numerator) <= 9:
                q = self.sqrt(x)
                n = abs(y.numerator)
                r = Fraction(1)
                for _ in range(n):
                    r = rmul(r, q)
                return r if y >= 0 else self.fdiv(Fraction(1), r)
        return z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(R(x), R(y))

    def intrinsic(self, s, name, A, ins):
        n = name[1:]
        if n in ('sqrt', 'llvm.sqrt.f64'):
            return self.sqrt(A[0])
        if n.startswith('llvm.sqrt.v') or n.startswith('llvm.x86.avx.sqrt'):
            return Agg([self.sqrt(x) for x in A[0].v])
        if n in ('pow', 'llvm.pow.f64'):
            return self.pow(A[0], A[1])
        if n.startswith('llvm.powi'):
            return self.pow(A[0], Fraction(A[1]))
        if n in ('floor', 'llvm.floor.f64'):
            if is_c(A[0]):
                return Fraction(Fraction(A[0]).__floor__())
            return z3.ToReal(z3.ToInt(A[0]))
        if n in ('ceil', 'llvm.ceil.f64'):
            if is_c(A[0]):
                return Fraction(Fraction(A[0]).__ceil__())
            return -z3.ToReal(z3.ToInt(-R(A[0])))
        if n in ('round', 'llvm.round.f64'):
            if is_c(A[0]):
                x = Fraction(A[0])
                return Fraction((x + Fraction(1, 2)).__floor__()) if x >= 0 else -Fraction((-x + Fraction(1, 2)).__floor__())
            h = R(Fraction(1, 2))
            return z3.If(A[0] >= 0, z3.ToReal(z3.ToInt(A[0] + h)), -z3.ToReal(z3.ToInt(h - A[0])))
        if n in ('fabs', 'llvm.fabs.f64'):
            if is_c(A[0]):
                return abs(Fraction(A[0]))
            return z3.If(A[0] >= 0, A[0], -A[0])
        if n.startswith('llvm.abs.') or n == 'abs':
            if isinstance(A[0], int):
                return abs(A[0])
            return z3.If(A[0] >= 0, A[0], -A[0])
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            return radd(rmul(A[0], A[1]), A[2])
        if n.startswith('llvm.is.fpclass'):
            m = A[1]
            # a real number is negative, zero or positive; NaN, infinities and subnormals do not occur
            neg, zero, pos = bool(m & 8), bool(m & 96), bool(m & 256)
            if m & 96 not in (0, 96):
                raise Unsupported('fpclass mask')
            if neg == zero == pos:
                return neg
            x = R(A[0])
            alt = ([x < 0] if neg else []) + ([x == 0] if zero else []) + ([x > 0] if pos else [])
            if is_c(A[0]):
                v = A[0]
                return (neg and v < 0) or (zero and v == 0) or (pos and v > 0)
            return z3.Or(*alt)
        if n in ('log', 'exp', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'cbrt', 'log10', 'log2', 'sinh', 'cosh',
                 'tanh', 'llvm.log.f64', 'llvm.exp.f64', 'llvm.sin.f64', 'llvm.cos.f64'):
            b = n.split('.')[1] if n.startswith('llvm') else n
            t = self.uf1(b, A[0])
            if b in ('sin', 'cos'):
                sn, cs = self.uf1('sin', A[0]), self.uf1('cos', A[0])
                self.fact(sn * sn + cs * cs == 1)
            return t
        if n in ('atan2',):
            return z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())(R(A[0]), R(A[1]))
        for k, f in (('minnum', '<'), ('maxnum', '>')):
            if n.startswith('llvm.' + k) or n == ('fmin' if k == 'minnum' else 'fmax'):
                a, b = A
                if is_c(a) and is_c(b):
                    return min(a, b) if f == '<' else max(a, b)
                return z3.If(R(a) < R(b) if f == '<' else R(a) > R(b), R(a), R(b))
        for k in ('smin', 'smax', 'umin', 'umax'):
            if n.startswith('llvm.' + k + '.'):
                a, b = A
                if isinstance(a, int) and isinstance(b, int):
                    return min(a, b) if k[1:] == 'min' else max(a, b)
                return z3.If(to_z(a) < to_z(b) if k[1:] == 'min' else to_z(a) > to_z(b), to_z(a), to_z(b))
        if n.startswith('llvm.expect'):
            return A[0]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.memcpy(s, A[0], A[1], A[2])
            return A[0] if not n.startswith('llvm') else None
        if n.startswith('llvm.memset') or n == 'memset':
            d, v, ln = A[:3]
            if not isinstance(ln, int) or not d.fam.local:
                raise Unsupported('memset')
            if ln:
                if not isinstance(v, int):
                    v = 0xAA
                self.store_local(s, d, ('fill', v & 255), ln)
            return A[0] if not n.startswith('llvm') else None
        if n in ('_Znwm', '_Znam', 'malloc'):
            sz = A[0]
            if isinstance(sz, int):
                return self.new_local(s, 'new', sz)
            return self.new_symbolic(s, sz)
        if n in ('_ZdlPvm', '_ZdaPv', '_ZdlPv', 'free', '_ZdaPvm'):
            return None
        if n == 'verif_fatal':
            return Out('fatal', s)
        if n in ('abort', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc',
                 '_ZSt28__throw_bad_array_new_lengthv', '__assert_fail'):
            return Out('fatal', s)
        if n.startswith('llvm.stacksave') or n.startswith('llvm.stackrestore'):
            return NULL
        if n.startswith('llvm.ctpop') or n.startswith('llvm.ctlz'):
            raise Unsupported(n)
        if n in ('llvm.trap',):
            return Out('fatal', s)
        if n.startswith('llvm.umul.with.overflow') or n.startswith('llvm.smul.with.overflow'):
            return Agg([imul(A[0], A[1]), False])
        if n.startswith('llvm.uadd.with.overflow') or n.startswith('llvm.sadd.with.overflow'):
            return Agg([iadd(A[0], A[1]), False])
        if n.startswith('llvm.objectsize'):
            return -1
        return NotImplemented

    def new_symbolic(self, s, sz):
        raise Unsupported('symbolic-size allocation')


class _Retry:
    def __init__(self, plan):
        self.plan = plan


class _Done:
    """placeholder in the work list for an already finished fork"""

    def __init__(self, out):
        self.out = out


_orig_step = Exec.step


def _step(self, s, stop, work):
    if isinstance(s, _Done):
        return s.out
    return _orig_step(self, s, stop, work)


Exec.step = _step


def to_zr(v):
    return v if isinstance(v, z3.ExprRef) else R(v)


def ins_line(t):
    return t.line
