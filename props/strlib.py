"""Assumed contracts of std::string and of the JSON reader: a string is an integer token (equal tokens = equal text), a JSON value is its path."""
from lib import *
from C04 import STRC
import ir

_LIT = {}
CAT = z3.Function('cat', z3.IntSort(), z3.IntSort(), z3.IntSort())
NUMSTR = z3.Function('to_string', z3.IntSort(), z3.IntSort())
STRKEEP = [STRC + '::' + q for q in ('basic_string*', '~basic_string', 'operator=', 'operator+=', 'append', 'assign', 'compare', 'c_str')] + ['std::operator==*', 'std::operator!=*', 'std::operator+*', 'std::__cxx11::to_string*']


def lit(s):
    return _LIT.setdefault(s, 1000003 + 1009 * len(_LIT))


def litname(n):
    for k, v in _LIT.items():
        if v == n:
            return k


def text(ex, p):
    v, ty = ex.global_init(p.name)
    if v[0] != 'str' or p.off or not v[1].endswith('\\00'):
        raise Unsupported('literal')
    return v[1][:-3]


def strname(fam, leaf):
    return z3.Function('text:' + fam + leaf, *[z3.IntSort()] * 1, z3.IntSort())


def tok(ex, st, p):
    if isinstance(p, GlobPtr):
        return lit(text(ex, p))
    if not isinstance(p, Ptr) or p.fam is None:
        raise Unsupported('string')
    if p.fam.local:
        return ex.load(st, p, ir.Ty('int', 64))
    f, idx, leaf, sh, res = ex.locate(p)
    nm = 'text:' + (f if isinstance(f, str) else f.name) + leaf
    return z3.Function(nm, *[z3.IntSort()] * len(idx), z3.IntSort())(*[q if z3.is_expr(q) else z3.IntVal(q) for q in idx]) if idx else z3.Int(nm)


def put(ex, st, p, t):
    if not p.fam.local:
        raise Unsupported('string written in place')
    ex.store_local(st, p, t, 8)


def iv(t):
    return z3.IntVal(t) if isinstance(t, int) else t


def cat(a, b):
    return CAT(iv(a), iv(b))


def flat(t):
    """parts of a concatenation; neighbouring literals joined"""
    if isinstance(t, int):
        return [litname(t) or t]
    t = z3.simplify(t) if z3.is_int_value(t) else t
    if z3.is_int_value(t):
        return [litname(t.as_long()) or t.as_long()]
    if z3.is_app(t) and t.decl().name() == 'cat':
        a, b = flat(t.arg(0)), flat(t.arg(1))
        if a and b and isinstance(a[-1], str) and isinstance(b[0], str):
            return a[:-1] + [a[-1] + b[0]] + b[1:]
        return a + b
    return [t]


def strings(ctx, m, ex):
    names = list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items())

    def noop(ex, st, A):
        return [(st, None)]

    def ret_this(f):
        def h(ex, st, A):
            put(ex, st, A[0], f(ex, st, A))
            return [(st, A[0])]
        return h

    def init(f):
        def h(ex, st, A):
            put(ex, st, A[0], f(ex, st, A))
            return [(st, None)]
        return h

    def eq(pos):
        def h(ex, st, A):
            a, b = tok(ex, st, A[0]), tok(ex, st, A[1])
            r = a == b
            if isinstance(r, bool):
                return [(st, int(r if pos else not r))]
            return [(st, r if pos else z3.Not(r))]
        return h

    def compare(ex, st, A):
        a, b = tok(ex, st, A[0]), tok(ex, st, A[1])
        if isinstance(a, int) and isinstance(b, int):
            return [(st, int(a != b))]
        return [(st, z3.If(iv(a) == iv(b), z3.IntVal(0), z3.IntVal(1)))]

    for sy, d in names:
        if not d.startswith(('std::__cxx11::basic_string<', 'std::__cxx11::to_string', 'std::operator', 'bool std::operator', 'std::__cxx11::basic_string')):
            continue
        if d.startswith(STRC + '::'):
            q = d[len(STRC) + 2:]
            arg1 = q[q.index('(') + 1:] if '(' in q else ''
            if q.startswith('~basic_string'):
                ex.contracts[sy] = noop
            elif q == 'basic_string()':
                ex.contracts[sy] = init(lambda ex, st, A: lit(''))
            elif q.startswith('basic_string') and ('char const*, std::allocator' in q or 'const&)' in q or '&&)' in q):
                ex.contracts[sy] = init(lambda ex, st, A: tok(ex, st, A[1]))
            elif q.startswith(('operator=(char const*)', 'assign(char const*)')) or q.startswith(('operator=(', 'assign(')) and q.endswith(('const&)', '&&)')):
                ex.contracts[sy] = ret_this(lambda ex, st, A: tok(ex, st, A[1]))
            elif q.startswith(('operator+=(', 'append(')) and q.endswith(('(char const*)', 'const&)', '&&)')):
                ex.contracts[sy] = ret_this(lambda ex, st, A: cat(tok(ex, st, A[0]), tok(ex, st, A[1])))
            elif q.startswith(('c_str()', 'data()')):
                ex.contracts[sy] = lambda ex, st, A: [(st, A[0])]
            elif q.startswith('compare('):
                ex.contracts[sy] = compare
        elif 'operator==' in d and 'basic_string' in d:
            ex.contracts[sy] = eq(True)
        elif 'operator!=' in d and 'basic_string' in d:
            ex.contracts[sy] = eq(False)
        elif 'to_string(' in d:
            def num(ex, st, A):
                put(ex, st, A[0], NUMSTR(iv(A[1])))
                return [(st, None)]
            ex.contracts[sy] = num
        elif 'operator+' in d and 'basic_string' in d:
            def plus(ex, st, A):
                put(ex, st, A[0], cat(tok(ex, st, A[1]), tok(ex, st, A[2])))
                return [(st, None)]
            ex.contracts[sy] = plus
    for sy, d in names:
        if d.split('(')[0].endswith('operator+<char, std::char_traits<char>, std::allocator<char>>') and sy not in ex.contracts:
            def plus2(ex, st, A):
                put(ex, st, A[0], cat(tok(ex, st, A[1]), tok(ex, st, A[2])))
                return [(st, None)]
            ex.contracts[sy] = plus2


KIND = {'double': ('=', F64), 'bool': ('?', BOOL)}


def copied(ex, st, p):
    """a local JSON value is the copy of another one (json_copies)"""
    return ex.load(st, p, ir.PTR) if isinstance(p, Ptr) and p.fam is not None and p.fam.local else p


def json_copies(ctx, m, ex):
    """copies of a JSON value or array read like their source (which is not changed meanwhile)"""
    def value(ex, st, A):
        ex.store(st, A[0], copied(ex, st, A[1]), ir.PTR)
        return [(st, None)]

    def array(ex, st, A):
        for o in (0, 8, 16):
            ex.store(st, A[0].add(o), ex.load(st, A[1].add(o), ir.PTR), ir.PTR)
        return [(st, None)]

    def gone(ex, st, A):
        return [(st, None)]
    vv = 'std::vector<picojson::value, std::allocator<picojson::value>>::'
    for sy, d in list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items()):
        if d.startswith('picojson::value::value(picojson::value const&'):
            ex.contracts[sy] = value
        elif d.startswith((vv + '~vector', 'picojson::value::~value')):
            ex.contracts[sy] = gone
        elif d.startswith(vv + 'vector(std::vector<'):
            ex.contracts[sy] = array


def at_path(ex, p, suffix, shape=None):
    if not isinstance(p, Ptr) or p.fam is None:
        raise Unsupported('JSON value')
    f, idx, leaf, sh, res = ex.locate(p)
    if not leaf.endswith('.kind') or not (isinstance(res, int) and res == 0):
        raise Unsupported('JSON value')
    return Ptr(ex.fam((f if isinstance(f, str) else f.name) + leaf[:-5] + suffix, shape or STRUCT('JValue')), idx, 0)


def json(ctx, m, ex):
    names = list(m.dem.items()) + list(ctx.work.demangle(sorted(m.mod.decls)).items())
    for sy, d in names:
        if 'picojson::' not in d:
            continue
        h = d.split('(')[0]
        if '::get<' in h:
            t = h[h.index('::get<') + 6:h.rindex('>')]
            if t in KIND:
                ex.contracts[sy] = (lambda s, sh: lambda ex, st, A: [(st, at_path(ex, copied(ex, st, A[0]), s, sh))])(*KIND[t])
            elif t == 'picojson::object':
                ex.contracts[sy] = lambda ex, st, A: [(st, A[0])]
            elif 'vector<picojson::value' in t:
                ex.contracts[sy] = lambda ex, st, A: [(st, at_path(ex, A[0], '/', VEC(STRUCT('JValue'))))]
            elif 'basic_string' in t:
                ex.contracts[sy] = lambda ex, st, A: [(st, at_path(ex, A[0], '$', STR))]
        elif h.endswith(('object::operator[]', 'object::at')):
            def sub(ex, st, A):
                if isinstance(A[1], GlobPtr):
                    k = text(ex, A[1])
                else:
                    k = litname(tok(ex, st, A[1])) if isinstance(tok(ex, st, A[1]), int) else None
                if k is None:
                    raise Unsupported('JSON key')
                return [(st, at_path(ex, A[0], '/' + k))]
            ex.contracts[sy] = sub
