"""Normal forms: z3 real terms -> exact multivariate rational functions.

Polynomials are dicts {packed monomial: int}; a monomial packs one 12-bit
exponent field per atom.  A rational function is (numerator, integer
denominator, {factor: exponent}); factors are primitive polynomials, kept
factored so that sums over common denominators do not blow up.
Denominators are assumed non-zero (recorded as an assumption in evidence)."""
import random
from fractions import Fraction
from math import gcd
import z3
from terms import *

W = 12
GB = 1 << (W - 1)


class TooBig(Exception):
    pass


class HasIte(Exception):
    def __init__(self, cond):
        self.cond = cond


LIMIT = 60000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m + n
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    if len(r) > LIMIT:
        raise TooBig()
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g or 1


class Norm:
    def __init__(self):
        self.ids = {}        # key -> atom number
        self.names = []      # atom number -> printable
        self.terms = []      # atom number -> z3 term
        self.sq = {}         # atom number -> rf of its square (sqrt atoms, or given relations)
        self.memo = {}
        self.keep = []       # keep z3 refs alive
        self.floor = None    # callback(rf) -> int rf or None
        self.unit = []       # atoms known to lie in [0,1)
        self.nat = set()
        self.apps = {}

    def atom(self, key, term=None):
        if key not in self.ids:
            self.ids[key] = len(self.names)
            self.names.append(str(key)[:80])
            self.terms.append(term)
        return self.ids[key]

    def mono(self, i, e=1):
        return {e << (W * i): 1}

    def exps(self, m):
        out = []
        i = 0
        while m:
            e = m & ((1 << W) - 1)
            if e:
                out.append((i, e))
            m >>= W
            i += 1
        return out

    # ---- rational functions
    def const(self, q):
        q = Fraction(q)
        return ({0: q.numerator} if q else {}, q.denominator, {})

    def from_poly(self, p):
        return (p, 1, {})

    def addrf(self, x, y, s=1):
        a, ca, fa = x
        b, cb, fb = y
        if not a:
            return (pscale(b, s), cb, fb)
        if not b:
            return x
        if fa == fb:
            F = fa
        else:
            F = dict(fa)
            for k, e in fb.items():
                F[k] = max(F.get(k, 0), e)
            for k, e in F.items():
                d = e - fa.get(k, 0)
                for _ in range(d):
                    a = pmul(a, dict(k))
                d = e - fb.get(k, 0)
                for _ in range(d):
                    b = pmul(b, dict(k))
        g = gcd(ca, cb)
        a = pscale(a, cb // g)
        b = pscale(b, s * (ca // g))
        n = padd(a, b)
        if not n:
            return ({}, 1, {})
        return (n, ca // g * cb, F)

    def mulrf(self, x, y):
        a, ca, fa = x
        b, cb, fb = y
        if not a or not b:
            return ({}, 1, {})
        a, fb = self.cancel(a, fb)
        b, fa = self.cancel(b, fa)
        n = pmul(a, b)
        F = dict(fa)
        for k, e in fb.items():
            F[k] = F.get(k, 0) + e
        return (n, ca * cb, F)

    def cancel(self, n, F):
        """cancel denominator factors that divide n (cheap cases)"""
        F2 = {}
        for k, e in F.items():
            while e:
                q = self.exdiv(n, dict(k), 40)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                F2[k] = e
        return n, F2

    def factors(self, p):
        """p -> (const int, {factor: exp}) monomial content split off"""
        g = content(p)
        ms = list(p)
        out = {}
        # monomial content
        common = None
        for m in ms:
            ex = dict(self.exps(m))
            if common is None:
                common = ex
            else:
                common = {i: min(e, ex.get(i, 0)) for i, e in common.items() if ex.get(i, 0)}
            if not common:
                break
        cm = 0
        for i, e in (common or {}).items():
            cm |= e << (W * i)
            out[frozenset({1 << (W * i): 1}.items())] = e
        lead = max(ms)
        if p[lead] < 0:
            g = -g
        q = {m - cm: c // g for m, c in p.items()}
        if q != {0: 1}:
            out[frozenset(q.items())] = 1
        return g, out

    def invrf(self, x):
        a, ca, fa = x
        if not a:
            raise ZeroDivisionError
        g, F = self.factors(a)
        n = {0: ca}
        if g < 0:
            n = {0: -ca}
            g = -g
        for k, e in fa.items():
            if k in F:
                m = min(F[k], e)
                F[k] -= m
                e -= m
                if not F[k]:
                    del F[k]
            for _ in range(e):
                n = pmul(n, dict(k))
        h = gcd(content(n), g)
        if h > 1:
            n = {m: c // h for m, c in n.items()}
            g //= h
        return (n, g, F)

    def exdiv(self, a, b, limit=None):
        """exact polynomial division a/b or None"""
        if not a:
            return {}
        if len(b) == 1:
            (mb, cb), = b.items()
            r = {}
            G = self.guard(max(max(a), mb))
            for m, c in a.items():
                if c % cb or ((m | G) - mb) & G != G:
                    return None
                r[m - mb] = c // cb
            return r
        if limit and len(a) > 400 * limit:
            return None
        lb = max(b)
        cb = b[lb]
        r = dict(a)
        q = {}
        G = self.guard(max(max(a), lb))
        steps = 0
        while r:
            steps += 1
            if steps > 3000:
                return None
            m = max(r)
            c = r[m]
            if c % cb or ((m | G) - lb) & G != G:
                return None
            dm = m - lb
            dc = c // cb
            q[dm] = dc
            for n, d in b.items():
                k = n + dm
                v = r.get(k, 0) - dc * d
                if v:
                    r[k] = v
                else:
                    del r[k]
        return q

    def guard(self, m):
        n = (m.bit_length() + W - 1) // W + 1
        g = 0
        for i in range(n):
            g |= GB << (W * i)
        return g

    def reduced(self, x):
        n, c, F = x
        n = self.redsq(n)
        if isinstance(n, tuple):
            n, extra = n
        n, F = self.cancel(n, F)
        g = gcd(content(n), c)
        if g > 1:
            n = {m: k // g for m, k in n.items()}
            c //= g
        return (n, c, F)

    def key(self, x):
        n, c, F = self.reduced(x)
        if not n:
            return ('0',)
        if F:
            # canonical over expanded denominator
            den = {0: 1}
            for k, e in F.items():
                for _ in range(e):
                    den = pmul(den, dict(k))
        else:
            den = {0: 1}
        return (frozenset(n.items()), c, frozenset(den.items()))

    def redsq(self, n):
        return n

    # ---- conversion
    def rf(self, t):
        if isinstance(t, bool):
            raise TypeError
        if is_c(t):
            return self.const(t)
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._rf(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _rf(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(t.as_long())
        d = t.decl()
        k = d.kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.addrf(r, self.rf(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.addrf(r, self.rf(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            a, c, F = self.rf(ch[0])
            return (pscale(a, -1), c, F)
        if k == z3.Z3_OP_MUL:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.mulrf(r, self.rf(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mulrf(self.rf(ch[0]), self.invrf(self.rf(ch[1])))
        if k == z3.Z3_OP_TO_REAL:
            return self.rf(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if e.denominator == 1 and abs(e) <= 12:
                b = self.rf(ch[0])
                if e < 0:
                    b = self.invrf(b)
                r = self.const(1)
                for _ in range(abs(e.numerator)):
                    r = self.mulrf(r, b)
                return r
        if k == z3.Z3_OP_ITE:
            raise HasIte(ch[0])
        if k == z3.Z3_OP_TO_INT:
            a = self.rf(ch[0])
            f = self.floor_rf(a)
            if f is not None:
                return f
            return self.from_poly(self.mono(self.atom(('floor', self.key(a)), t)))
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.from_poly(self.mono(self.atom(d.name(), t)))
            keys = []
            rfs = []
            for c in ch:
                x = self.rf(c)
                rfs.append(x)
                keys.append(self.key(x))
            kk = (d.name(),) + tuple(keys)
            if kk not in self.ids:
                # the same function applied to provably equal arguments is one atom
                for old in self.apps.setdefault((d.name(), len(ch)), []):
                    try:
                        same = all(self.zero(self.addrf(x, y, -1)) for x, y in zip(rfs, old[1]))
                    except TooBig:
                        same = False
                    if same:
                        self.ids[kk] = old[0]
                        break
            a = self.atom(kk, t)
            self.apps.setdefault((d.name(), len(ch)), []).append((a, rfs))
            if d.name() == 'sqrt' and a not in self.sq:
                self.sq[a] = rfs[0]
            return self.from_poly(self.mono(a))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            keys = tuple(self.key(self.rf(c)) for c in ch)
            return self.from_poly(self.mono(self.atom((str(k),) + keys, t)))
        raise TooBig('term ' + str(d))

    def floor_rf(self, x):
        """floor of integer-polynomial + atom in [0,1): the integer part"""
        n, c, F = self.reduced(x)
        if F or c != 1:
            return None
        ip = {}
        frac = 0
        for m, k in n.items():
            ex = self.exps(m)
            if all(i in self.nat or (self.terms[i] is not None and z3.is_int(self.terms[i])) for i, e in ex):
                ip[m] = k
            elif len(ex) == 1 and ex[0][1] == 1 and ex[0][0] in self.unit and k == 1:
                frac += 1
            else:
                return None
        if frac <= 1:
            return (ip, 1, {})
        return None

    # ---- zero test
    def zero(self, x):
        """is the rational function identically zero (mod square relations)?"""
        n = x[0]
        if not n:
            return True
        for a in sorted(self.sq, reverse=True):
            n = self.reduce_sq(n, a)
            if not n:
                return True
        return not n

    def reduce_sq(self, n, a):
        sh = W * a
        msk = (1 << W) - 1
        mx = 0
        for m in n:
            e = (m >> sh) & msk
            if e > mx:
                mx = e
        if mx < 2:
            return n
        N, c, F = self.sq[a]
        D = {0: c}
        for k, e in F.items():
            for _ in range(e):
                D = pmul(D, dict(k))
        H = mx // 2
        groups = {}
        for m, co in n.items():
            e = (m >> sh) & msk
            h = e // 2
            groups.setdefault(h, {})[m - ((2 * h) << sh)] = co
        Np = [{0: 1}]
        Dp = [{0: 1}]
        for _ in range(H):
            Np.append(pmul(Np[-1], N))
            Dp.append(pmul(Dp[-1], D))
        out = {}
        for h, g in groups.items():
            out = padd(out, pmul(g, pmul(Np[h], Dp[H - h])))
        return self.reduce_sq(out, a)

    def is_zero_term(self, t):
        return self.zero(self.rf(t))

    def show(self, x):
        n, c, F = x
        def pm(m):
            return '*'.join(self.names[i] + (f'^{e}' if e > 1 else '') for i, e in self.exps(m)) or '1'
        s = ' + '.join(f'{k}*{pm(m)}' for m, k in list(n.items())[:12])
        return s + (f' ... /{c}' if c != 1 else '') + (' / factors' if F else '')


# -------------------------------------------------------------- numeric eval
class NumEval:
    """evaluate z3 terms in floating point under a random interpretation"""

    def __init__(self, rng, env=None, ranges=None):
        self.rng = rng
        self.env = dict(env or {})
        self.ranges = ranges or {}
        self.uf = {}
        self.memo = {}

    def pick(self, name, isint):
        import math
        for pat, fn in self.ranges.items():
            if pat == name or (pat.endswith('*') and name.startswith(pat[:-1])):
                return fn(self.rng)
        if isint:
            return self.rng.randint(0, 9)
        if name == 'PI':
            return math.pi
        return self.rng.uniform(-2, 2) if self.rng.random() < .5 else self.rng.uniform(0.1, 2)

    def ev(self, t):
        import math
        if isinstance(t, bool):
            return t
        if is_c(t):
            return float(t) if isinstance(t, Fraction) else t
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self._ev(t)
        self.memo[i] = (t, r)
        return r

    def _ev(self, t):
        import math
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.numerator_as_long() / t.denominator_as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_ITE:
            return self.ev(t.arg(1)) if self.ev(t.arg(0)) else self.ev(t.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in t.children())
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in t.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(t.arg(0))) or self.ev(t.arg(1))
        ch = [self.ev(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(ch)
        if k == z3.Z3_OP_SUB:
            return ch[0] - sum(ch[1:])
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in ch:
                r = r * c
            return r
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        if k == z3.Z3_OP_IDIV:
            return ch[0] // ch[1]
        if k == z3.Z3_OP_MOD:
            return ch[0] % ch[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(ch[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(ch[0])
        if k == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        if k == z3.Z3_OP_NOT:
            return not ch[0]
        if k == z3.Z3_OP_XOR:
            return bool(ch[0]) != bool(ch[1])
        if k == z3.Z3_OP_EQ:
            if isinstance(ch[0], float) or isinstance(ch[1], float):
                return abs(ch[0] - ch[1]) <= 1e-9 * (abs(ch[0]) + abs(ch[1]))
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return ch[0] != ch[1]
        if k == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if k == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if k == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if k == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if k == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if not ch:
                if n not in self.env:
                    if z3.is_bool(t):
                        self.env[n] = self.rng.random() < .5
                    else:
                        self.env[n] = self.pick(n, z3.is_int(t))
                return self.env[n]
            if n == 'sqrt':
                return math.sqrt(ch[0])
            if n in ('sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'tanh') and len(ch) == 1:
                return getattr(math, n)(ch[0])
            if n == 'atan2':
                return math.atan2(*ch)
            if n == 'pow':
                return math.pow(*ch)
            key = (n,) + tuple(float('%.9g' % c) if isinstance(c, float) else c for c in ch)
            if key in self.env:
                return self.env[key]
            if key not in self.uf:
                if z3.is_bool(t):
                    self.uf[key] = self.rng.random() < .5
                else:
                    self.uf[key] = self.pick(n, z3.is_int(t))
            return self.uf[key]
        raise TooBig('eval ' + str(d))


class HiEval(NumEval):
    """the same evaluation at a given number of decimal digits (a candidate found in double precision is believed only if it survives)"""

    def __init__(self, env, uf, dps):
        import mpmath
        self.mp = mpmath.mp.clone()
        self.mp.dps = dps
        NumEval.__init__(self, random.Random(0), {k: self.up(v) for k, v in env.items()})
        self.uf = {k: self.up(v) for k, v in uf.items()}

    def up(self, v):
        return v if isinstance(v, (bool, int)) else self.mp.mpf(v)

    def pick(self, name, isint):
        raise TooBig('unseen symbol ' + name)

    def ev(self, t):
        if is_c(t) and not isinstance(t, bool):
            t = Fraction(t)
            return self.mp.mpf(t.numerator) / t.denominator
        return NumEval.ev(self, t)

    def _ev(self, t):
        mp = self.mp
        if z3.is_rational_value(t):
            return mp.mpf(t.numerator_as_long()) / t.denominator_as_long()
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_TO_REAL:
            return mp.mpf(self.ev(t.arg(0)))
        if k == z3.Z3_OP_TO_INT:
            return int(mp.floor(self.ev(t.arg(0))))
        if k == z3.Z3_OP_EQ:
            a, b = (self.ev(c) for c in t.children())
            if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, int) and isinstance(b, int)):
                return a == b
            return abs(a - b) <= mp.mpf(10) ** -9 * (abs(a) + abs(b))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            n = d.name()
            if n in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'tanh') and t.num_args() == 1:
                v = getattr(mp, n)(self.ev(t.arg(0)))
                if not isinstance(v, mp.mpf):
                    raise ValueError('complex')
                return v
            if n in ('pow', 'atan2'):
                v = mp.power(*(self.ev(c) for c in t.children())) if n == 'pow' else mp.atan2(*(self.ev(c) for c in t.children()))
                if not isinstance(v, mp.mpf):
                    raise ValueError('complex')
                return v
            ch = [self.ev(c) for c in t.children()]
            key = (n,) + tuple(c if isinstance(c, (bool, int)) else float('%.9g' % float(c)) for c in ch)
            if key in self.env:
                return self.env[key]
            if key not in self.uf:
                raise TooBig('unseen application')
            return self.uf[key]
        return NumEval._ev(self, t)
