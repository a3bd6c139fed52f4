"""Terms: z3 expressions, python ints / Fractions / bools for constants."""
import struct
from fractions import Fraction
import z3

PI = z3.Real('PI')          # the constant pi; only 3.1415 < PI < 3.1416 is assumed


def is_c(x):
    return isinstance(x, (int, Fraction, bool))


def to_z(x, sort=None):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.RealVal(x) if sort == 'r' else z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    if sort == 'r' and z3.is_int(x):
        return z3.ToReal(x)
    return x


def R(x):
    if isinstance(x, bool):
        raise TypeError
    return to_z(Fraction(x) if isinstance(x, int) else x, 'r')


def simplest(lo, hi):
    """simplest rational in [lo, hi], 0 < lo <= hi (Stern-Brocot / CF)"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_PIF = Fraction(314159265358979323846264338327950288419716939937510, 10 ** 50)


def fp_const(tok):
    """double literal -> exact real constant.

    A literal is read as the real number it denotes up to rounding: k*pi with a
    simple rational k, or else the simplest rational within one ulp.  (Constant
    folding in the front end would otherwise make algebraic identities fail in
    the sixteenth digit.)"""
    if tok.startswith('0x'):
        if tok[2] in 'KMLHR':
            raise ValueError(tok)
        v = struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    else:
        v = float(tok)
    return fp_val(v)


def fp_val(v):
    if v != v:
        return 'nan'
    if v in (float('inf'), float('-inf')):
        return 'inf' if v > 0 else '-inf'
    if v == 0:
        return Fraction(0)
    s = -1 if v < 0 else 1
    f = Fraction(abs(v))
    dec = repr(abs(v))
    if len(dec.split('e')[0].replace('.', '').strip('0')) <= 11:
        return s * Fraction(dec)          # the literal as written
    ulp = f * Fraction(3, 2 ** 53)
    r = simplest(f - ulp, f + ulp)
    if r.numerator.bit_length() + r.denominator.bit_length() > 30:
        q = f / _PIF
        rp = simplest(q - q * Fraction(3, 2 ** 53), q + q * Fraction(3, 2 ** 53))
        if rp.numerator.bit_length() + rp.denominator.bit_length() < 24:
            return s * rp * PI if rp * s != 1 else PI
    return s * r


# ------------------------------------------------------------------ integers
def lin(t):
    """integer term -> (const, {ast_id: (coef, term)}) or None"""
    if isinstance(t, int):
        return t, {}
    out = {}
    c = [0]

    def go(e, k):
        if z3.is_int_value(e):
            c[0] += k * e.as_long()
            return
        if z3.is_app(e):
            d = e.decl().kind()
            if d == z3.Z3_OP_ADD:
                for x in e.children():
                    go(x, k)
                return
            if d == z3.Z3_OP_SUB:
                ch = e.children()
                go(ch[0], k)
                for x in ch[1:]:
                    go(x, -k)
                return
            if d == z3.Z3_OP_UMINUS:
                go(e.arg(0), -k)
                return
            if d == z3.Z3_OP_MUL and e.num_args() == 2:
                a, b = e.children()
                if z3.is_int_value(a):
                    go(b, k * a.as_long())
                    return
                if z3.is_int_value(b):
                    go(a, k * b.as_long())
                    return
        i = e.get_id()
        if i in out:
            out[i] = (out[i][0] + k, e)
        else:
            out[i] = (k, e)
    go(t, 1)
    return c[0], {i: v for i, v in out.items() if v[0] != 0}


def unlin(c, d):
    items = sorted(d.values(), key=lambda v: v[1].get_id())
    if not items:
        return c
    r = None
    for k, e in items:
        x = e if k == 1 else z3.IntVal(k) * e
        r = x if r is None else r + x
    if c:
        r = r + z3.IntVal(c)
    return r


def norm_int(t):
    if isinstance(t, int):
        return t
    return unlin(*lin(t))


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for i, (k, e) in db.items():
        if i in d:
            k = d[i][0] + k
        if k:
            d[i] = (k, e)
        else:
            d.pop(i, None)
    return unlin(ca + cb, d)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        if a == 0:
            return 0
        c, d = lin(b)
        return unlin(c * a, {i: (k * a, e) for i, (k, e) in d.items()})
    return a * b


def isub(a, b):
    return iadd(a, imul(-1, b))


def idiv_exact(a, k):
    """a/k when all linear coefficients are divisible, else None"""
    c, d = lin(a)
    if c % k or any(v[0] % k for v in d.values()):
        return None
    return unlin(c // k, {i: (v[0] // k, v[1]) for i, v in d.items()})


def ieq(a, b):
    """True / False / None (unknown, syntactic)"""
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    return None


# ------------------------------------------------------------------ reals
def radd(a, b):
    if is_c(a) and is_c(b):
        return Fraction(a) + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return R(a) + R(b)


def rsub(a, b):
    if is_c(a) and is_c(b):
        return Fraction(a) - b
    if is_c(b) and b == 0:
        return a
    if is_c(a) and a == 0:
        return rneg(b)
    return R(a) - R(b)


def rmul(a, b):
    if is_c(a) and is_c(b):
        return Fraction(a) * b
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return R(a) * R(b)


def rdiv(a, b):
    if is_c(b):
        if b == 0:
            return None
        if is_c(a):
            return Fraction(a) / b
        return rmul(Fraction(1) / b, a)
    if is_c(a) and a == 0:
        return Fraction(0)
    return R(a) / R(b)


def rneg(a):
    if is_c(a):
        return -Fraction(a)
    return -R(a)


def contains(e, syms_ids):
    """does z3 expr contain any of the ast ids"""
    if is_c(e):
        return False
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in syms_ids:
            return True
        st.extend(x.children())
    return False


def atoms(e, out=None):
    """uninterpreted constants occurring in e: {id: term}"""
    if out is None:
        out = {}
    if e is None or is_c(e) or isinstance(e, str):
        return out
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        st.extend(x.children())
    return out


def subst(e, pairs):
    if e is None or is_c(e) or isinstance(e, str) or not pairs:
        return e
    ps = []
    for a, b in pairs:
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        elif isinstance(b, int):
            b = z3.IntVal(b) if z3.is_int(a) else z3.RealVal(b)
        elif isinstance(b, Fraction):
            b = R(b)
        ps.append((a, b))
    return z3.substitute(e, *ps)


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if is_c(a) and is_c(b) and a == b and type(a) is type(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (not is_c(a) and z3.is_bool(a)):
        return z3.If(c, to_z(a), to_z(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (not is_c(a) and z3.is_real(a)) or (not is_c(b) and z3.is_real(b)):
        return z3.If(c, R(a), R(b))
    return z3.If(c, to_z(a), to_z(b))
