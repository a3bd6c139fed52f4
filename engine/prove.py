"""Discharging obligations.

back ends, in order: 'nf' (exact rational-function normal form with case
splitting on conditionals), 'z3', 'cvc5'.  An obligation no back end proves is
searched for a counterexample (sampled evaluation, then the solver's model)."""
import random
import subprocess
import time
import z3
from fractions import Fraction
from terms import *
from norm import *


class Obl:
    def __init__(self, name, func, status, backend, secs, detail='', model=None):
        self.name = name
        self.func = func
        self.status = status       # proved | refuted | unknown
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model

    def row(self):
        return {'obligation': self.name, 'function': self.func, 'status': self.status, 'backend': self.backend,
                'seconds': round(self.secs, 3), **({'detail': self.detail[:1500]} if self.detail else {}),
                **({'model': self.model} if self.model else {})}


def find_ite(t):
    """some condition of an if-then-else in t whose own subterms are ite-free"""
    seen = set()
    best = [None]

    def go(x):
        if x.get_id() in seen or best[0] is not None:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
            c = x.arg(0)
            inner = find_ite(c)
            best[0] = inner if inner is not None else c
            return
        for c in x.children():
            go(c)
    go(t)
    return best[0]


def fold_ints(t):
    """constant-fold integer subterms (arguments of applications), leaving real structure alone"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if x.num_args() == 0:
            r = x
        elif z3.is_int(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            r = z3.simplify(x)
        elif x.decl().kind() == z3.Z3_OP_TO_REAL:
            a = go(x.arg(0))
            r = z3.RealVal(a.as_long()) if z3.is_int_value(a) else z3.ToReal(a)
        else:
            ch = [go(y) for y in x.children()]
            r = x if all(p.eq(q) for p, q in zip(ch, x.children())) else rebuild(x, ch)
        memo[i] = (x, r)
        return r
    return go(t)


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for y in ch[1:]:
            r = r + y
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for y in ch[1:]:
            r = r * y
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return x.decl()(*ch)


class Prover:
    def __init__(self, seed=1, tier='quick'):
        self.rows = []
        self.rng = random.Random(seed)
        self.tier = tier
        self.z3_ms = 8000 if tier == 'quick' else 60000
        self.sort_ranges = {}
        self.samples = 60
        self.strict = []
        self._io = {}
        self.debug = False
        self.slow = 1
        self.retries = 2

    # hyps: list of z3 Bool; facts: background axioms
    def eq(self, name, func, a, b, hyps=(), facts=(), rels=(), ranges=None, units=(), leaves=400, cuts=()):
        """obligation: under hyps, a == b (reals)"""
        t0 = time.time()
        d = rsub(a, b)
        if is_c(d):
            st = 'proved' if d == 0 else None
            if st:
                return self.add(name, func, 'proved', 'nf', t0)
        hyps = [h for h in hyps if h is not True]
        if any(h is False for h in hyps):
            return self.add(name, func, 'proved', 'vacuous-path', t0)
        d = R(d)
        # x == number among the hypotheses: substitute
        sub = []
        for h in hyps:
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_EQ and z3.is_int(h.arg(0)):
                for u, v in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int_value(v) and not any(u.eq(x) for x, _ in sub):
                        sub.append((u, v))
                        break
        if sub:
            d = fold_ints(z3.substitute(d, *sub))
            hyps = list(hyps) + [z3.substitute(h, *sub) for h in hyps]
        bad = []
        n = [0]
        used = set()

        def leaf(t, hs):
            n[0] += 1
            if n[0] > leaves:
                raise TooBig('case split')
            nm = Norm()
            for u in units:
                nm.unit.append(nm.atom(u.decl().name(), u))
            for s, sq in rels:
                i = nm.rf(s)
                (m, _), = i[0].items()
                nm.sq[nm.exps(m)[0][0]] = nm.rf(sq)
            try:
                if cuts:
                    t = self.sweep(t, cuts, hs, ranges)
                if nm.is_zero_term(t):
                    used.add('nf')
                    return True
            except ZeroDivisionError:
                pass
            # contradictory case?
            if self.contradictory(hs, facts):
                used.add('z3')
                return True
            bad.append((t, list(hs)))
            return False

        def split(t, hs):
            t = z3.simplify(t, som=False, arith_lhs=False, push_to_real=False) if False else t
            c = find_ite(t)
            if c is None:
                return leaf(t, hs)
            ok = True
            dec = self.decide(c, hs, facts)
            for v in (True, False):
                if dec is not None and dec != v:
                    continue
                h2 = hs if dec is not None else hs + [c if v else z3.Not(c)]
                t2 = z3.simplify(z3.substitute(t, (c, z3.BoolVal(v)))) if False else self.prune(t, c, v)
                ok = split(t2, h2) and ok
                if len(bad) > 3:
                    return False
            return ok
        try:
            ok = split(d, list(hyps))
        except TooBig as e:
            ok = False
            bad.append((d, list(hyps)))
        if ok:
            return self.add(name, func, 'proved', '+'.join(sorted(used)) or 'nf', t0)
        # refutation by sampling; then solver
        m = self.sample(d, hyps, facts, ranges)
        if m is not None:
            return self.add(name, func, 'refuted', 'sampled', t0, f'difference {m[0]!r}', m[1])
        res = [self.smt(hs + [t != 0], facts) for t, hs in bad]
        if all(r[0] == 'unsat' for r in res):
            return self.add(name, func, 'proved', res[0][1], t0)
        for r in res:
            if r[0] == 'sat':
                return self.add(name, func, 'refuted', r[1], t0, 'solver model', r[2])
        if self.retries > 0 and self.slow == 1 and time.time() - t0 < 60:      # once more with patience: a loaded machine is no reason to give up
            self.retries -= 1
            self.slow = 5
            try:
                return self.eq(name, func, a, b, hyps, facts, rels, ranges, units, leaves, cuts)
            finally:
                self.slow = 1
        return self.add(name, func, 'unknown', 'nf/z3/cvc5', t0, 'not discharged')

    def sweep(self, t, cuts, hyps, ranges):
        """replace subterms provably equal to a designated specification term by
        one fresh symbol (equal subterms are found by evaluation, then proved)"""
        evs = []
        for trial in range(400):
            ev = NumEval(random.Random(self.rng.random()), ranges=ranges)
            try:
                if all(ev.ev(h) for h in hyps if h is not True):
                    ev.ev(t)
                    for c in cuts:
                        ev.ev(R(c))
                    evs.append(ev)
            except (ValueError, ZeroDivisionError, OverflowError, TooBig, TypeError):
                continue
            if len(evs) == 3:
                break
        if len(evs) < 2:
            return t
        cuts = [R(c) for c in cuts]
        for n in range(len(cuts)):
            c = cuts[n]
            if c.num_args() == 0:
                continue
            sc = [e.ev(c) for e in evs]
            if any(isinstance(v, bool) or v != v for v in sc):
                continue
            found = []
            seen = set()
            st = [t] + cuts[n + 1:]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                st.extend(x.children())
                if x.num_args() == 0 or not z3.is_real(x):
                    continue
                try:
                    sx = [e.ev(x) for e in evs]
                except Exception:
                    continue
                if all(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) for a, b in zip(sx, sc)):
                    found.append(x)
            sym = z3.Real(f'cut!{n}')
            pairs = []
            for x in found:
                if x.get_id() == c.get_id():
                    pairs.append((x, sym))
                    continue
                try:
                    if Norm().is_zero_term(x - c):
                        pairs.append((x, sym))
                except (TooBig, HasIte, ZeroDivisionError):
                    pass
            if not pairs:
                continue
            for e, v in zip(evs, sc):
                e.env[f'cut!{n}'] = v
            t = z3.substitute(t, *pairs)
            cuts = cuts[:n + 1] + [z3.substitute(y, *pairs) for y in cuts[n + 1:]]
        return t

    def prune(self, t, c, v):
        memo = {}
        cid = c.get_id()

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            if i == cid:
                r = z3.BoolVal(v)
            elif x.num_args() == 0:
                r = x
            else:
                if x.decl().kind() == z3.Z3_OP_ITE:
                    c2 = go(x.arg(0))
                    if z3.is_true(c2):
                        r = go(x.arg(1))
                    elif z3.is_false(c2):
                        r = go(x.arg(2))
                    else:
                        r = z3.If(c2, go(x.arg(1)), go(x.arg(2)))
                else:
                    ch = [go(y) for y in x.children()]
                    if all(p.get_id() == q.get_id() for p, q in zip(ch, x.children())):
                        r = x
                    elif x.decl().kind() == z3.Z3_OP_AND:
                        r = z3.simplify(z3.And(*ch))
                    elif x.decl().kind() == z3.Z3_OP_OR:
                        r = z3.simplify(z3.Or(*ch))
                    elif x.decl().kind() == z3.Z3_OP_NOT:
                        r = z3.simplify(z3.Not(ch[0]))
                    elif x.decl().kind() == z3.Z3_OP_ADD:
                        r = ch[0]
                        for y in ch[1:]:
                            r = r + y
                    elif x.decl().kind() == z3.Z3_OP_MUL:
                        r = ch[0]
                        for y in ch[1:]:
                            r = r * y
                    else:
                        r = x.decl()(*ch)
            memo[i] = (x, r)
            return r
        return go(t)

    def int_only(self, t):
        """no real-valued subterm (cached)"""
        k = t.get_id()
        if k in self._io:
            return self._io[k][1]
        r = True
        if z3.is_quantifier(t) or z3.is_real(t):
            r = False
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_INT:
            r = True
        elif z3.is_app(t):
            r = all(self.int_only(x) for x in t.children())
        self._io[k] = (t, r)
        return r

    def contradictory(self, hs, facts):
        """integer part first: real arithmetic cannot slow it down"""
        hi = [h for h in hs if not isinstance(h, bool) and self.int_only(h)]
        fi = [f for f in facts if not isinstance(f, bool) and self.int_only(f)]
        for H, F, t in ((hi, fi, 5000 * self.slow), (hs, facts, min(3000 * self.slow, self.z3_ms))):
            if not H:
                continue
            s = z3.Solver()
            s.set('timeout', t)
            s.add(*F)
            s.add(*H)
            if s.check() == z3.unsat:
                return True
        return False

    def decide(self, c, hyps, facts):
        if self.int_only(c):
            hi = [h for h in hyps if not isinstance(h, bool) and self.int_only(h)]
            fi = [f for f in facts if not isinstance(f, bool) and self.int_only(f)]
            for g, v in ((z3.Not(c), True), (c, False)):
                s = z3.Solver()
                s.set('timeout', 3000 * self.slow)
                s.add(*fi)
                s.add(*hi)
                s.add(g)
                if s.check() == z3.unsat:
                    return v
        s = z3.Solver()
        s.set('timeout', 600 * self.slow)
        for f in facts:
            s.add(f)
        for h in hyps:
            s.add(h)
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return True
        s.pop()
        s.add(c)
        if s.check() == z3.unsat:
            return False
        return None

    def sample(self, d, hyps, facts, ranges):
        """look for a point where hyps hold and d != 0 (well above rounding)"""
        hits = 0
        for trial in range(self.samples * 20):
            ev = NumEval(random.Random(self.rng.random()), ranges=ranges)
            try:
                if not all(ev.ev(h) for h in hyps):
                    continue
                v = ev.ev(d)
                mag = self.mag(ev, d)
                if not all(ev.ev(f) for f in facts):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError, TooBig, TypeError):
                continue
            hits += 1
            if v == v and mag < 1e200 and abs(v) > 1e-7 * mag and abs(v) > 1e-300 and self.confirm(ev, d, list(hyps) + list(facts)):
                env = {str(k): (float(x) if not isinstance(x, (bool, int)) else x) for k, x in list(ev.env.items()) + list(ev.uf.items())}
                return v, {k: env[k] for k in list(env)[:80]}
            if hits >= self.samples:
                break
        return None

    def confirm(self, ev, d, hyps):
        """the candidate point again at 60 and 90 digits: hypotheses hold and the two values of d agree (so d is not rounding noise)"""
        vs = []
        try:
            for dps in (60, 90):
                hi = HiEval(ev.env, ev.uf, dps)
                if not all(hi.ev(h) for h in hyps):
                    return False
                vs.append(hi.ev(d))
        except (ValueError, ZeroDivisionError, OverflowError, TooBig, TypeError):
            return False
        return abs(float(vs[1])) > 1e-300 and abs(vs[0] - vs[1]) < abs(vs[1]) / 10 ** 6

    def confirm_not(self, ev, goal, hyps):
        try:
            hi = HiEval(ev.env, ev.uf, 60)
            return all(hi.ev(h) for h in hyps) and not hi.ev(goal)
        except (ValueError, ZeroDivisionError, OverflowError, TooBig, TypeError):
            return False

    def mag(self, ev, d):
        """magnitude of the largest summand of d at this point"""
        if z3.is_app(d) and d.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return max(self.mag(ev, c) for c in d.children())
        return abs(ev.ev(d))

    def linear(self, conds, facts):
        """products and quotients of unknown integers as opaque values (sound for proving): is the rest contradictory?"""
        memo = {}
        found = [False]
        opaque = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            ch = [go(y) for y in x.children()] if z3.is_app(x) else []
            r = x if not ch or all(p.get_id() == q.get_id() for p, q in zip(ch, x.children())) else rebuild(x, ch)
            if z3.is_app(x) and z3.is_int(x):
                k = x.decl().kind()
                nl = k == z3.Z3_OP_MUL and sum(not z3.is_int_value(y) for y in ch) > 1 or k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1])
                if nl:
                    found[0] = True
                    c = z3.IntVal(1)
                    rest = [y for y in ch if not z3.is_int_value(y)] if k == z3.Z3_OP_MUL else ch
                    if k == z3.Z3_OP_MUL:
                        for y in ch:
                            if z3.is_int_value(y):
                                c = c * y
                        rest = sorted(rest, key=lambda y: y.get_id())
                    key = (k,) + tuple(y.get_id() for y in rest)
                    if key not in opaque:
                        opaque[key] = (rest, z3.FreshInt('nl'))
                    r = opaque[key][1] if k != z3.Z3_OP_MUL else z3.simplify(c) * opaque[key][1]
            memo[i] = (x, r)
            return r
        cs = [go(z3.simplify(c, som=True)) for c in list(facts) + list(conds) if not isinstance(c, bool)]
        if not found[0]:
            return False
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*cs)
        return s.check() == z3.unsat

    def smt(self, conds, facts):
        if not any(c is False for c in conds) and all(self.int_only(c) for c in conds if not isinstance(c, bool)) and \
                self.linear(conds, [f for f in facts if self.int_only(f)]):
            return ('unsat', 'z3', None)
        s = z3.Solver()
        s.set('timeout', self.z3_ms)
        for f in facts:
            s.add(f)
        for c in conds:
            if c is False:
                return ('unsat', 'trivial', None)
            if c is not True:
                s.add(c)
        r = s.check()
        if r == z3.unsat:
            return ('unsat', 'z3', None)
        if r == z3.sat:
            m = s.model()
            return ('sat', 'z3', {str(x): str(m[x])[:60] for x in list(m)[:60]})
        try:
            q = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={self.z3_ms}', '-'], input=q, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=self.z3_ms / 1000 + 10)
            if p.stdout.startswith('unsat'):
                return ('unsat', 'cvc5', None)
        except Exception:
            pass
        return ('unknown', 'z3+cvc5', None)

    def holds(self, name, func, goal, hyps=(), facts=(), ranges=None):
        """obligation: hyps entail goal (any boolean)"""
        t0 = time.time()
        if goal is True:
            return self.add(name, func, 'proved', 'syntactic', t0)
        if goal is False:
            goal = z3.BoolVal(False)
        r = self.smt(list(hyps) + [z3.Not(goal)], facts)
        if r[0] == 'unsat':
            return self.add(name, func, 'proved', r[1], t0)
        if r[0] == 'sat':
            return self.add(name, func, 'refuted', r[1], t0, 'solver model', r[2])
        for trial in range(self.samples * 20):
            ev = NumEval(random.Random(self.rng.random()), ranges=ranges)
            try:
                if all(ev.ev(h) for h in hyps if h is not True) and not ev.ev(goal) and all(ev.ev(f) for f in facts) and self.confirm_not(ev, goal, [h for h in hyps if h is not True] + list(facts)):
                    env = {str(k): x for k, x in list(ev.env.items()) + list(ev.uf.items())}
                    return self.add(name, func, 'refuted', 'sampled', t0, '', {k: str(env[k]) for k in list(env)[:80]})
            except (ValueError, ZeroDivisionError, OverflowError, TooBig, TypeError):
                continue
        return self.add(name, func, 'unknown', r[1], t0)

    def fact_true(self, name, func, ok, detail='', refuted=True):
        """structural obligation already decided"""
        return self.add(name, func, 'proved' if ok else ('refuted' if refuted else 'unknown'), 'engine', time.time(), detail)

    def satisfiable(self, name, func, hyps, facts=()):
        """vacuity guard: the hypotheses must not be contradictory"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.z3_ms)
        for f in facts:
            s.add(f)
        for h in hyps:
            if h is not True:
                s.add(h if h is not False else z3.BoolVal(False))
        r = s.check()
        return self.add('vacuity: ' + name, func, 'unknown' if r == z3.unsat else 'proved', 'z3', t0,
                        'hypotheses contradictory' if r == z3.unsat else '')

    def add(self, name, func, status, backend, t0, detail='', model=None):
        o = Obl(name, func, status, backend, time.time() - t0, detail, model)
        self.rows.append(o)
        return o
