"""Reader for textual LLVM IR (clang/opt 18 output).

Only the subset that the extraction pipeline produces is understood; anything
else raises Unsupported when the construct is *executed* (parsing is lazy, so
an exotic instruction in a function no contract reaches is harmless).
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(
    r'\s*('
    r'c"(?:[^"\\]|\\.)*"'
    r'|"(?:[^"\\]|\\.)*"'
    r'|[%@$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'
    r'|![0-9a-zA-Z_.]+|!'
    r'|#\d+'
    r'|-?\d+\.\d+e[+-]?\d+|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+'
    r'|\.\.\.'
    r'|[a-zA-Z_][-a-zA-Z0-9_.]*:?'
    r'|<\{|\}>|[][(){}<>,*=|:]'
    r')')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token: ' + s[i:i + 40])
        out.append(m.group(1))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a')

    def __init__(self, k, a=None):
        self.k = k
        self.a = a

    def __repr__(self):
        return f'{self.k}:{self.a}' if self.a is not None else self.k


VOID = Ty('void')
PTR = Ty('ptr')
DBL = Ty('double')
FLT = Ty('float')


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, *vs):
        if self.peek() in vs:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.next() != v:
            raise Unsupported(f'expected {v} in {" ".join(self.t)[:160]}')

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == 'double':
            r = DBL
        elif t == 'float':
            r = FLT
        elif t in ('x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token'):
            r = Ty(t)
        elif re.fullmatch(r'i\d+', t):
            r = Ty('int', int(t[1:]))
        elif t[0] == '%':
            r = Ty('named', t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = Ty('array', (n, e))
        elif t == '{':
            r = Ty('struct', self.tylist('}'))
        elif t == '<{':
            r = Ty('pstruct', self.tylist('}>'))
        elif t == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            r = Ty('vector', (n, e))
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise Unsupported('type ' + t)
        while self.peek() == '(':  # function type
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            r = Ty('func', r)
        return r

    def tylist(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext',
            'returned', 'immarg', 'writable', 'dead_on_unwind', 'inreg', 'nofree', 'readnone', 'noreturn',
            'nounwind', 'allocptr', 'swiftself', 'nest', 'inalloca', 'allocalign', 'range', 'nonlazybind'}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTR:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
            elif t in ('align',):
                self.next()
                self.next() if self.peek() != '(' else self.skip_paren()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                       'preallocated', 'nofpclass', 'captures', 'memory', 'allocsize'):
                self.next()
                self.skip_paren()
            elif t is not None and (t[0] == '#' or t[0] == '"'):
                self.next()
                if self.peek() == '=':
                    self.next()
                    self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        """operand: ('l',name) ('g',name) ('c',python const) ('fp',float-bits) ('ce',...)"""
        t = self.next()
        if t[0] == '%':
            return ('l', t)
        if t[0] == '@':
            return ('g', t)
        if t in ('true', 'false'):
            return ('c', t == 'true')
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if ty.k in ('double', 'float'):
            return ('fp', t)
        if re.fullmatch(r'-?\d+', t):
            return ('c', int(t))
        if t in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'icmp', 'select', 'trunc', 'zext'):
            if t == 'getelementptr':
                while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                    if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                        self.skip_paren()
                self.expect('(')
                st = self.type()
                self.expect(',')
                ops = []
                while True:
                    while self.peek() == 'inrange':
                        self.next()
                    ot = self.type()
                    ops.append((ot, self.value(ot)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('cgep', st, ops)
            self.skip_to_paren_end()
            if t == 'inttoptr':
                return ('undef',)      # only occurs as the auto-init pattern
            return ('unsup', t)
        if t == '[' or t == '{' or t == '<{' or t == '<':
            end = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[t]
            out = []
            if self.accept(end):
                return ('agg', out)
            while True:
                et = self.type()
                out.append((et, self.value(et)))
                if self.accept(end):
                    return ('agg', out)
                self.expect(',')
        if t.startswith('c"'):
            return ('str', t[2:-1])
        if t == 'blockaddress' or t == 'dso_local_equivalent':
            self.skip_paren()
            return ('unsup', t)
        raise Unsupported('value ' + t)

    def skip_to_paren_end(self):
        while self.peek() != '(':
            self.next()
        self.skip_paren()

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'line')

    def __init__(self, op, res, ty, a, text, line=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text
        self.line = line


class Block:
    __slots__ = ('name', 'insts', 'succ')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []


class Func:
    def __init__(self, name, ret, params, body_lines, mod):
        self.name = name
        self.ret = ret
        self.params = params  # list of (ty, name)
        self.raw = body_lines
        self.mod = mod
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        n0 = len(self.params)
        first = str(n0)
        # entry label: explicit or implicit
        for ln in self.raw:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                cur = Block('%' + nm)
                blocks[cur.name] = cur
                order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%' + first)
                blocks[cur.name] = cur
                order.append(cur.name)
            cur.insts.append(s)
        # join multi-line (switch tables)
        for b in blocks.values():
            out = []
            i = 0
            while i < len(b.insts):
                s = b.insts[i]
                if s.startswith('switch ') and ']' not in s.split('[', 1)[1]:
                    while ']' not in s.split('[', 1)[1]:
                        i += 1
                        s += ' ' + b.insts[i]
                if (s.startswith('invoke ') or ' = invoke ' in s) and ' to label ' not in s and i + 1 < len(b.insts) and b.insts[i + 1].startswith('to label'):
                    i += 1
                    s += ' ' + b.insts[i]
                if s.startswith(('catch ', 'cleanup', 'filter ')):     # landing pad clauses (exceptions are not modelled)
                    i += 1
                    continue
                out.append(s)
                i += 1
            b.insts = [parse_inst(x, self.mod) for x in out]
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a[0]]
            elif t.op == 'condbr':
                b.succ = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [l for _, l in t.a[2]]
            elif t.op == 'invoke':      # a call followed by a jump to its normal successor
                b.succ = [t.a[2]]
                b.insts[-1] = Inst('call', t.res, t.ty, (t.a[0], t.a[1], None), t.text, t.line)
                b.insts.append(Inst('br', None, None, (t.a[2],), t.text, t.line))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]
        self._analyse()

    def _analyse(self):
        B = self._blocks
        preds = {n: [] for n in B}
        for n, b in B.items():
            for s in b.succ:
                preds[s].append(n)
        self.preds = preds
        # reverse post-order, iterative dominators
        seen = set()
        post = []
        stack = [(self.entry, iter(B[self.entry].succ))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(B[s].succ)))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for n in rpo[1:]:
                ps = [p for p in preds[n] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(n) != new:
                    idom[n] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for n in rpo:
            for s in B[n].succ:
                if s in idx and dom(s, n):
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in idx)
        self.loops = loops  # header -> set(blocks)
        live = [n for n, b in B.items() if b.insts[-1].op == 'ret']
        back = set(live)
        while live:
            for q in preds[live.pop()]:
                if q not in back:
                    back.add(q)
                    live.append(q)
        # blocks no return can be reached from, and that are in no loop: they end in unreachable
        self.doomed = {n for n in B if n not in back and not any(n in x for x in loops.values())}


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'samesign'}


def parse_inst(s, mod):
    text = s
    dbg = re.search(r'!dbg !(\d+)', s)
    line = int(dbg.group(1)) if dbg else None
    try:
        toks = tokenize(s)
        return _pi(toks, mod, text, line)
    except (Unsupported, IndexError, ValueError) as e:
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', s)
        if m:
            res = m.group(1)
        return Inst('unsup', res, None, str(e), text, line)


def _pi(toks, mod, text, line):
    p = P(toks, mod)
    res = None
    if p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()

    def I(o, ty, a):
        return Inst(o, res, ty, a, text, line)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void':
            return I('ret', VOID, None)
        return I('ret', ty, p.value(ty))
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return I('br', None, (p.next(),))
        ty, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return I('condbr', None, (c, a, b))
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t2, c = p.tv()
            p.expect(',')
            p.expect('label')
            cs.append((c[1], p.next()))
        return I('switch', ty, (v, d, cs))
    if op == 'unreachable':
        return I('unreachable', None, None)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek() != '[':
                break
        return I('phi', ty, inc)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = None
        if p.accept(',') and p.peek() != 'align' and not (p.peek() or '').startswith('!'):
            t2, n = p.tv()
        return I('alloca', ty, n)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        t2, v = p.tv()
        return I('load', ty, v)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty, v = p.tv()
        p.expect(',')
        t2, d = p.tv()
        return I('store', ty, (v, d))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        st = p.type()
        p.expect(',')
        ops = []
        while True:
            ops.append(p.tv())
            if not p.accept(','):
                break
            if p.peek().startswith('!'):
                break
        return I('gep', st, ops)
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return I(op, ty, (a, b))
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty, v = p.tv()
        return I('fneg', ty, v)
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty, v = p.tv()
        p.expect('to')
        t2 = p.type()
        return I(op, t2, (ty, v))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return I(op, ty, (pred, a, b))
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        t1, c = p.tv()
        p.expect(',')
        t2, a = p.tv()
        p.expect(',')
        t3, b = p.tv()
        return I('select', t2, (c, a, b))
    if op == 'freeze':
        ty, v = p.tv()
        return I('freeze', ty, v)
    if op == 'extractvalue':
        ty, v = p.tv()
        ix = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            ix.append(int(p.next()))
        return I('extractvalue', ty, (v, ix))
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        t2, w = p.tv()
        ix = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            ix.append(int(p.next()))
        return I('insertvalue', ty, (v, t2, w, ix))
    if op == 'extractelement':
        ty, v = p.tv()
        p.expect(',')
        t2, i = p.tv()
        return I('extractelement', ty, (v, i))
    if op == 'insertelement':
        ty, v = p.tv()
        p.expect(',')
        t2, w = p.tv()
        p.expect(',')
        t3, i = p.tv()
        return I('insertelement', ty, (v, w, i))
    if op == 'call' or op == 'invoke':
        while p.peek() in FLAGS or p.peek() in ('ccc', 'fastcc', 'coldcc'):
            p.next()
        p.attrs()
        rt = p.type()
        if rt.k == 'func':
            rt = rt.a
        p.attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            p.attrs()
            if ty.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += x in '({[' and len(x) == 1
                    d -= x in ')}]' and len(x) == 1
                args.append((ty, ('undef',)))
            else:
                args.append((ty, p.value(ty)))
            p.accept(',')
        nxt = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            nxt = p.next()
        return I('call' if op == 'call' else 'invoke', rt, (callee, args, nxt))
    raise Unsupported('opcode ' + op)


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self._sz = {}
        lines = text.split('\n')
        self.md = {}
        for ln in lines:
            if ln.startswith('!') and ' = ' in ln:
                a, b = ln.split(' = ', 1)
                self.md[a] = b
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                self.types[nm] = body
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
                if m:
                    self.decls.add(m.group(1))
            i += 1

    def loc(self, n):
        """(file, line) of a debug location"""
        d = self.md.get(f'!{n}', '')
        m = re.search(r'DILocation\(line: (\d+)', d)
        if not m:
            return None
        line = int(m.group(1))
        sc = re.search(r'scope: (!\d+)', d)
        for _ in range(50):
            if not sc:
                return None
            d = self.md.get(sc.group(1), '')
            f = re.search(r'file: (!\d+)', d)
            if f:
                nm = re.search(r'filename: "([^"]*)"', self.md.get(f.group(1), ''))
                return (nm.group(1), line) if nm else None
            sc = re.search(r'scope: (!\d+)', d)
        return None

    def _define(self, hdr, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', hdr)
        name = m.group(1)
        toks = tokenize(hdr[m.end() - 1:])
        p = P(toks, self)
        p.expect('(')
        params = []
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            ty = p.type()
            p.attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%' + str(k)
            k += 1
            params.append((ty, nm))
            p.accept(',')
        self.funcs[name] = Func(name, None, params, body, self)

    def resolve(self, ty):
        while ty.k == 'named':
            b = self.types.get(ty.a)
            if b is None:
                raise Unsupported('unknown type ' + str(ty.a))
            if isinstance(b, str):
                b = P(tokenize(b), self).type()
                self.types[ty.a] = b
            ty = b
        return ty

    def size_align(self, ty):
        ty = self.resolve(ty)
        k = ty.k
        if k == 'int':
            b = max(1, (ty.a + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k in ('ptr', 'double'):
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'array':
            s, a = self.size_align(ty.a[1])
            return s * ty.a[0], a
        if k == 'vector':
            s, a = self.size_align(ty.a[1])
            return s * ty.a[0], s * ty.a[0]
        if k == 'struct':
            o = 0
            ma = 1
            for t in ty.a:
                s, a = self.size_align(t)
                ma = max(ma, a)
                o = (o + a - 1) // a * a + s
            return (o + ma - 1) // ma * ma, ma
        if k == 'pstruct':
            return sum(self.size_align(t)[0] for t in ty.a), 1
        raise Unsupported('size of ' + k)

    def size(self, ty):
        return self.size_align(ty)[0]

    def field(self, ty, i):
        """offset and type of element i"""
        ty = self.resolve(ty)
        if ty.k in ('array', 'vector'):
            return self.size(ty.a[1]) * i, ty.a[1]
        o = 0
        for j, t in enumerate(ty.a):
            s, a = self.size_align(t)
            if ty.k == 'struct':
                o = (o + a - 1) // a * a
            if j == i:
                return o, t
            o += s
        raise Unsupported('field')
