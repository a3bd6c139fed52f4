"""Mechanical extraction: /repo sources -> LLVM IR text the verifier reads.

Run on every check.  What it does, and what it drops:
 * clang 18, -O1 front end with the optimiser off, then a fixed list of
   semantics-preserving function passes (inlining, scalar replacement, CSE,
   CFG clean-up).  No loop transformation, no vectorisation, no fast-math.
 * dropped: OpenMP directives (sequential semantics), exception edges, log text
   (loguru stub; FATAL does not return), AVX/SSE variants unless asked for.
 * uninitialised locals are given a poison pattern that the verifier reads as an
   arbitrary value (-ftrivial-auto-var-init=pattern).
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

LLVM = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = {'REL_LIMIT': '5e7', 'SWITCH_MAXWELL_SOLVER_YEE': 'true', 'ENABLE_HDF5': 'true',
        'PACKAGE_NAME': '"PiCoPiC"', 'PACKAGE_VERSION': '"verif"', 'PACKAGE_STRING': '"PiCoPiC verif"',
        'PACKAGE_DEPS': '""', 'PACKAGE_TARNAME': '"picopic"', 'PACKAGE_BUGREPORT': '""', 'PACKAGE_URL': '""',
        'CXXFLAGS': '""'}
DEFAULT = dict(BASE, ENABLE_PML='true', SWITCH_CCS_VB='true', SWITCH_PLASMA_SPATIAL_FLAT='true',
               SWITCH_PLASMA_VELOCITY_THERMAL='true', SWITCH_PUSHER_BORIS_ADAPTIVE='true')


def config(**kw):
    """a configure-time option set: DEFAULT with switches replaced"""
    d = dict(DEFAULT)
    for k, v in kw.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def swap(d, prefix, new):
    d = {k: v for k, v in d.items() if not k.startswith(prefix)}
    if new:
        d[new] = 'true'
    return d


class ExtractError(Exception):
    pass


class Work:
    """scratch directory for one check run (removed at exit)"""

    def __init__(self):
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='verif-', dir=base)
        self.cache = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def defines(self, cfg):
        key = '_'.join(sorted(k for k in cfg if k.startswith(('ENABLE', 'SWITCH')))) + str(cfg.get('REL_LIMIT'))
        import hashlib
        h = hashlib.sha1(key.encode()).hexdigest()[:12]
        d = os.path.join(self.dir, 'inc-' + h)
        if not os.path.isdir(d):
            os.makedirs(d)
            with open(os.path.join(d, 'defines.hpp'), 'w') as f:
                for k, v in sorted(cfg.items()):
                    f.write(f'#define {k} {v}\n')
        return d, h

    def incs(self, cfg, repo=None):
        """-I flags; the generated defines.hpp must win over include/defines.hpp"""
        d, h = self.defines(cfg)
        repo = repo or REPO
        return ['-I' + d, '-I' + VERIF + '/stubs', '-I' + self.incview(d, repo)]

    def incview(self, d, repo):
        """repo/include as a view without its own (generated) defines.hpp: quote
        includes search the including file's directory first, so headers are
        presented through a directory of symlinks"""
        v = os.path.join(d, 'view')
        if not os.path.isdir(v):
            os.makedirs(v)
            root = os.path.join(repo, 'include')
            for dp, dn, fn in os.walk(root):
                rel = os.path.relpath(dp, root)
                for f in fn:
                    if f in ('defines.hpp', 'defines.hpp.in') and rel == '.':
                        continue
                    os.makedirs(os.path.join(v, rel), exist_ok=True)
                    shutil.copyfile(os.path.join(dp, f), os.path.join(v, rel, f))
        return v

    def run(self, cmd, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
        if r.returncode:
            raise ExtractError(' '.join(cmd)[:300] + '\n' + r.stderr[-3000:])
        return r.stdout

    def compile_tu(self, cfg, src, extra=()):
        d, h = self.defines(cfg)
        key = ('tu', h, src, tuple(extra))
        if key in self.cache:
            return self.cache[key]
        out = os.path.join(self.dir, re.sub(r'\W', '_', src) + h + str(len(self.cache)) + '.ll')
        path = src if src.startswith('/') else os.path.join(REPO, src)
        # the source is compiled from a copy in the scratch directory: a quoted
        # include must not find /repo/include/defines.hpp through a relative path
        self.run([LLVM + 'clang++', '-std=c++17', '-w', '-O1', '-g1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-mno-constructor-aliases',
                  '-fno-exceptions', '-fno-rtti', '-ffp-contract=off', '-fno-math-errno',
                  '-ftrivial-auto-var-init=pattern', '-DVERIF_SYMBOLIC', '-D_GLIBCXX_ASSERTIONS=0', '-U_GLIBCXX_ASSERTIONS',
                  *extra, *self.incs(cfg), '-S', '-emit-llvm', path, '-o', out])
        self.cache[key] = out
        return out

    PASSES = ('function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),'
              'function(sroa,early-cse<memssa>,simplifycfg,instsimplify,dce,sroa,simplifycfg,loop-simplify,lcssa)')

    def module_text(self, cfg, srcs, noinline=(), extra=()):
        """linked, normalised IR text; noinline: demangled-name prefixes kept as calls"""
        d, h = self.defines(cfg)
        key = ('mod', h, tuple(srcs), tuple(sorted(noinline)), tuple(extra))
        if key in self.cache:
            return self.cache[key]
        from concurrent.futures import ThreadPoolExecutor
        self.incs(cfg)
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(lambda s: self.compile_tu(cfg, s, extra), srcs))
        linked = os.path.join(self.dir, f'linked{len(self.cache)}.ll')
        self.run([LLVM + 'llvm-link', '-S', '--suppress-warnings', *lls, '-o', linked])
        text = open(linked).read()
        names = re.findall(r'^define [^@]*(@(?:"[^"]*"|[-\w.$]+))\(', text, re.M)
        dem = self.demangle(names)
        keep = {n for n in names if match_any(dem[n], noinline)}

        def fix(m):
            ln = m.group(0)
            nm = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln).group(1)
            if nm in keep:
                ln = re.sub(r' (#\d+)', r' noinline \1', ln, count=1)
            return ln
        text = re.sub(r'^define .*$', fix, text, flags=re.M)
        # attributes that would stop inlining
        text = re.sub(r'\boptnone\b', '', text)
        pre = os.path.join(self.dir, f'pre{len(self.cache)}.ll')
        open(pre, 'w').write(text)
        out = self.run([LLVM + 'opt', '-S', '-passes=' + self.PASSES, '-inline-threshold=50000',
                        '-inlinecold-threshold=50000', pre, '-o', '-'])
        self.cache[key] = (out, dem)
        return out, dem

    def demangle(self, names):
        if not names:
            return {}
        r = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(n[1:].strip('"') for n in names),
                           stdout=subprocess.PIPE, text=True)
        return dict(zip(names, r.stdout.split('\n')))

    # -------------------------------------------------------------- layouts
    def layout(self, cfg, headers, structs):
        """compile and run a probe that prints offsets of the named fields"""
        d, h = self.defines(cfg)
        key = ('lay', h, tuple(headers), repr(sorted((k, sorted(v[1])) for k, v in structs.items())))
        if key in self.cache:
            return self.cache[key]
        body = ['#include <cstdio>', '#include <cstddef>'] + [f'#include "{x}"' for x in headers] + ['int main() {']
        for nm, (cxx, fields) in structs.items():
            body.append(f'printf("S {nm} %zu\\n", sizeof({cxx}));')
            for f in fields:
                if f == '__vptr':
                    continue
                body.append(f'{{ typedef {cxx} T_; printf("F {nm} {f} %zu\\n", __builtin_offsetof(T_, {f})); }}')
        body.append('}')
        src = os.path.join(self.dir, f'probe{len(self.cache)}.cpp')
        open(src, 'w').write('\n'.join(body))
        exe = src[:-4]
        # only constants are needed: compile to LLVM is not required, but the
        # probe must link, so undefined references are tolerated
        self.run([LLVM + 'clang++', '-std=c++17', '-w', '-O0', '-fno-access-control', '-fno-exceptions', '-fno-rtti',
                  '-DVERIF_SYMBOLIC', *self.incs(cfg), src, '-o', exe, '-Wl,--unresolved-symbols=ignore-all'])
        out = self.run([exe])
        res = {}
        for ln in out.split('\n'):
            t = ln.split()
            if not t:
                continue
            if t[0] == 'S':
                res[t[1]] = [int(t[2]), []]
            else:
                res[t[1]][1].append((int(t[3]), t[2]))
        self.cache[key] = res
        return res


def match_any(name, pats):
    base = strip_params(name)
    return any(base == p or name == p or name.startswith(p + '(') or (p.endswith('*') and not p.endswith('**') and base.startswith(p[:-1])) for p in pats)


def strip_params(n):
    """drop the parameter list (and a return type) of a demangled name"""
    d = 0
    # find the parenthesis that opens the parameter list (last top-level one)
    i = len(n)
    m = re.match(r'^(.*?)(\(.*\))?( const)?(&)?(&&)?$', n)
    depth = 0
    pos = None
    k = 0
    while k < len(n):
        c = n[k]
        if n.startswith('operator()', k):
            k += 10
            continue
        if c == '<' and not n[max(0, k - 8):k].endswith('operator'):
            depth += 1
        elif c == '>' and not n[max(0, k - 8):k].endswith('operator') and n[k - 1] != '-':
            depth -= 1
        elif c == '(' and depth == 0:
            pos = k
            break
        k += 1
    b = n[:pos] if pos is not None else n
    # return type of templates: "double foo<...>" -> keep last token at depth 0
    depth = 0
    cut = 0
    for k, c in enumerate(b):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == ' ' and depth == 0 and not b[:k].endswith('operator'):
            cut = k + 1
    return b[cut:]
