#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, applied in a scratch clone; every check
named must stay quiet (exit 0).  usage: refac.py [-l] [name...]"""
import importlib.util, os, subprocess, sys, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
for f in sorted(os.listdir(V + '/refactorings')):
    if f.endswith('.py'):
        s = importlib.util.spec_from_file_location(f[:-3], V + '/refactorings/' + f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for k, v in m.R.items():
            assert k not in R, k
            R[k] = v
names = [a for a in sys.argv[1:] if not a.startswith('-')] or list(R)
only = None
for a in sys.argv[1:]:
    if a.startswith('--only='):
        only = a[7:].split(',')
bad = 0
for n in names:
    edits, checks = R[n]
    d = '/tmp/rf.' + n
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    for f, old, new, *cnt in edits:
        p = d + '/' + f
        t = open(p).read()
        c = cnt[0] if cnt else 1
        if t.count(old) != c:
            print(n, 'EDIT does not match', f, t.count(old), repr(old[:60])); bad += 1
            break
        open(p, 'w').write(t.replace(old, new))
    else:
        for c in checks:
            if only and c not in only: continue
            t0 = time.time()
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/rf.ev')
            r = subprocess.run(['timeout', '880', 'python3-vt', V + '/check.py', c],
                               capture_output=True, text=True, env=env, cwd=V)
            tail = (r.stdout.strip().splitlines() or [''])[-1]
            ok = 'ok ' if r.returncode == 0 else 'BAD'
            bad += r.returncode != 0
            print(f'{n:28s} {c} {ok} {time.time()-t0:4.0f}s {tail[:230]}', flush=True)
            if r.returncode:
                open(f'/tmp/rf.{n}.{c}.log', 'w').write(r.stdout + r.stderr)
    shutil.rmtree(d, ignore_errors=True)
print('bad', bad)
