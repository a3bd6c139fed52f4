#!/usr/bin/env python3
"""mkseed.py seeds/<file>.py ... : (re)creates /verif/seeded/<id>/ from a seed description and validates it in a scratch copy.
A description sets ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)], SRCS, DEMO (C++ text), optional CFG (defines)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
from extract import DEFAULT
SH = r'''#!/bin/bash
# run with cwd = the repository; exit 0: behaviour as specified, non-zero: broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/inc"
cp -r include/. "$w/inc/" || exit 3
rm -f "$w/inc/defines.hpp" "$w/inc/defines.hpp.in"
cp "$d/defines.hpp" "$w/inc/defines.hpp"
fl="-std=c++17 -w -O1 -fopenmp -fno-access-control -I$w/inc -I$d/stubs -I$d"
i=0; pids=""
for s in "$d/demo.cpp" %s; do
  i=$((i+1)); g++ $fl -c "$s" -o "$w/$i.o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 4; done
g++ -fopenmp "$w"/*.o -o "$w/demo" || exit 5
cd "$w" && timeout 200 ./demo
'''


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(HERE, 'seeded', ns['ID'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        for f, old, new in ns['EDITS']:
            t = open(os.path.join(w, f)).read()
            assert t.count(old) == 1, (ns['ID'], f, t.count(old), old)
            open(os.path.join(w, f), 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(d, 'stubs'))
        for h in ('common.hpp', 'specie.hpp', 'yee.hpp') + tuple(ns.get('FILES', ())):
            shutil.copy(os.path.join(HERE, 'native', h), d)
        for h in ns.get('DIRS', ()):
            shutil.copytree(os.path.join(HERE, h), os.path.join(d, h))
        cfg = dict(DEFAULT)
        for k, v in ns.get('CFG', {}).items():
            if v is None:
                cfg.pop(k, None)
            else:
                cfg[k] = v
        open(os.path.join(d, 'defines.hpp'), 'w').write(''.join(f'#define {k} {v}\n' for k, v in sorted(cfg.items())))
        open(os.path.join(d, 'demo.cpp'), 'w').write(ns['DEMO'])
        open(os.path.join(d, 'demo.sh'), 'w').write((SH % ' '.join(ns['SRCS'])).replace('-I$d/stubs', ' '.join(f'-I$d/{h}' for h in ns.get('DIRS', ())) + ' -I$PWD -I$d/stubs' if ns.get('DIRS') else '-I$d/stubs'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run([os.path.join(d, 'demo.sh')], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c = None
        if '--check' in sys.argv:
            c = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), ns['PROP']], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = a.returncode == 0 and b.returncode == 1
        print(ns['ID'], 'ok' if ok else 'BAD', a.returncode, b.returncode, '' if ok else a.stdout[-800:] + '\n---\n' + b.stdout[-800:])
        if c:
            rf = os.path.join(HERE, 'tools', 'seed_results.json')
            r = json.load(open(rf)) if os.path.exists(rf) else {}
            last = c.stdout.strip().split('\n')[-1]
            r[ns['ID']] = 'missed' if c.returncode != 1 else ns['PROP'] + (' (proof only)' if 'no-failing' in last else ' (proof and replay)' if 'REFUTED' in c.stdout else ' (replay)')
            json.dump(r, open(rf, 'w'), indent=1, sort_keys=True)
            print('   check rc', c.returncode, c.stdout.strip().split('\n')[-1][:200] if c.returncode else c.stdout[:300])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for p in sys.argv[1:]:
    if not p.startswith('--'):
        make(p)
