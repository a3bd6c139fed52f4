#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, never by a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The repository\'s six tests exercise only a handful of fixed samples of small helpers and never compile this code path with other '
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, state=state, observe=observe, claimed=claimed, na=na))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': a}) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'python3-vt -c "import z3, sympy; print(z3.get_version_string())" && /usr/lib/llvm-18/bin/clang++ --version >/dev/null && g++ --version >/dev/null',
    'checks': [{'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} quick', 'thorough_cmd': f'python3-vt check.py {p["id"]} thorough',
                'technique': 'contract-based deductive verification of the extracted real code (verification conditions from LLVM IR, discharged by '
                             'normal-form rewriting and z3/cvc5), failing obligations replayed on the compiled code',
                'level': 'proof', 'level_note': p['note']} for p in P if p['claimed']],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if not p['claimed']],
    'notes': 'See DESIGN.md.  No hooks were added to /repo; fixes are unguarded "fix:" commits listed in known_findings.json.'
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
t = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(f'### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n*Decided by:* {p["note"]}\n' for p in P if p['claimed']))
t = t.replace('@@NA@@', '\n'.join(f'* **{p["id"]} {p["title"]}** - {p["na"]}' for p in P if not p['claimed']) + '\n')
sd = os.path.join(HERE, 'seeded')
res = {}
if os.path.exists(os.path.join(HERE, 'tools', 'seed_results.json')):
    res = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json')))
rows = []
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append(f'| {s} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {res.get(s, "?")} |')
t = t.replace('@@SEEDS@@', '| id | property | change | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
