"""Runs one property: proof sections, native replay drivers, verdict, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

import ir
from ir import Unsupported
from extract import Work, ExtractError, strip_params, REPO, VERIF, LLVM
from prove import Prover
from sym import *
from shapes import make_layout

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Mod:
    """one extracted module + layout"""

    def __init__(self, ctx, cfg, srcs, noinline, headers, names, extra=None, cflags=()):
        self.ctx = ctx
        text, dem = ctx.work.module_text(cfg, srcs, noinline, cflags)
        self.mod = ir.Module(text)
        self.dem = dem
        self.inv = {}
        for k, v in dem.items():
            if k in self.mod.funcs:
                self.inv.setdefault(strip_params(v), []).append(k)
        self.lay = make_layout(ctx.work, cfg, headers, names, extra)
        ctx.srcs |= set(srcs)

    def sym(self, name, pick=None):
        c = self.inv.get(name) or []
        if pick:
            c = [x for x in c if pick in self.dem[x]]
        # complete-object constructor is preferred
        c = sorted(c, key=lambda x: (0 if 'C1E' in x else 1, x))
        if not c:
            raise Unsupported(f'no function {name} in the extracted module')
        self.ctx.funcs.add(name)
        return c[0]

    def has(self, name):
        return bool(self.inv.get(name))

    def exec(self):
        ex = Exec(self.mod, self.lay)
        self.ctx.execs.append((self, ex))
        return ex


class Ctx:
    def __init__(self, seed, tier, section=''):
        self.work = Work()
        self.p = Prover(seed, tier)
        self.tier = tier
        self.seed = seed
        self.section = section
        self.funcs = set()
        self.srcs = set()
        self.execs = []
        self.assume = []

    def load(self, *a, **k):
        return Mod(self, *a, **k)

    def trust(self, s):
        if s not in self.assume:
            self.assume.append(s)


def run_section(name, fn, seed, tier, q):
    ctx = Ctx(seed, tier, name)
    t0 = time.time()
    err = None
    try:
        fn(ctx)
    except Unsupported as e:
        err = 'outside the verified subset: ' + str(e)[:600]
    except ExtractError as e:
        err = 'extraction failed: ' + str(e)[:1500]
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        err = 'engine error: ' + repr(e)[:300] + '\n' + traceback.format_exc()[-1500:]
    contracts = set()
    inl = set()
    loops = 0
    qt = 0.0
    for m, ex in ctx.execs:
        for c in ex.used_contracts:
            contracts.add(m.dem.get(c, c))
        for c in ex.inlined:
            inl.add(strip_params(m.dem.get(c, c)))
        loops += len(ex.loop_obl)
        qt += ex.qtime
    ctx.work.close()
    q.put({'section': name, 'error': err, 'rows': [o.row() for o in ctx.p.rows], 'funcs': sorted(ctx.funcs),
           'srcs': sorted(ctx.srcs), 'contracts_used': sorted(contracts), 'inlined': sorted(inl)[:60],
           'loop_summaries': loops, 'exec_solver_s': round(qt, 2), 'assume': ctx.assume, 'wall': round(time.time() - t0, 2)})


def run_sections(sections, seed, tier, budget):
    """each proof section in its own process, 6 at a time"""
    res = []
    todo = list(sections)
    live = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < 7:
            n, fn = todo.pop(0)
            q = mp.Queue()
            p = mp.Process(target=run_section, args=(n, fn, seed, tier, q))
            p.start()
            live.append((n, p, q, time.time()))
        nxt = []
        for n, p, q, ts in live:
            try:
                res.append(q.get(timeout=0.05))
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            except Exception:
                pass
            if not p.is_alive():
                try:
                    res.append(q.get(timeout=0.5))
                except Exception:
                    res.append({'section': n, 'error': f'section process died ({p.exitcode})', 'rows': [], 'funcs': [],
                                'srcs': [], 'contracts_used': [], 'inlined': [], 'loop_summaries': 0, 'exec_solver_s': 0,
                                'assume': [], 'wall': round(time.time() - ts, 2)})
                continue
            if time.time() - t0 > budget:
                p.kill()
                res.append({'section': n, 'error': 'time budget exhausted', 'rows': [], 'funcs': [], 'srcs': [],
                            'contracts_used': [], 'inlined': [], 'loop_summaries': 0, 'exec_solver_s': 0, 'assume': [],
                            'wall': round(time.time() - ts, 2)})
                continue
            nxt.append((n, p, q, ts))
        live = nxt
    return res


class Native:
    """a driver in /verif/native compiled together with the real sources"""

    def __init__(self, name, src, repo_srcs, cfg, flags=(), n=(400, 20000)):
        self.name = name
        self.src = src
        self.repo_srcs = repo_srcs
        self.cfg = cfg
        self.flags = list(flags)
        self.n = n


def run_native(work, d, seed, tier, pid):
    """-> dict(status ok|fail|unbuildable, out)"""
    t0 = time.time()
    inc = work.incs(d.cfg)
    exe = os.path.join(work.dir, re.sub(r'\W', '_', d.name))
    srcs = [os.path.join(VERIF, 'native', d.src)] + [os.path.join(REPO, s) for s in d.repo_srcs]
    objs = []
    procs = []
    for i, s in enumerate(srcs):
        o = f'{exe}.{i}.o'
        objs.append(o)
        procs.append(subprocess.Popen(['g++', '-std=c++17', '-w', '-O1', '-g0', '-fno-access-control', '-fopenmp', *d.flags,
                                       *inc, '-I' + os.path.join(VERIF, 'native'), '-c', s, '-o', o],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    bad = ''
    for p in procs:
        out, _ = p.communicate()
        if p.returncode:
            bad += out[:1500]
    if not bad:
        r = subprocess.run(['g++', '-fopenmp', *d.flags, *objs, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad = r.stdout[:1500]
    if bad:
        return {'driver': d.name, 'status': 'unbuildable', 'out': bad, 'wall': round(time.time() - t0, 2)}
    n = d.n[1] if tier == 'thorough' else d.n[0]
    try:
        r = subprocess.run([exe, str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=200 if tier == 'quick' else 1500, cwd=work.dir, env={**os.environ, 'OMP_NUM_THREADS': '1', **getattr(d, 'env', {})})
    except subprocess.TimeoutExpired:
        return {'driver': d.name, 'status': 'timeout', 'out': '', 'wall': round(time.time() - t0, 2)}
    out = r.stdout[-6000:]
    st = 'ok' if r.returncode == 0 else 'fail' if (r.returncode == 1 and 'FAIL ' in out) else 'crash'
    m = re.search(r'cases=(\d+)', out)
    return {'driver': d.name, 'status': st, 'rc': r.returncode, 'out': out, 'cases': int(m.group(1)) if m else 0,
            'wall': round(time.time() - t0, 2)}


def known(pid):
    try:
        return [k for k in json.load(open(KNOWN)).get('findings', []) if k['property'] == pid]
    except FileNotFoundError:
        return []


def main(pid, mod, tier, seed):
    t0 = time.time()
    budget = 600 if tier == 'quick' else 3000
    sections = mod.sections(tier)
    natives = mod.natives(tier) if hasattr(mod, 'natives') else []
    work = Work()
    try:
        from concurrent.futures import ThreadPoolExecutor
        for d in natives:
            work.incs(d.cfg)
        pool = ThreadPoolExecutor(4)
        futs = [pool.submit(run_native, work, d, seed, tier, pid) for d in natives]
        res = run_sections(sections, seed, tier, budget)
        nat = [f.result() for f in futs]
    finally:
        work.close()
    rows = [dict(r, section=s['section']) for s in res for r in s['rows']]
    errs = [(s['section'], s['error']) for s in res if s['error']]
    refuted = [r for r in rows if r['status'] == 'refuted']
    unknown = [r for r in rows if r['status'] == 'unknown']
    proved = [r for r in rows if r['status'] == 'proved']
    nfail = []
    for n in nat:
        if n['status'] == 'fail':
            for ln in n['out'].split('\n'):
                if ln.startswith('FAIL '):
                    nfail.append((n['driver'], ln[5:]))
        elif n['status'] == 'crash':
            nfail.append((n['driver'], f'crash rc={n["rc"]} ' + n['out'][-300:].replace('\n', ' | ')))
    kn = known(pid)
    hit = set()

    def is_known(txt):
        for k in kn:
            if re.search(k['match'], txt):
                hit.add(k['id'])
                return True
        return False
    refuted_new = [r for r in refuted if not is_known('obligation ' + r['section'] + ' ' + r['obligation'])]
    nfail_new = [f for f in nfail if not is_known('native ' + f[0] + ' ' + f[1])]
    verdict = 0
    replay = None
    if refuted_new or nfail_new:
        verdict = 1
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, f'{pid}.json')
        json.dump({'property': pid, 'failed_obligations': refuted_new, 'failing_inputs': nfail_new[:20],
                   'drivers': [n for n in nat if n['status'] not in ('ok',)],
                   'how_to_replay': f'VERIF_SEED={seed} python3-vt {VERIF}/check.py {pid} {tier}'}, open(replay, 'w'), indent=1)
    trusted = list(getattr(mod, 'TRUSTED', []))
    for s in res:
        for a in s['assume']:
            if a not in trusted:
                trusted.append(a)
    by = {}
    for r in proved:
        by[r['backend']] = by.get(r['backend'], 0) + 1
    full = not errs and not unknown and not refuted
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL if full or not hasattr(mod, 'LEVEL_PARTIAL') else mod.LEVEL_PARTIAL,
          'coverage': {
              'obligations': len(rows), 'discharged': len(proved), 'refuted': len(refuted), 'unknown': len(unknown),
              'discharged_by': by, 'solver_s': round(sum(r['seconds'] for r in rows) + sum(s['exec_solver_s'] for s in res), 2),
              'checker_cmd': f'python3-vt {VERIF}/check.py {pid} {tier}',
              'trusted_base': BASE_TRUST,
              'functions_under_contract': sorted({f for s in res for f in s['funcs']}),
              'callee_contracts_used': sorted({c for s in res for c in s['contracts_used']}),
              'callees_inlined': sorted({c for s in res for c in s['inlined']})[:80],
              'loop_summaries': sum(s['loop_summaries'] for s in res),
              'sources': sorted({f for s in res for f in s['srcs']}),
              'undischarged': [{'section': a, 'why': b[:800]} for a, b in errs] +
                              [{'section': r['section'], 'why': 'obligation not decided: ' + r['obligation']} for r in unknown],
              'bounded_native': [{'driver': n['driver'], 'status': n['status'], 'cases': n.get('cases', 0), 'wall_s': n['wall'],
                                  **({'out': n['out'][-600:]} if n['status'] != 'ok' else {})} for n in nat],
              'obligation_list': [{k: r[k] for k in ('section', 'obligation', 'function', 'status', 'backend', 'seconds')} for r in rows][:400],
          },
          'assumptions': trusted + GEN_ASSUME, 'wall_s': round(time.time() - t0, 1),
          'violations': len(refuted_new) + len(nfail_new)}
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} {tier}: {len(proved)}/{len(rows)} obligations discharged, {len(unknown)} undecided, {len(refuted)} refuted, '
          f'{len(errs)} sections outside reach; native {[(n["driver"], n["status"]) for n in nat]}; {ev["wall_s"]} s')
    for a, b in errs:
        print(f'  UNDISCHARGED {a}: {b[:1800] if os.environ.get("VERIF_DEBUG") else b[:200]}')
    for r in unknown:
        print(f'  UNDECIDED {r["section"]}: {r["obligation"]}')
    for r in refuted:
        print(f'  REFUTED {r["section"]}: {r["obligation"]} [{r["function"]}] {r.get("detail", "")[:120]}' +
              (' ' + str(r.get('model'))[:int(os.environ['VERIF_DEBUG'])] if os.environ.get('VERIF_DEBUG') else ''))
    for n in nat:
        if n['status'] != 'ok':
            print(f'  NATIVE {n["driver"]}: {n["status"]} {n["out"][-700:]}')
    for k in kn:
        if k['id'] in hit:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if verdict:
        tail = '' if nfail_new else ' no-failing-input-found'
        print(f'VIOLATION property={pid} replay={replay}{tail}')
    return verdict


BASE_TRUST = [
    'clang 18 front end (with -disable-llvm-passes) and the opt passes sroa, early-cse, simplifycfg, instsimplify, inline, dce, '
    'loop-simplify, lcssa',
    'the symbolic executor and normal-form checker in /verif/engine', 'z3, cvc5']
GEN_ASSUME = [
    'double arithmetic is treated as real arithmetic (rounding, overflow, NaN ignored); a literal is read as the simplest rational '
    'within 3 ulp or a rational multiple of pi',
    'machine integers are treated as mathematical integers (no wrap-around)',
    'objects named by distinct paths of the data structure do not alias (separation precondition); pointers are valid',
    'denominators occurring in the code are non-zero on the considered inputs',
    'OpenMP directives are dropped: the sequential semantics is verified',
    'exceptions are not modelled; LOG_S(FATAL) does not return']
