#!/usr/bin/env python3
"""Random one-token mutants of the functions a property is anchored in, each in
a scratch copy; prints the mutants the check of the property does not see.
usage: mutate.py N SEED [PROP...]"""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, S, D = 'src/SMB.cpp', 'src/specieP.cpp', 'src/domain.cpp'
G, G3, W = 'include/algo/grid.hpp', 'include/algo/grid3d.hpp', 'include/algo/weighter.hpp'
Y, MS, VB = 'src/maxwellSolver/maxwellSolverYee.cpp', 'include/maxwellSolver.hpp', 'src/current/currentVB.cpp'
RANGES = {   # property: (file, first line matching, line before match of)
 'C01': [(G, r'void set\(', r'void overlay_y'), (G, r'void copy', r'get_grid'), (G3, r'void overlay_set', r'^#endif')],
 'C02': [(G, r'void overlay_y', r'void copy'), (G3, r'void overlay_x', r'void overlay_set')],
 'C03': [(B, r'SMB::current_overlay', r'#ifdef ENABLE_MPI'), (B, r'SMB::field_h_overlay', r'#ifdef ENABLE_MPI'), (B, r'SMB::field_e_overlay', r'#ifdef ENABLE_MPI')],
 'C04': [(B, r'^SMB::SMB', r'ifdef ENABLE_EXTERNAL'), ('include/geometry.hpp', r'size = _size', r'dist_x_to_end'), (S, r'^SpecieP::SpecieP', r'^void SpecieP::'), (D, r'^Domain::Domain', r'void Domain::distribute'), ('src/beamP.cpp', r'^BeamP::BeamP', r'^void BeamP')],
 'C05': [(B, r'SMB::particles_runaway_collector', r'#ifdef ENABLE_MPI'), (B, r'#endif // ENABLE_MPI', r'if \(j_c > 0\)', 'SMB::particles_runaway')],
 'C06': [('src/pusher/pusherBoris.cpp', r'::operator', r'^}'), ('src/pusher/pusherVay.cpp', r'::operator', r'^}'), ('src/pusher/pusherHC.cpp', r'::operator', r'^}')],
 'C07': [('src/phys/rel.cpp', r'double lorenz_factor ', r'^}'), ('src/algo/common.cpp', r'sq_rt', r'^  }')],
 'C08': [(S, r'::mover_cyl', r'::reflect'), (S, r'::back_position_to_rz', r'::calc_density')],
 'C09': [(S, r'::reflect', r'::back_position_to_rz')],
 'C10': [(W, r'void weight_cyl', r'^#endif'), (S, r'::calc_density', r'::calc_temperature')],
 'C11': [(VB, r'::simple_current_distribution', r'^XX')],
 'C12': [(Y, r'::calc_field_h', r'::calc_field_e')],
 'C13': [(Y, r'::calc_field_e', r'isnan'), (Y, r'emulate dielectric', r'ifdef ENABLE_PML')],
 'C14': [(MS, r'double> get_field_h\(double radius, double longitude\)$', r'^#endif')],
 'C15': [(B, r'::solve_maxvell', r'^XX'), (D, r'::distribute', r'^XX'), ('src/PiCoPiC.cpp', r'shared_mem_blk.distribute', r'while \(lock_')],
 'C16': [('src/outController.cpp', r'initialize probes', r'^XX'), ('src/outWriter.cpp', r'OutWriter::OutWriter', r'^XX'), ('src/outEngine/outEngineHDF5.cpp', r'::write_rec', r'catch \(FileEx'), ('src/outEngine/outEngineHDF5.cpp', r'::extend_dataset', r'catch')],
 'C17': [('include/math/vector3d.hpp', r'vector3d\(\) //', r'vector3d pow')],
 'C18': [(S, r'::calc_temperature', r'^XX'), ('src/phys/rel.cpp', r'energy_m', r'^XX')],
 'C19': [(MS, r'void constructor', r'^public'), (Y, r'::set_pml', r'::calc_field_h'), ('include/current.hpp', r'Current \(', r'^XX'), (Y, r'^MaxwellSolverYee::MaxwellSolverYee', r'emulate')],
 'C20': [('src/current/currentZigZag.cpp', r'::current_distribution', r'^XX'), ('include/current/currentZigZag.hpp', r'RELAY_POINT', r'^XX')],
 'C21': [(S, r'::fullyfill_spatial', r'::linear_spatial'), (S, r'::rectangular_spatial_distribution', r'::eigen_directed')],
 'C22': [('src/beamP.cpp', r'^BeamP::BeamP', r'^XX')],
 'C23': [('src/collisions/collisionsTA77S.cpp', r'^void CollisionsTA77S::collide_single', r'^XX'), ('src/collisions.cpp', r'^void Collisions::clear', r'^void Collisions::operator')],
 'C25': [('src/maxwellSolver/externalFields.cpp', r'^ExternalFields::ExternalFields', r'^void ExternalFields::set_pml'), ('src/maxwellSolver/externalFields.cpp', r'^void ExternalFields::set_el', r'^XX'), ('src/cfg.cpp', r'init_external_fields\(\)$', r'LOG_S')],
 'C24': [('src/cfg.cpp', r'void Cfg::init_particles', r'bool Cfg::method_lim')],
}
SWAPS = [(r'(?<=[\w\)\]] )\+(?= [\w\(])', '-'), (r'(?<=[\w\)\]] )-(?= [\w\(])', '+'), (r'(?<=[\w\)\]] )\*(?= [\w\(\-])', '/'),
         (r'(?<=[\w\)\]] )/(?= [\w\(])', '*'), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' == ', ' != '), (r' != ', ' == '), (r'&&', '||'), (r'\|\|', '&&'),
         (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'/=', '*='),
         (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\[1\]', '[2]'), (r'\[2\]', '[1]'), (r'\[2\]', '[0]'), (r'\[3\]', '[2]'), (r'\[3\]', '[1]'),
         (r'\((?=[012], )0', '(1'), (r'\(1(?=, )', '(2'), (r'\(2(?=, )', '(0'),
         (r'\+ ?1\b(?!\.)', '+ 0'), (r'- ?1\b(?!\.)', '- 0'), (r'\b0\.5\b', '0.25'), (r'\b2\.? ?(?=\*)', '4. '), (r'/ 2\.?', '/ 4.'),
         (r'\b(i|k|j)\b \+ 1', r'\1'), (r'\bdr\b', 'dz'), (r'\bdz\b', 'dr'), (r'true', 'false'), (r'false', 'true'),
         (r'_r\b', '_z'), (r'_z\b', '_r'), (r'_old\b', '_new'), (r'_new\b', '_old'), (r'_R\b', '_Z'), (r'_Z\b', '_R'), (r'_PHI\b', '_Z'), (r'r1', 'r2'), (r'r2', 'r3'), (r'dz1', 'dz2'), (r'vol_1', 'vol_2'), (r'v_1', 'v_2'),
         (r'\bi_n\b', 'i_o'), (r'\bi_o\b', 'i_n'), (r'= 0;', '= 1;'), (r'= -', '= '), (r'overlay_x\b', 'overlay_y'), (r'overlay_y\b', 'overlay_x'), (r'\.inc\(', '.dec('), (r'\.dec\(', '.inc('), (r'\.set\(', '.inc('), (r'\.inc\(', '.set(')]

def mutants(prop):
    out = []
    for rg in RANGES[prop]:
        f, a, b = rg[:3]
        L = open('/repo/' + f).read().split('\n')
        s = 0
        if len(rg) > 3:
            s = next(i for i, l in enumerate(L) if re.search(rg[3], l))
        s = next(i for i in range(s, len(L)) if re.search(a, L[i]))
        e = next((i for i in range(s + 1, len(L)) if re.search(b, L[i])), len(L))
        for i in range(s, e):
            l = L[i]
            c = l.split('//')[0]
            if 'LOG_S' in c or '<<' in c or not c.strip() or c.strip().startswith('#') and 'define' not in c:
                continue
            for p, q in SWAPS:
                for m in re.finditer(p, c):
                    n = c[:m.start()] + m.expand(q) + c[m.end():]
                    if n != c:
                        out.append((f, i, l, n + l[len(c):]))
            if re.match(r'^\s+[\w\.\->\[\]\(\)\*]+.*;\s*$', c) and not re.match(r'^\s+(unsigned|int|double|bool|auto|T|Domain|SpecieP|size_t|vector\S*|const|return|Geometry|BeamP|string) ?[\*\w]', c) and L[i - 1].strip().endswith((';', '{', '}', ')', '')) :
                if c.count('(') == c.count(')'):
                    out.append((f, i, l, re.match(r'\s*', c).group() + ';'))
    return out

def run(args):
    prop, k, (f, i, old, new) = args
    d = f'/tmp/mu.{prop}.{k}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    p = d + '/' + f
    L = open(p).read().split('\n')
    L[i] = new
    open(p, 'w').write('\n'.join(L))
    try:
        r = subprocess.run(['nice', '-n', '10', 'timeout', '880', 'python3-vt', V + '/check.py', prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d), cwd=V)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
    how = 'none' if r.returncode == 0 else 'rc%d' % r.returncode if r.returncode != 1 else \
        'proof' if v and v[0].endswith('no-failing-input-found') else 'replay'
    last = (r.stdout.strip().splitlines() or [''])[-1]
    return prop, how, f, i + 1, old.strip(), new.strip(), last[:160]

N, seed = int(sys.argv[1]), int(sys.argv[2])
props = sys.argv[3:] or list(RANGES)
jobs = []
for p in props:
    ms = mutants(p)
    random.Random(f'{seed}{p}').shuffle(ms)
    jobs += [(p, k, m) for k, m in enumerate(ms[:N])]
stat = {}
with ThreadPoolExecutor(int(os.environ.get('MU_JOBS', '2'))) as ex:
    for r in ex.map(run, jobs):
        stat.setdefault(r[0], {}).setdefault(r[1], 0)
        stat[r[0]][r[1]] += 1
        print(('SURVIVED ' if r[1] == 'none' else 'caught   ') + ' | '.join(map(str, r)), flush=True)
for p in stat:
    print(p, stat[p])
