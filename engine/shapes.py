"""Heap shapes (representation predicates) for PicoPIC's classes.

Fields are named as in the source; offsets come from the layout probe."""
from sym import *

PARTICLE = dict(pos_r=F64, pos_phi=F64, pos_z=F64, pos_old_r=F64, pos_old_phi=F64, pos_old_z=F64,
                vel_r=F64, vel_phi=F64, vel_z=F64, weight=F64, sin=F64, cell_r=U64, cell_z=U64, mark=U64,
                specie_id=U16)
GRID = dict(grid=PTR(DYN(PTR(DYN(F64)))), o_s=U32, x_real_size=U32, y_real_size=U32, x_size=U32, y_size=U32)
GRID3 = dict(r_component=STRUCT('Grid'), phi_component=STRUCT('Grid'), z_component=STRUCT('Grid'))
GEOM = dict(size=VEC(F64), global_size=VEC(F64), cell_size=VEC(F64), cell_dims=VEC(U64), cell_amount=VEC(U64),
            global_cell_amount=VEC(U64), domains_amount=VEC(U64), walls=VECB, pml_size=VEC(U64), pml_sigma=VEC(F64))
TIME = dict(start=F64, current=F64, step=F64, end=F64)
G = lambda: PTR(STRUCT('Geometry'), 'geometry')
T = lambda: PTR(STRUCT('TimeSim'), 'time')
SPECIE = dict(__vptr=VPTR('@_ZTV7SpecieP'), id=U16, name=STR, macro_amount=U32, density=ARR(F64, 2), charge=F64,
              mass=F64, particles=VEC(PTR(STRUCT('Particle'))), geometry=G(), time=T(), temperature=F64,
              density_map=STRUCT('Grid'), temperature_map=STRUCT('Grid'), energy_map=STRUCT('Grid'),
              momentum_abs_map_w=STRUCT('Grid'), momentum_map_w=STRUCT('Grid3D'), momentum_map=STRUCT('Grid3D'),
              count=STRUCT('Grid'), start_time=F64, bunch_length=F64, bunches_distance=F64, current_bunch_number=U32,
              velocity=I32)
CXX = {'Particle': 'Particle', 'Grid': 'Grid<double>', 'Grid3D': 'Grid3D<double>', 'Geometry': 'Geometry',
       'TimeSim': 'TimeSim', 'SpecieP': 'SpecieP'}
DEFS = {'Particle': PARTICLE, 'Grid': GRID, 'Grid3D': GRID3, 'Geometry': GEOM, 'TimeSim': TIME, 'SpecieP': SPECIE}


def make_layout(work, cfg, headers, names, extra=None):
    defs = {n: DEFS[n] for n in names}
    cxx = {n: CXX.get(n, n) for n in names}
    for n, d in (extra or {}).items():
        cx, fields = d
        defs[n] = fields
        cxx[n] = cx
    pr = work.layout(cfg, headers, {n: (cxx[n], list(f)) for n, f in defs.items()})
    out = {}
    for n, f in defs.items():
        size, offs = pr[n]
        fl = []
        for fn, sh in f.items():
            if fn == '__vptr':
                fl.append((0, fn, sh))
        for o, fn in offs:
            fl.append((o, fn, f[fn]))
        out[n] = (size, sorted(fl, key=lambda t: t[0]))
    return Layout(out)
