ID, PROP = 'B03', 'C03'
NEEDS = 'at least two domains along both axes, whole-step and half-step magnetic fields that differ near a corner where four domains meet'
BREAKS = 'the magnetic field used by the electric update receives the particle-time field of the diagonal neighbour'
EDITS = [('src/SMB.cpp', 'sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);',
          'sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h);')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c03.cpp', 'smb.hpp']
DEMO = '#include "c03.cpp"\n'
