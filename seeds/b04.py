ID, PROP = 'B04', 'C04'
NEEDS = 'an amount of radial domains that does not divide the amount of cells'
BREAKS = 'domains no longer tile the block: some rows of cells belong to no domain'
EDITS = [('src/SMB.cpp', 'size_t top_r = (size_t)(geometry->cell_amount[0] * (i + 1) / r_domains', 'size_t top_r = (size_t)(geometry->cell_amount[0] / r_domains * (i + 1)')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c04.cpp', 'smb.hpp']
DEMO = '#include "c04.cpp"\n'
