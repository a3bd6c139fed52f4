ID, PROP = 'B04b', 'C04'
NEEDS = 'different amounts of domains along r and z'
BREAKS = 'the right wall is put on a wrong column of domains, or nowhere'
EDITS = [('src/SMB.cpp', 'if (j == z_domains - 1)\n        wall_zz', 'if (j == r_domains - 1)\n        wall_zz')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c04.cpp', 'smb.hpp']
DEMO = '#include "c04.cpp"\n'
