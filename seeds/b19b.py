ID, PROP = 'B19b', 'C19'
NEEDS = 'a wall on the far radial edge and none on the near longitudinal one (or the other way round)'
BREAKS = 'the electric field is advanced inside the wall (or not next to it): the range of the update is taken from another wall'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', 'if (geometry->walls[2]) // r=r', 'if (geometry->walls[1] || geometry->walls[2]) // r=r')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c19.cpp', 'smb.hpp']
DEMO = '#include "c19.cpp"\n'
