ID, PROP = 'B05', 'C05'
NEEDS = 'a particle that leaves its domain through a corner, two or more domains along both axes'
BREAKS = 'a particle that moves diagonally stays in the list of the domain it left'
EDITS = [("src/SMB.cpp", 'else if (i_dst != i || j_dst != j) //', 'else if ((i_dst != i) != (j_dst != j)) //')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c05.cpp', 'smb.hpp']
DEMO = '#include "c05.cpp"\n'
