ID, PROP = 'B19', 'C19'
NEEDS = 'an absorbing layer behind the far longitudinal edge and more than one domain along the axis'
BREAKS = 'conductivity profile of the far longitudinal layer depends on the division into domains (the offset of the domain is forgotten)'
EDITS = [('src/maxwellSolver/maxwellSolverYee.cpp', 'pow(cell_size_z * (k + 1) + longitudinal_cell_offset', 'pow(cell_size_z * (k + 1)')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c19.cpp', 'smb.hpp']
DEMO = '#include "c19.cpp"\n'
