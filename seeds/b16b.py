ID, PROP = 'B16b', 'C16'
NEEDS = 'a rectangular probe of density and a block divided along the axis only'
BREAKS = 'densities of particles near a border between domains along the axis are not completed by the neighbour: the exchange compares with the number of domains along the radius'
EDITS = [('src/outController.cpp', 'if (j < geometry->domains_amount[1] - 1)', 'if (j < geometry->domains_amount[1] - 1 && geometry->domains_amount[0] > 1)')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp',
        'src/outController.cpp', 'src/outWriter.cpp', 'src/outEngine/outEngineHDF5.cpp', 'src/msg.cpp']
FILES = ['c16.cpp', 'smb.hpp']
DIRS = ['stubs_h5']
DEMO = '#include "c16.cpp"\n'
