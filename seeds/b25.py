ID, PROP = 'B25', 'C25'
NEEDS = 'external fields, and a domain with a wall at its far end but none at its near end (or the other way round)'
BREAKS = 'the last column of cells before a neighbouring domain is left without external field, and the wall at the far end is filled'
EDITS = [('src/maxwellSolver/externalFields.cpp', 'if (geometry->walls[3]) // z=z', 'if (geometry->walls[1]) // z=z')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp', 'src/maxwellSolver/externalFields.cpp', 'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c25b.cpp', 'smb.hpp']
CFG = {'ENABLE_EXTERNAL_FIELDS': 'true'}
DEMO = '#include "c25b.cpp"\n'
