ID, PROP = 'B25b', 'C25'
NEEDS = 'both external fields configured with different amplitudes'
BREAKS = 'the magnetic field gets the amplitude of the electric one'
EDITS = [('src/SMB.cpp', 'cfg->external_fields[1].params);', 'cfg->external_fields[0].params);')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp', 'src/maxwellSolver/externalFields.cpp', 'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c25b.cpp', 'smb.hpp']
CFG = {'ENABLE_EXTERNAL_FIELDS': 'true'}
DEMO = '#include "c25b.cpp"\n'
