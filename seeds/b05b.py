ID, PROP = 'B05b', 'C05'
NEEDS = 'two species with equal mass'
BREAKS = 'a particle that changes domain is duplicated into every species of equal mass'
EDITS = [("src/SMB.cpp", 'if ((**pd).id == (**ps).id)', 'if ((**pd).mass == (**ps).mass)')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c05.cpp', 'smb.hpp']
DEMO = '#include "c05.cpp"\n'
