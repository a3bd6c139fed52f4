ID, PROP = 'B15b', 'C15'
NEEDS = 'a simulation with a second particle species'
BREAKS = 'particles of all species but the first start without valid cell numbers'
EDITS = [('src/domain.cpp', '''    (**i).bind_cell_numbers(); // calculate cell numbers at initial state
''', '''    if (i == species_p.begin())
      (**i).bind_cell_numbers(); // calculate cell numbers at initial state
''')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c15.cpp', 'smb.hpp']
DEMO = '#include "c15.cpp"\n'
