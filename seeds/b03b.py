ID, PROP = 'B03b', 'C03'
NEEDS = 'two or more domains along the radius and more than one along the axis'
BREAKS = 'the last column of domains never exchanges electric field with its radial neighbours'
EDITS = [("src/SMB.cpp", 'void SMB::field_e_overlay ()\n{\n  for (unsigned int idx = 0; idx < 2; ++idx)\n    for (unsigned int idy = 0; idy < 2; ++idy)\n    {\n#pragma omp parallel for\n      for (unsigned int i = idx; i < r_domains; i+=2)\n        for (unsigned int j = idy; j < z_domains; j+=2)\n        {\n          ', 'void SMB::field_e_overlay ()\n{\n  for (unsigned int idx = 0; idx < 2; ++idx)\n    for (unsigned int idy = 0; idy < 2; ++idy)\n    {\n#pragma omp parallel for\n      for (unsigned int i = idx; i < r_domains; i+=2)\n        for (unsigned int j = idy; j + 1 < z_domains; j+=2)\n        {\n          ')]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
FILES = ['c03.cpp', 'smb.hpp']
DEMO = '#include "c03.cpp"\n'
