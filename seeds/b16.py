ID, PROP = 'B16', 'C16'
NEEDS = 'a column probe and a block divided along the radius'
BREAKS = 'a column probe of the outer domain is written over the values of the inner one: the place along the column forgets the offset of the domain when the window starts before it'
EDITS = [('src/outController.cpp', """            eff_engine_offset.push_back(eff_prb_size[0] + dmn->geometry.cell_dims[0] - prb->dims[0]);""", """            eff_engine_offset.push_back(prb->shape == 1 ? eff_prb_size[0] : eff_prb_size[0] + dmn->geometry.cell_dims[0] - prb->dims[0]);""")]
SRCS = ['src/SMB.cpp', 'src/domain.cpp', 'src/specieP.cpp', 'src/beamP.cpp', 'src/current/currentVB.cpp', 'src/pusher/pusherBoris.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp',
        'src/phys/rel.cpp', 'src/phys/plasma.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp',
        'src/outController.cpp', 'src/outWriter.cpp', 'src/outEngine/outEngineHDF5.cpp', 'src/msg.cpp']
FILES = ['c16.cpp', 'smb.hpp']
DIRS = ['stubs_h5']
DEMO = '#include "c16.cpp"\n'
