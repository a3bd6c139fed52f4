ID, PROP = 'B06', 'C06'
NEEDS = 'a relativistic particle in a magnetic field with the electric kick comparable to its momentum'
BREAKS = 'the rotation uses the Lorentz factor of the momentum before the half electric kick'
EDITS = [('src/pusher/pusherBoris.cpp', '''        sq_velocity = velocity.length2();
        gamma = phys::rel::lorenz_factor_inv(sq_velocity);
        b *= gamma;''', '''        gamma = 1. / gamma;
        b *= gamma;''')]
FILES = ('c06.cpp',)
SRCS = ['src/phys/rel.cpp', 'src/algo/common.cpp', 'src/maxwellSolver/maxwellSolverYee.cpp', 'src/pusher/pusherBoris.cpp']
DEMO = '#include "c06.cpp"\n'
