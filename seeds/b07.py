ID, PROP = 'B07', 'C07'
NEEDS = 'the kinetic energy of a fast particle computed from its momentum (mass not 1)'
BREAKS = 'the relativistic threshold compares squared momentum with mass, not squared mass, so fast light particles get the Newtonian energy'
EDITS = [('src/phys/rel.cpp', 'momentum_2 > REL_LIMIT_POW_2 * mass * mass', 'momentum_2 > REL_LIMIT_POW_2 * mass')]
FILES = ('c07.cpp',)
SRCS = ['src/phys/rel.cpp', 'src/algo/common.cpp']
DEMO = '#include "c07.cpp"\n'
