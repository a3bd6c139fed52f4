ID, PROP = 'B23b', 'C23'
NEEDS = 'a cell with exactly five particles of one kind'
BREAKS = 'the fourth and fifth particle never meet another of their kind'
EDITS = [('src/collisions/collisionsTA77S.cpp', 'if (vec_size_electrons >= 5)', 'if (vec_size_electrons > 5)')]
SRCS = ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/phys/plasma.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c23.cpp', 'specie.hpp')
FLAGS = ['-fno-access-control']
DEMO = '#include "c23.cpp"\n'
