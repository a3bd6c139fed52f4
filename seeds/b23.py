ID, PROP = 'B23', 'C23'
NEEDS = 'a collision of two particles of different weight'
BREAKS = 'the heavier particle of a pair keeps neither the relative speed nor, on average, the momentum'
EDITS = [('src/collisions/collisionsTA77S.cpp', 'double cos_Theta2 = 1 - w_ratio * (1 - cos_Theta);', 'double cos_Theta2 = 1 - w_ratio * w_ratio * (1 - cos_Theta);')]
SRCS = ['src/collisions.cpp', 'src/collisions/collisionsTA77S.cpp', 'src/phys/plasma.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c23.cpp', 'specie.hpp')
FLAGS = ['-fno-access-control']
DEMO = '#include "c23.cpp"\n'
