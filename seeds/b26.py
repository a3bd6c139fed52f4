ID, PROP = 'B26', 'C26'
NEEDS = 'a pair of different masses, the second one deflected (P12)'
BREAKS = 'the second particle is brought back to the laboratory with the energy of the first: momentum and energy of the pair change'
EDITS = [('src/collisions/collisionsP12.cpp', 'p_b_prime += beta_cm * gamma_cm * p0_b_cm;', 'p_b_prime += beta_cm * gamma_cm * p0_a_cm;')]
SRCS = ['src/collisions.cpp', 'src/collisions/collisionsP12.cpp', 'src/phys/plasma.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c26.cpp', 'specie.hpp')
DEMO = '#define P12\n#include "c26.cpp"\n'
