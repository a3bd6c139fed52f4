ID, PROP = 'B21b', 'C21'
NEEDS = 'the flat placement, a domain with different densities at both ends'
BREAKS = 'the longitudinal position of a particle divides the profile of the mirrored density, so the plasma is dense where it should be thin'
EDITS = [('src/specieP.cpp', """      P_POS_Z((*n)) = z_size / dn
        * (algo::common::sq_rt(pow(dl, 2) + rand_z * (2 * dl * dn + pow(dn, 2))) - dl);""", """      P_POS_Z((*n)) = z_size / dn
        * (density[1] - algo::common::sq_rt(pow(density[1], 2) - rand_z * (2 * dl * dn + pow(dn, 2))));""")]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c21.cpp', 'specie.hpp')
DEMO = '#define SCHEME 0\n#define SPEED 0\n#include "c21.cpp"\n'
