ID, PROP = 'B11', 'C11'
NEEDS = 'a particle which crosses a radial and a longitudinal cell border in one step (inwards and backwards), longitudinal border first'
BREAKS = 'the middle segment of a ten-node move is deposited in the wrong cell'
EDITS = [('src/current/currentVB.cpp', '''                simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);''', '''                simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                simple_current_distribution(r1, z1, r2, z2,i_n, k_n + 1, p_charge);''')]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp', 'src/current/currentVB.cpp']
FILES = ('c11.cpp', 'specie.hpp')
DEMO = '#include "c11.cpp"\n'
