ID, PROP = 'B08', 'C08'
NEEDS = 'a second step of a particle with azimuthal velocity'
BREAKS = 'the azimuthal displacement is not taken back after a step, so it is counted again in the following one'
EDITS = [('src/specieP.cpp', '    P_POS_R((**p)) = r;\n    P_POS_PHI((**p)) = 0;\n', '    P_POS_R((**p)) = r;\n')]
FILES = ('c08.cpp', 'specie.hpp')
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/maxwellJuettner.cpp', 'src/math/rand.cpp']
DEMO = '#include "c08.cpp"\n'
