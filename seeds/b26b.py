ID, PROP = 'B26b', 'C26'
NEEDS = 'a cell with more ions than electrons whose numbers do not divide (SK98)'
BREAKS = 'ions behind the first group never meet an electron, those of the first group meet two'
EDITS = [('src/collisions/collisionsSK98.cpp', '(*map_ion2cell(i, j)[fgi+ions_1st_group]),\n                         density_el, density_ion,\n                         debye);\n        }\n      }\n      // TA77: case 2b. electrons-ions\n      if (vec_size_ions < ', '(*map_ion2cell(i, j)[fgi]),\n                         density_el, density_ion,\n                         debye);\n        }\n      }\n      // TA77: case 2b. electrons-ions\n      if (vec_size_ions < ')]
SRCS = ['src/collisions.cpp', 'src/collisions/collisionsSK98.cpp', 'src/phys/plasma.cpp', 'src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c26.cpp', 'specie.hpp')
DEMO = '#define SK98\n#include "c26.cpp"\n'
