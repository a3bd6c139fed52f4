ID, PROP = 'B21', 'C21'
NEEDS = 'a species whose density falls or grows along z, in a domain at the outer longitudinal wall'
BREAKS = 'the weights are computed for the whole length of the domain although the last cell at the wall is left empty, so the plasma is too dense there'
EDITS = [('src/specieP.cpp', """  if (geometry->walls[2]) r_size -= dr;
  if (geometry->walls[3]) z_size -= dz;

  double v_sum = 0;""", """  if (geometry->walls[2]) r_size -= dr;
  if (geometry->walls[3] && density[0] == density[1]) z_size -= dz;

  double v_sum = 0;""")]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c21.cpp', 'specie.hpp')
DEMO = '#define SCHEME 0\n#define SPEED 0\n#include "c21.cpp"\n'
