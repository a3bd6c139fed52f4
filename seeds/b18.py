ID, PROP = 'B18', 'C18'
NEEDS = 'an energy diagnostic taken after particles moved since the last density diagnostic'
BREAKS = 'the energy map is normalised by a stale density map'
EDITS = [('src/specieP.cpp', """  // calculate density initially
  calc_density();
  calc_momentum_abs_w();

  for (int r = 0; r < geometry->cell_amount[0]; r++)
    for (int z = 0; z < geometry->cell_amount[1]; z++)
    {
      double density_local = density_map(r, z);
""", """  // calculate density initially
  calc_momentum_abs_w();

  for (int r = 0; r < geometry->cell_amount[0]; r++)
    for (int z = 0; z < geometry->cell_amount[1]; z++)
    {
      double density_local = density_map(r, z);
""")]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
FILES = ('c18.cpp',)
DEMO = '#include "c18.cpp"\n'
