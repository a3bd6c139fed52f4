ID, PROP = 'B10', 'C10'
NEEDS = 'a particle within half a cell of the axis, in the upper half of its longitudinal cell'
BREAKS = 'the axis branch splits the weight along z by the lower share twice, so weight is not conserved there'
EDITS = [('include/algo/weighter.hpp', 'value = constant::PI * dz2 * (dr * dr / 2. - pos_r * dr + pos_r * pos_r) / v_1;', 'value = constant::PI * dz1 * (dr * dr / 2. - pos_r * dr + pos_r * pos_r) / v_1;')]
SRCS = ['src/specieP.cpp', 'src/phys/rel.cpp', 'src/algo/common.cpp', 'src/math/rand.cpp', 'src/math/maxwellJuettner.cpp']
DEMO = r'''
#include "specie.hpp"
#include "algo/weighter.hpp"
void one_case(long n)
{
  SW W = sworld(0);
  Grid<double> g(W.nr, W.nz, 2);
  for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) g.get_grid()[i][k] = 0;
  double r = W.c0 == 0 && I(0, 1) ? W.dr * U(.01, .5) : (W.c0 + U(0.01, W.nr)) * W.dr, z = (W.c1 + U(0, W.nz)) * W.dz, s = 0;
  weight_cylindrical<double>(W.g, &g, r, z, 5.);
  for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k)
    s += g.get_grid()[i][k] * M_PI * W.dz * W.dr * W.dr * (2 * (i - 2 + W.c0) + 1);
  CHECK(close(s, 5, 1, 1e-7), "deposited %g of 5 at r/dr=%g", s, r / W.dr);
}
'''
