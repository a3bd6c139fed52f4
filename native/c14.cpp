#include "yee.hpp"
static double ref(Grid<double> &g, int hr, int hz, double r, double z, const World &W)
{
  double x = r / W.dr - .5 * hr, y = z / W.dz - .5 * hz; int i = (int)floor(x), k = (int)floor(y);
  double cut = (i + (hr ? 1 : .5)) * W.dr, lo = r - W.dr/2, hi = r + W.dr/2, q = W.dr * W.dr;
  double wr[2] = {(cut*cut - lo*lo) / (q * (2*i + 1 + hr)), (hi*hi - cut*cut) / (q * (2*(i+1) + 1 + hr))}, wz[2] = {k + 1 - y, y - k}, s = 0;
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) s += wr[a] * wz[b] * g.get_grid()[i - W.c0 + a + 2][k - W.c1 + b + 2];
  return s;
}
void one_case(long n)
{
  World W = world(); MaxwellSolverYee &m = *W.m;
  for (int c = 0; c < 3; ++c) { fill(m.field_e[c]); fill(m.field_h[c]); }
  static const int oe[3][2] = {{1, 0}, {0, 0}, {0, 1}}, oh[3][2] = {{0, 1}, {1, 1}, {1, 0}};
  for (int q = 0; q < 20; ++q) {
    double r = (W.c0 + U(0, W.nr)) * W.dr, z = (W.c1 + U(0, W.nz)) * W.dz;
    if (r < W.dr / 2 * 1.001) r = W.dr * U(.501, 1.5);
    vector3d<double> e = m.get_field_e(r, z), h = m.get_field_h(r, z);
    for (int c = 0; c < 3; ++c) {
      double we = ref(m.field_e[c], oe[c][0], oe[c][1], r, z, W), wh = ref(m.field_h[c], oh[c][0], oh[c][1], r, z, W);
      CHECK(close(e[c], we, 1, 1e-7), "case %ld E[%d] at r/dr=%g z/dz=%g offset %d,%d: %g want %g", n, c, r / W.dr, z / W.dz, W.c0, W.c1, e[c], we);
      CHECK(close(h[c], wh, 1, 1e-7), "case %ld H[%d] at r/dr=%g z/dz=%g offset %d,%d: %g want %g", n, c, r / W.dr, z / W.dz, W.c0, W.c1, h[c], wh);
    }
  }
}
