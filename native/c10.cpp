#include "specie.hpp"
#include "algo/weighter.hpp"
static void add(std::vector<std::vector<double>> &m, const SW &W, double r, double z, double w)
{
  double dr = W.dr, dz = W.dz; int i = (int)floor(r / dr), k = (int)floor(z / dz);
  double cut = (i + .5) * dr, lo = r - dr/2, hi = r + dr/2, wr[2], y = z / dz - k, wz[2] = {1 - y, y};
  if (r <= dr / 2) { double t = 2*r*r + dr*dr/2; wr[0] = (dr*dr/2 - r*dr + r*r) / t; wr[1] = (hi*hi - dr*dr/4) / t; }
  else { wr[0] = (cut*cut - lo*lo) / (2*r*dr); wr[1] = (hi*hi - cut*cut) / (2*r*dr); }
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) m[i - W.c0 + a + 2][k - W.c1 + b + 2] += w * wr[a] * wz[b] / (M_PI * dz * dr * dr * (2 * (i + a) + 1));
}
void one_case(long n)
{
  SW W = sworld(I(0, 6));
  Grid<double> &g = W.s->density_map;
  for (unsigned i = 0; i < g.x_real_size; ++i) for (unsigned k = 0; k < g.y_real_size; ++k) g.get_grid()[i][k] = U(-5, 5);
  for (auto p : W.s->particles) { if (W.c0 == 0 && I(0, 2) == 0) p->pos_r = W.dr * U(0.02, 1); if (W.c0 <= 1 && I(0, 5) == 0 && W.nr + W.c0 > 1) p->pos_r = W.dr * U(1, 1.2); if (p->pos_r <= 0) p->pos_r = W.dr * .1; }
  std::vector<std::vector<double>> m(W.nr + 4, std::vector<double>(W.nz + 4, 0.)), one = m;
  double total = 0, got = 0;
  for (auto p : W.s->particles) { add(m, W, p->pos_r, p->pos_z, p->weight); total += p->weight; }
  W.s->calc_density();
  for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) {
    double v = g.get_grid()[i][k]; got += v * M_PI * W.dz * W.dr * W.dr * (2 * (i - 2 + W.c0) + 1);
    CHECK(close(v, m[i][k], 1e3), "case %ld density at raw cell (%d,%d), domain offset %d: %g want %g", n, i, k, W.c0, v, m[i][k]);
  }
  CHECK(close(got, total, 1, 1e-7), "case %ld deposited weight %g of %g", n, got, total);
  // single deposit of any sign onto a non-empty grid
  Grid<double> h(W.nr, W.nz, 2); for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) one[i][k] = h.get_grid()[i][k] = U(-1, 1);
  double r = (W.c0 + U(0, W.nr)) * W.dr, z = (W.c1 + U(0, W.nz)) * W.dz, w = U(-1, 1) * 1e-7; if (r <= 0) r = W.dr * .3;
  weight_cylindrical<double>(W.g, &h, r, z, w); add(one, W, r, z, w);
  for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) CHECK(close(h.get_grid()[i][k], one[i][k], 1e-3), "case %ld single deposit at r/dr=%g: raw cell (%d,%d) %g want %g", n, r / W.dr, i, k, h.get_grid()[i][k], one[i][k]);
}
