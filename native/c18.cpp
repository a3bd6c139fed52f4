#include "specie.hpp"
typedef std::vector<std::vector<double>> M;
static M zero(const SW &W) { return M(W.nr + 4, std::vector<double>(W.nz + 4, 0.)); }
static void junk(Grid<double> &g) { for (unsigned i = 0; i < g.x_real_size; ++i) for (unsigned k = 0; k < g.y_real_size; ++k) g.get_grid()[i][k] = U(-5, 5); }
static void junk(Grid3D<double> &g) { for (int c = 0; c < 3; ++c) junk(g[c]); }
static void add(M &m, const SW &W, double r, double z, double w)
{
  double dr = W.dr, dz = W.dz; int i = (int)floor(r / dr), k = (int)floor(z / dz);
  double cut = (i + .5) * dr, lo = r - dr/2, hi = r + dr/2, wr[2], y = z / dz - k, wz[2] = {1 - y, y};
  if (r <= dr / 2) { double t = 2*r*r + dr*dr/2; wr[0] = (dr*dr/2 - r*dr + r*r) / t; wr[1] = (hi*hi - dr*dr/4) / t; }
  else { wr[0] = (cut*cut - lo*lo) / (2*r*dr); wr[1] = (hi*hi - cut*cut) / (2*r*dr); }
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) m[i - W.c0 + a + 2][k - W.c1 + b + 2] += w * wr[a] * wz[b] / (M_PI * dz * dr * dr * (2 * (i + a) + 1));
}
static double em(double m, double p2) { double c2 = 9e16, lim = 2.5e15; return p2 > lim * m * m ? sqrt(p2 * c2 + m*m*c2*c2) - m*c2 : p2 / (2*m); }
void one_case(long n)
{
  SW W = sworld(I(0, 6)); SpecieP &s = *W.s; double mass = s.mass;
  M d = zero(W), pa = zero(W), pv[3] = {zero(W), zero(W), zero(W)};
  for (auto p : s.particles) {
    if (p->pos_r < W.dr * .05) p->pos_r = W.dr * .05;
    double v[3] = {p->vel_r, p->vel_phi, p->vel_z}, v2 = v[0]*v[0]+v[1]*v[1]+v[2]*v[2], ga = v2 > 2.5e15 ? 1 / sqrt(1 - v2 / 9e16) : 1;
    add(d, W, p->pos_r, p->pos_z, p->weight); add(pa, W, p->pos_r, p->pos_z, p->weight * mass * ga * sqrt(v2));
    for (int c = 0; c < 3; ++c) add(pv[c], W, p->pos_r, p->pos_z, p->weight * mass * ga * v[c]);
  }
  junk(s.density_map); junk(s.temperature_map); junk(s.energy_map); junk(s.momentum_abs_map_w); junk(s.momentum_map_w); junk(s.momentum_map);
  int what = n % 3;
  if (what == 0) s.calc_temperature(); else if (what == 1) s.calc_energy(); else s.calc_momentum();
  for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) {
    if (what != 2) { double g = s.momentum_abs_map_w.get_grid()[i][k]; CHECK(close(g, pa[i][k], mass * 3e8 * 1e-3, 1e-6), "case %ld deposited |p| (%d,%d) %g want %g", n, i - 2, k - 2, g, pa[i][k]); }
    if (what != 1) for (int c = 0; c < 3; ++c) { double g = s.momentum_map_w[c].get_grid()[i][k]; CHECK(close(g, pv[c][i][k], mass * 3e8 * 1e-3, 1e-6), "case %ld deposited p[%d] (%d,%d) %g want %g", n, c, i - 2, k - 2, g, pv[c][i][k]); }
    bool in = i >= 2 && k >= 2 && i < W.nr + 2 && k < W.nz + 2; double nn = d[i][k];
    double P2 = pv[0][i][k]*pv[0][i][k] + pv[1][i][k]*pv[1][i][k] + pv[2][i][k]*pv[2][i][k], ev = 1 / 1.6e-19;
    bool ok = in && nn != 0;
    if (what == 0) { double x = ok ? (pa[i][k]*pa[i][k] - P2) / (nn*nn) : 0, w = ok ? em(mass, x) * ev : 0, g = s.temperature_map.get_grid()[i][k], sc = ok ? em(mass, pa[i][k]*pa[i][k]/(nn*nn)) * ev : 0;
      CHECK(fabs(g - w) <= 1e-6 * fabs(sc) + 1e-12, "case %ld temperature (%d,%d) %g want %g", n, i - 2, k - 2, g, w); }
    if (what == 1) { double w = ok ? em(mass, pa[i][k]*pa[i][k] / (nn*nn)) * ev : 0, g = s.energy_map.get_grid()[i][k]; CHECK(close(g, w, 0, 1e-6), "case %ld energy (%d,%d) %g want %g", n, i - 2, k - 2, g, w); }
    if (what == 2) for (int c = 0; c < 3; ++c) { double w = ok ? pv[c][i][k] / nn : 0, g = s.momentum_map[c].get_grid()[i][k]; CHECK(close(g, w, mass * 3e8 * 1e-3, 1e-6), "case %ld momentum[%d] (%d,%d) %g want %g", n, c, i - 2, k - 2, g, w); }
  }
}
