#include "yee.hpp"
void one_case(long n)
{
  World W = world(); MaxwellSolverYee &m = *W.m; int nr = W.nr, nz = W.nz;
  for (int c = 0; c < 3; ++c) { fill(m.field_e[c]); fill(m.field_h_at_et[c], -1e-1, 1e-1); fill(W.c->current[c]); }
  fill(m.epsilon, 5e-12, 2e-11); fill(m.sigma, 0, 3e1);
  std::vector<std::vector<double>> o[3], x;
  for (int c = 0; c < 3; ++c) { o[c].assign(nr + 4, std::vector<double>(nz + 4)); for (int i = 0; i < nr + 4; ++i) for (int k = 0; k < nz + 4; ++k) o[c][i][k] = m.field_e[c].get_grid()[i][k]; }
  m.calc_field_e();
  int r0 = W.w[0], z0 = W.w[1], r1 = nr - W.w[2], z1 = nz - W.w[3];
  auto H = [&](int c, int i, int k) { return m.field_h_at_et[c].get_grid()[i+2][k+2]; };
  for (int i = -2; i < nr + 2; ++i) for (int k = -2; k < nz + 2; ++k) for (int c = 0; c < 3; ++c) {
    double v = m.field_e[c].get_grid()[i+2][k+2];
    if (i < 0 || i >= nr || k < 0 || k >= nz) { CHECK(v == 0, "case %ld halo E[%d](%d,%d) = %g", n, c, i, k, v); continue; }
    bool inner = i >= r0 && i < r1 && k >= z0 && k < z1, axis = W.w[0] && i == 0 && k >= z0 && k < z1 && c != 1, left = W.w[1] && k == 0 && i >= r0 && i < r1 && c == 2;
    if (W.w[0] && W.w[1] && i == 0 && k == 0 && c == 2) continue;
    double want = o[c][i+2][k+2];
    if (inner || axis || left) {
      double eps = m.epsilon(i, k), sg = m.sigma(i, k), J = W.c->current[c](i, k), r = (i + W.c0) * W.dr, cu;
#ifndef ENABLE_PML
      sg = 0;
#endif
      if (c == 0) cu = -(H(1, i, k) - H(1, i, k-1)) / W.dz;
      else if (c == 1) cu = (H(0, i, k) - H(0, i, k-1)) / W.dz - (H(2, i, k) - H(2, i-1, k)) / W.dr;
      else if (axis) cu = 4 * H(1, i, k) / W.dr;
      else cu = ((r + W.dr/2) * H(1, i, k) - (r - W.dr/2) * H(1, i-1, k)) / (W.dr * r);
      want = ((eps / W.dt - sg / 2) * want + cu - J) / (eps / W.dt + sg / 2);
    }
    CHECK(close(v, want, 1e-2, 1e-7), "case %ld walls %d%d%d%d: E[%d](%d,%d) = %g want %g", n, W.w[0], W.w[1], W.w[2], W.w[3], c, i, k, v, want);
  }
}
