#include "yee.hpp"
static const double MU = 1.26e-6;
typedef std::vector<std::vector<double>> M;
static M snap(Grid<double> &g) { M m(g.x_real_size, std::vector<double>(g.y_real_size)); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j) m[i][j] = g.get_grid()[i][j]; return m; }
void one_case(long n)
{
  World W = world(); MaxwellSolverYee &m = *W.m;
  for (int c = 0; c < 3; ++c) { fill(m.field_e[c]); fill(m.field_h[c], -1e-3, 1e-3); fill(m.field_h_at_et[c], -1e-3, 1e-3); }
  int steps = I(1, 2);
  for (int s = 0; s < steps; ++s) {
    M e[3], o[3], q[3], h[3]; for (int c = 0; c < 3; ++c) { e[c] = snap(m.field_e[c]); o[c] = snap(m.field_h_at_et[c]); }
    m.calc_field_h();
    for (int c = 0; c < 3; ++c) { M e2 = snap(m.field_e[c]); CHECK(e2 == e[c], "case %ld: electric field changed", n); q[c] = snap(m.field_h_at_et[c]); h[c] = snap(m.field_h[c]); }
    for (int i = 0; i < (int)q[0].size(); ++i) for (int k = 0; k < (int)q[0][0].size(); ++k) {
      bool in = i >= 2 && i < W.nr + 2 && k >= 2 && k < W.nz + 2;
      double r0 = (i - 2 + W.c0) * W.dr, r1 = r0 + W.dr, d[3] = {0, 0, 0};
      if (in) {
        d[0] = (e[1][i][k+1] - e[1][i][k]) / W.dz;
        d[1] = (e[2][i+1][k] - e[2][i][k]) / W.dr - (e[0][i][k+1] - e[0][i][k]) / W.dz;
        d[2] = -(r1 * e[1][i+1][k] - r0 * e[1][i][k]) / (W.dr * (r0 + r1) / 2);
      }
      for (int c = 0; c < 3; ++c) {
        double a = d[c] * W.dt / MU, wq = in ? o[c][i][k] + a : 0, wh = in ? o[c][i][k] + a / 2 : 0;
        CHECK(close(q[c][i][k], wq, 1e-2), "case %ld walls %d%d%d%d: integer-step H[%d](%d,%d) = %g want %g", n, W.w[0], W.w[1], W.w[2], W.w[3], c, i-2, k-2, q[c][i][k], wq);
        CHECK(close(h[c][i][k], wh, 1e-2), "case %ld walls %d%d%d%d: time-centred H[%d](%d,%d) = %g want %g", n, W.w[0], W.w[1], W.w[2], W.w[3], c, i-2, k-2, h[c][i][k], wh);
      }
    }
    for (int c = 0; c < 3; ++c) for (int i = 0; i < W.nr + 4; ++i) for (int k = 0; k < W.nz + 4; ++k) m.field_e[c].get_grid()[i][k] = U(-5, 5);
  }
}
