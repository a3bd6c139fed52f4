#include "common.hpp"
#include "defines.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
typedef std::vector<std::vector<double>> M;
static M snap(Grid<double> &g) { M m(g.x_real_size, std::vector<double>(g.y_real_size)); double **p = g.get_grid();
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j) m[i][j] = p[i][j]; return m; }
static void fill(Grid<double> &g) { double **p = g.get_grid(); for (unsigned i = 0; i < g.x_real_size; ++i) for (unsigned j = 0; j < g.y_real_size; ++j) p[i][j] = U(-5, 5); }
static void cmp(const char *op, Grid<double> &g, const M &w, long n, unsigned nx, unsigned ny, unsigned s) {
  M m = snap(g);
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j)
    if (!close(m[i][j], w[i][j], 1e-3)) { FAIL("case %ld %s on %ux%u halo %u: raw cell (%zu,%zu) = %g want %g", n, op, nx, ny, s, i, j, m[i][j], w[i][j]); return; } }
void one_case(long n)
{
  unsigned nx = I(1, 9), ny = I(1, 9), s = I(0, 3);
  Grid<double> g(nx, ny, s), h(nx, ny, s);
  CHECK(g.x_real_size == nx + 2*s && g.y_real_size == ny + 2*s && g.x_size == nx && g.y_size == ny && g.o_s == s, "case %ld sizes", n);
  fill(g); fill(h);
  M w = snap(g); unsigned x = I(0, nx-1), y = I(0, ny-1); double v = U(0.5, 3) * (I(0, 1) ? 1 : -1);
  auto in = [&](size_t i, size_t j) { return i >= s && i < nx + s && j >= s && j < ny + s; };
  auto each = [&](auto f) { for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w[i].size(); ++j) f(i, j); };
  double &c = w[x+s][y+s];
  CHECK(close(g(x, y), c, 1e-3), "case %ld operator()", n);
  switch (n % 12) {
  case 0: g.set(x, y, v); c = v; cmp("set", g, w, n, nx, ny, s); break;
  case 1: g.inc(x, y, v); c += v; cmp("inc", g, w, n, nx, ny, s); break;
  case 2: g.dec(x, y, v); c -= v; cmp("dec", g, w, n, nx, ny, s); break;
  case 3: g.m_a(x, y, v); c *= v; cmp("m_a", g, w, n, nx, ny, s); break;
  case 4: g.d_a(x, y, v); c /= v; cmp("d_a", g, w, n, nx, ny, s); break;
  case 5: g = v; each([&](size_t i, size_t j) { if (in(i, j)) w[i][j] = v; }); cmp("=", g, w, n, nx, ny, s); break;
  case 6: g += v; each([&](size_t i, size_t j) { if (in(i, j)) w[i][j] += v; }); cmp("+=", g, w, n, nx, ny, s); break;
  case 7: g -= v; each([&](size_t i, size_t j) { if (in(i, j)) w[i][j] -= v; }); cmp("-=", g, w, n, nx, ny, s); break;
  case 8: g *= v; each([&](size_t i, size_t j) { if (in(i, j)) w[i][j] *= v; }); cmp("*=", g, w, n, nx, ny, s); break;
  case 9: g /= v; each([&](size_t i, size_t j) { if (in(i, j)) w[i][j] /= v; }); cmp("/=", g, w, n, nx, ny, s); break;
  case 10: g.overlay_set(v); each([&](size_t i, size_t j) { if (!in(i, j)) w[i][j] = v; }); cmp("overlay_set", g, w, n, nx, ny, s); break;
  case 11: { M hh = snap(h); g.copy(h); cmp("copy", g, hh, n, nx, ny, s); cmp("copy source", h, hh, n, nx, ny, s); break; } }
  Grid3D<double> q(nx, ny, s); fill(q.r_component); fill(q.phi_component); fill(q.z_component);
  Grid<double> *k[3] = {&q.r_component, &q.phi_component, &q.z_component};
  for (int i = 0; i < 3; ++i) { CHECK(&q[i] == k[i], "case %ld component %d", n, i); CHECK(q(i, x, y) == k[i]->get_grid()[x+s][y+s], "case %ld q(%d,..)", n, i); }
  M o[3]; for (int i = 0; i < 3; ++i) o[i] = snap(*k[i]);
  bool hl = I(0, 1); if (hl) q.overlay_set(v); else q = v;
  for (int i = 0; i < 3; ++i) { for (size_t a = 0; a < o[i].size(); ++a) for (size_t b = 0; b < o[i][a].size(); ++b) if (in(a, b) != hl) o[i][a][b] = v; cmp(hl ? "3d overlay_set" : "3d =", *k[i], o[i], n, nx, ny, s); }
  double **d = g(); for (unsigned i = 0; i < nx; ++i) for (unsigned j = 0; j < ny; ++j) CHECK(d[i][j] == g(i, j), "case %ld export (%u,%u)", n, i, j);
}
