#include "common.hpp"
#include "defines.hpp"
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
typedef std::vector<std::vector<double>> M;
static M snap(Grid<double> &g) { M m(g.x_real_size, std::vector<double>(g.y_real_size)); double **p = g.get_grid();
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j) m[i][j] = p[i][j]; return m; }
static void fill(Grid<double> &g) { double **p = g.get_grid(); for (unsigned i = 0; i < g.x_real_size; ++i) for (unsigned j = 0; j < g.y_real_size; ++j) p[i][j] = U(-5, 5); }
static void cmp(const char *op, Grid<double> &g, const M &w, long n, unsigned nx, unsigned ny, unsigned s) {
  M m = snap(g);
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[i].size(); ++j)
    if (!close(m[i][j], w[i][j], 1e-3)) { FAIL("case %ld %s on %ux%u halo %u: raw cell (%zu,%zu) = %g want %g", n, op, nx, ny, s, i, j, m[i][j], w[i][j]); return; } }
static void expect(int kind, M &l, M &h, unsigned s)
{
  M a = l, b = h; size_t X = a.size(), Y = a[0].size();
  size_t hx = h.size(), hy = h[0].size(); (void)hx; (void)hy;
  if (kind == 0) for (size_t d = 0; d < 2*s; ++d) for (size_t j = s; j < Y - s; ++j) l[X-2*s+d][j] = h[d][j] = a[X-2*s+d][j] + b[d][j];
  if (kind == 1) for (size_t d = 0; d < 2*s; ++d) for (size_t i = s; i < X - s; ++i) l[i][Y-2*s+d] = h[i][d] = a[i][Y-2*s+d] + b[i][d];
  if (kind == 2) for (size_t d = 0; d < 2*s; ++d) for (size_t e = 0; e < 2*s; ++e) if ((d < s) == (e < s)) l[X-2*s+d][Y-2*s+e] = h[d][e] = a[X-2*s+d][Y-2*s+e] + b[d][e];
  if (kind == 3) for (size_t d = 0; d < 2*s; ++d) for (size_t e = 0; e < 2*s; ++e) if ((d < s) != (e < s)) l[d][Y-2*s+e] = h[X-2*s+d][e] = a[d][Y-2*s+e] + b[X-2*s+d][e];
}
void one_case(long n)
{
  unsigned s = I(1, 3), nx = I(s, 9), ny = I(s, 9); int kind = n % 4;
  unsigned mx = kind == 0 ? I(s, 9) : nx, my = kind == 1 ? I(s, 9) : ny;
  const char *nm[] = {"overlay_x", "overlay_y", "overlay_xy", "overlay_yx"};
  Grid<double> l(nx, ny, s), h(mx, my, s); fill(l); fill(h);
  M wl = snap(l), wh = snap(h); expect(kind, wl, wh, s);
  if (kind == 0) l.overlay_x(h); else if (kind == 1) l.overlay_y(h); else if (kind == 2) l.overlay_xy(h); else l.overlay_yx(h);
  cmp(nm[kind], l, wl, n, nx, ny, s); cmp(nm[kind], h, wh, n, mx, my, s);
  Grid3D<double> L(nx, ny, s), H(mx, my, s); M WL[3], WH[3];
  for (int i = 0; i < 3; ++i) { fill(L[i]); fill(H[i]); WL[i] = snap(L[i]); WH[i] = snap(H[i]); expect(kind, WL[i], WH[i], s); }
  if (kind == 0) L.overlay_x(H); else if (kind == 1) L.overlay_y(H); else if (kind == 2) L.overlay_xy(H); else L.overlay_yx(H);
  for (int i = 0; i < 3; ++i) { cmp("3d lower", L[i], WL[i], n, nx, ny, s); cmp("3d upper", H[i], WH[i], n, mx, my, s); }
  bool refused = false; unsigned bx = mx + (kind != 0 && (kind == 1 || I(0, 1))), by = my + (kind == 0);
  if (kind >= 2 && bx == mx) by = my + 1;
  Grid<double> B(bx, by, s); fill(B);
  try { if (kind == 0) l.overlay_x(B); else if (kind == 1) l.overlay_y(B); else if (kind == 2) l.overlay_xy(B); else l.overlay_yx(B); } catch (VerifFatal &) { refused = true; }
  CHECK(refused, "case %ld %s accepted grids of different size", n, nm[kind]);
}
