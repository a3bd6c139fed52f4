#include "smb.hpp"
// every node: one global value per domain copy; after the exchange the owner holds the sum of all copies
static Grid<double> &G3(Grid3D<double> &g, int c) { return c == 0 ? g.r_component : c == 1 ? g.phi_component : g.z_component; }
static void check(long n, const char *what, BW &W, std::function<Grid3D<double> &(Domain *)> f, std::function<void()> act, bool empty)
{
  const int s = 2; int X = W.nr + 2 * s, Y = W.nz + 2 * s;
  std::vector<double> sum(3 * X * Y, 0);
  auto at = [&](int c, int i, int k) -> double & { return sum[(c * X + i + s) * Y + k + s]; };
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j)
  {
    Domain *d = W.b->domains(i, j); Grid3D<double> &g = f(d); int b = part(W.nr, W.R, i), l = part(W.nz, W.Z, j), nr = part(W.nr, W.R, i + 1) - b, nz = part(W.nz, W.Z, j + 1) - l;
    for (int c = 0; c < 3; ++c)
    {
      double **p = G3(g, c).get_grid();
      for (int x = -s; x < nr + s; ++x) for (int y = -s; y < nz + s; ++y)
      {
        bool core = x >= 0 && y >= 0 && x < nr && y < nz;
        p[x + s][y + s] = (empty && !core) ? 0 : U(-1, 1);
        at(c, b + x, l + y) += p[x + s][y + s];
      }
    }
  }
  act();
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j)
  {
    Domain *d = W.b->domains(i, j); Grid3D<double> &g = f(d); int b = part(W.nr, W.R, i), l = part(W.nz, W.Z, j), nr = part(W.nr, W.R, i + 1) - b, nz = part(W.nz, W.Z, j + 1) - l;
    for (int c = 0; c < 3; ++c)
    {
      double **p = G3(g, c).get_grid();
      for (int x = -s; x < nr + s; ++x) for (int y = -s; y < nz + s; ++y)
      {
        bool core = x >= 0 && y >= 0 && x < nr && y < nz;
        bool inside = b + x >= 0 && b + x < W.nr && l + y >= 0 && l + y < W.nz;
        if (core || (empty && inside))
          CHECK(close(p[x + s][y + s], at(c, b + x, l + y), 1), "case %ld %s, %dx%d domains of %dx%d cells: domain (%d,%d) component %d node (%d,%d) holds %g, all contributions are %g", n, what, W.R, W.Z, W.nr, W.nz, i, j, c, x, y, p[x + s][y + s], at(c, b + x, l + y));
      }
    }
  }
}
void one_case(long n)
{
  static const int amt[] = {1, 2, 4, 6};
  int R = amt[I(0, 2)], Z = amt[I(0, 3)];
  BW W = block(R, Z, R * I(4, 6), Z * I(4, 6));
  bool e = I(0, 1);
  check(n, "current", W, [](Domain *d) -> Grid3D<double> & { return d->current->current; }, [&] { W.b->current_overlay(); }, e);
  check(n, "electric field", W, [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_e; }, [&] { W.b->field_e_overlay(); }, e);
  for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) { W.b->domains(i, j)->maxwell_solver->field_h = 0; W.b->domains(i, j)->maxwell_solver->field_h.overlay_set(0); }
  check(n, "magnetic field (at E time)", W, [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h_at_et; }, [&] { W.b->field_h_overlay(); }, e);
  check(n, "magnetic field", W, [](Domain *d) -> Grid3D<double> & { return d->maxwell_solver->field_h; }, [&] { W.b->field_h_overlay(); }, e);
}
