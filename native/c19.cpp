#include "smb.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"
// a block of domains is built by the real constructor; the fields of every domain are empty and its conductivity is that of the cell of the whole space
template <class X> static bool flat(Grid<X> &g, double v, int *px, int *py)
{
  for (unsigned int x = 0; x < g.x_real_size; ++x) for (unsigned int y = 0; y < g.y_real_size; ++y) if (g.grid[x][y] != v) { *px = (int)x - (int)g.o_s; *py = (int)y - (int)g.o_s; return false; }
  return true;
}
void one_case(long n)
{
  int R = I(1, 3), Z = I(1, 4), nr = R * I(3, 6) + I(0, R - 1), nz = Z * I(3, 6) + I(0, Z - 1), c0 = I(0, 2) ? 0 : I(1, 5), c1 = I(0, 2) ? 0 : I(1, 5);
  int gr = c0 + nr + (I(0, 2) ? 0 : I(1, 4)), gz = c1 + nz + (I(0, 2) ? 0 : I(1, 4));
  double dr = U(.001, .01), dz = U(.001, .01), s0 = U(1e-4, 1e-3), s1 = U(1e-2, 1e-1); bool w[4]; for (int i = 0; i < 4; ++i) w[i] = I(0, 1);
  int P[4] = {0, I(0, 1) * I(1, gz), I(0, 1) * I(1, gr), I(0, 1) * I(1, gz)};
  Geometry *g = new Geometry({dr * nr, dz * nz}, {dr * gr, dz * gz}, {(size_t)c0, (size_t)c1, (size_t)(c0 + nr), (size_t)(c1 + nz)}, {0, (size_t)P[1], (size_t)P[2], (size_t)P[3]}, {s0, s1}, {w[0], w[1], w[2], w[3]});
  g->domains_amount = {(size_t)R, (size_t)Z};
  TimeSim *t = new TimeSim(); t->start = 0; t->current = 0; t->end = 1; t->step = 1e-13;
  Cfg *c = (Cfg *)calloc(1, sizeof(Cfg)); c->geometry = g; c->time = t;
  SMB *b = new SMB(c, g, t, 0, 1);
  for (int p = 0; p < R; ++p) for (int q = 0; q < Z; ++q)
  {
    Domain *d = b->domains(p, q); MaxwellSolverYee *y = (MaxwellSolverYee *)d->maxwell_solver; Geometry &G = d->geometry; int x, k;
    Grid3D<double> *f[] = {&y->field_e, &y->field_h, &y->field_h_at_et, &d->current->current}; const char *nm[] = {"electric field", "magnetic field", "magnetic field at electric time", "current"};
    for (int m = 0; m < 4; ++m) for (int a = 0; a < 3; ++a)
      CHECK((*f[m])[a].x_size == G.cell_amount[0] && (*f[m])[a].y_size == G.cell_amount[1] && (*f[m])[a].o_s == 2 && flat((*f[m])[a], 0, &x, &k), "case %ld: component %d of the %s of domain (%d,%d) is not empty at (%d,%d)", n, a, nm[m], p, q, x, k);
    CHECK(y->epsilon.x_size == G.cell_amount[0] && y->epsilon.y_size == G.cell_amount[1] && flat(y->epsilon, constant::EPSILON0, &x, &k), "case %ld: permittivity of domain (%d,%d) at (%d,%d)", n, p, q, x, k);
    CHECK((int)y->r_begin == G.walls[0] && (int)y->z_begin == G.walls[1] && (int)y->r_end == (int)G.cell_amount[0] - G.walls[2] && (int)y->z_end == (int)G.cell_amount[1] - G.walls[3], "case %ld: range of the electric update in domain (%d,%d)", n, p, q);
    for (int i = -2; i < (int)G.cell_amount[0] + 2; ++i) for (int j = -2; j < (int)G.cell_amount[1] + 2; ++j)
    {
      double e = 0; int x0 = G.cell_dims[0] + i, x1 = G.cell_dims[1] + j; bool in = i >= 0 && i < (int)G.cell_amount[0] && j >= 0 && j < (int)G.cell_amount[1];
#ifdef ENABLE_PML
      auto L = [&](int depth, int len) { return depth >= 1 ? s0 + (s1 - s0) * ((double)depth / len) * ((double)depth / len) : 0; };
      if (in) e = L(P[1] - x1, P[1]) + L(x0 - (gr - P[2]) + 1, P[2]) + L(x1 - (gz - P[3]) + 1, P[3]);
#endif
      double v = y->sigma.grid[i + 2][j + 2];
      CHECK(close(v, e, s1), "case %ld: conductivity of cell (%d,%d) of a %dx%d space with layers %d %d %d in domain (%d,%d) of %dx%d is %g, expected %g", n, x0, x1, gr, gz, P[1], P[2], P[3], p, q, R, Z, v, e);
    }
  }
}
