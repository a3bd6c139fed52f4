#include "common.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"
#include "current.hpp"
struct NoCurrent : public Current { using Current::Current; void current_distribution() {} };
struct World { Geometry *g; TimeSim *t; NoCurrent *c; MaxwellSolverYee *m; int nr, nz, c0, c1; double dr, dz, dt; bool w[4]; };
static void fill(Grid<double> &g, double lo = -5, double hi = 5) { double **p = g.get_grid(); for (unsigned i = 0; i < g.x_real_size; ++i) for (unsigned j = 0; j < g.y_real_size; ++j) p[i][j] = U(lo, hi); }
static World world(bool pml = false)
{
  World W; W.nr = I(3, 8); W.nz = I(3, 8); for (int i = 0; i < 4; ++i) W.w[i] = I(0, 1);
  W.c0 = W.w[0] ? 0 : I(1, 12); W.c1 = W.w[1] ? 0 : I(1, 12); W.dr = U(.001, .01); W.dz = U(.001, .01); W.dt = U(1e-13, 1e-12);
  std::vector<double> size = {W.dr * W.nr, W.dz * W.nz}, gs = {W.dr * (W.nr + W.c0), W.dz * (W.nz + W.c1)};
  W.g = new Geometry(size, gs, {(size_t)W.c0, (size_t)W.c1, (size_t)(W.c0 + W.nr), (size_t)(W.c1 + W.nz)}, {0, 0, 0, 0}, {0, 0}, {W.w[0], W.w[1], W.w[2], W.w[3]});
  W.dr = W.g->cell_size[0]; W.dz = W.g->cell_size[1];
  W.t = new TimeSim(); W.t->start = 0; W.t->current = 0; W.t->end = 1; W.t->step = W.dt;
  W.c = new NoCurrent(W.g, W.t, std::vector<SpecieP *>());
  W.m = new MaxwellSolverYee(W.g, W.t, W.c);
  return W;
}
