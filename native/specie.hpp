#include "common.hpp"
#include "specieP.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
struct SW { Geometry *g; TimeSim *t; SpecieP *s; int nr, nz, c0, c1; double dr, dz, dt; bool w[4]; };
static void place(SW &W, Particle *p)
{
  p->pos_r = (W.c0 + U(0, W.nr)) * W.dr; p->pos_z = (W.c1 + U(0, W.nz)) * W.dz; p->pos_phi = 0;
  double sp = (I(0, 1) ? U(0.17, 0.99) : U(0.0001, 0.16)) * 3e8, d[3] = {U(-1, 1), U(-1, 1), U(-1, 1)}, l = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]);
  p->vel_r = sp*d[0]/l; p->vel_phi = sp*d[1]/l; p->vel_z = sp*d[2]/l; p->weight = U(.5, 2) * 1e6; p->sin = U(-.9, .9);
  p->pos_old_r = p->pos_r; p->pos_old_z = p->pos_z; p->pos_old_phi = 0; p->mark = I(0, 1000); p->specie_id = 3;
}
static SW sworld(int np, unsigned id = 3)
{
  SW W; W.nr = I(3, 8); W.nz = I(3, 8); for (int i = 0; i < 4; ++i) W.w[i] = I(0, 1);
  W.c0 = W.w[0] ? 0 : I(1, 12); W.c1 = W.w[1] ? 0 : I(1, 12); double dr = U(.001, .01), dz = U(.001, .01); W.dt = U(1e-13, 1e-12);
  W.g = new Geometry({dr * W.nr, dz * W.nz}, {dr * (W.nr + W.c0), dz * (W.nz + W.c1)}, {(size_t)W.c0, (size_t)W.c1, (size_t)(W.c0 + W.nr), (size_t)(W.c1 + W.nz)}, {0, 0, 0, 0}, {0, 0}, {W.w[0], W.w[1], W.w[2], W.w[3]});
  W.dr = W.g->cell_size[0]; W.dz = W.g->cell_size[1];
  W.t = new TimeSim(); W.t->start = 0; W.t->current = 0; W.t->end = 1; W.t->step = W.dt;
  W.s = new SpecieP(id, "test", -1, 1, np, 1e17, 1e17, 1, W.g, W.t);
  for (int i = 0; i < np; ++i) { Particle *p = new Particle(); place(W, p); W.s->particles.push_back(p); }
  return W;
}
