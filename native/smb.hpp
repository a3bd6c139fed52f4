#include "common.hpp"
#include "SMB.hpp"
#include "geometry.hpp"
#include "timeSim.hpp"
// a simulation block of R x Z domains built by the real constructor; the configuration object is filled directly (its constructor parses JSON)
struct BW { Cfg *c; Geometry *g; TimeSim *t; SMB *b; int R, Z, nr, nz; double dr, dz, dt; bool w[4]; };
static int part(int n, int r, int i) { return (int)((long)n * i / r); }
static BW block(int R, int Z, int nr, int nz, int nspecies = 2, std::vector<size_t> pml = {0, 0, 0, 0}, bool allwalls = false)
{
  BW W; W.R = R; W.Z = Z; W.nr = nr; W.nz = nz; double dr = U(.001, .01), dz = U(.001, .01); W.dt = U(1e-13, 1e-12);
  for (int i = 0; i < 4; ++i) W.w[i] = allwalls || I(0, 1);
#ifdef ENABLE_PML
  W.g = new Geometry({dr * nr, dz * nz}, {dr * nr, dz * nz}, {0, 0, (size_t)nr, (size_t)nz}, pml, {1e-3, 5e-2}, {W.w[0], W.w[1], W.w[2], W.w[3]});
#else
  W.g = new Geometry({dr * nr, dz * nz}, {0, 0, (size_t)nr, (size_t)nz}, {W.w[0], W.w[1], W.w[2], W.w[3]});
#endif
  W.g->domains_amount = {(size_t)R, (size_t)Z};
  W.dr = W.g->cell_size[0]; W.dz = W.g->cell_size[1];
  W.t = new TimeSim(); W.t->start = 0; W.t->current = 0; W.t->end = 1; W.t->step = W.dt;
  W.c = (Cfg *)calloc(1, sizeof(Cfg)); W.c->geometry = W.g; W.c->time = W.t;
  for (int i = 0; i < nspecies; ++i)
  {
    particle_specie s; s.id = 10 + i; s.name = "specie" + std::to_string(i); s.mass = 1 + I(0, 1); s.charge = i ? 1 : -1; s.macro_amount = R * Z * 10;
    s.left_density = s.right_density = 1e17; s.temperature = 1; W.c->particle_species.push_back(s);
  }
#ifdef ENABLE_EXTERNAL_FIELDS
  external_field e, m; e.name = "electric"; m.name = "magnetic"; e.formfactor = I(0, 3) ? "const_z" : "none"; m.formfactor = I(0, 3) ? "const_z" : "none";
  e.params = {U(1, 50), 3}; m.params = {U(60, 99)}; W.c->external_fields = {e, m};
#endif
  W.b = new SMB(W.c, W.g, W.t, 0, 1);
  return W;
}
