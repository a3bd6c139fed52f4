#include "smb.hpp"
#include <map>
#include <cstring>
// particles are placed in arbitrary domains with arbitrary cells (in the block, behind it, below zero); after the collector each one is
// in exactly one list: that of its species in the domain that holds its cell, or nowhere if its cell is outside the block
static void round_(long n, BW &W, int ns, int per, bool far)
{
  struct Src { int i, j, s; long cr, cz; };
  std::map<Particle *, Src> all;
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j) for (int s = 0; s < ns; ++s)
  {
    auto &v = W.b->domains(i, j)->species_p[s]->particles; v.clear();
    int b = part(W.nr, W.R, i), t = part(W.nr, W.R, i + 1), l = part(W.nz, W.Z, j), r = part(W.nz, W.Z, j + 1);
    for (int k = 0; k < per; ++k)
    {
      Particle *p = new Particle(); memset((void *)p, 0, sizeof(Particle));
      long cr, cz;
      if (far) // anywhere in an adjacent domain
      {
        auto pick = [](int n, int r, int d) { return d < 0 ? I(-2, -1) : d >= r ? I(n, n + 2) : I(part(n, r, d), part(n, r, d + 1) - 1); };
        cr = pick(W.nr, W.R, i + I(-1, 1)); cz = pick(W.nz, W.Z, j + I(-1, 1));
      }
      else { cr = I(b - 1, t); cz = I(l - 1, r); }
      p->pos_r = (cr + .5) * W.dr; p->pos_z = (cz + .5) * W.dz; p->cell_r = (size_t)cr; p->cell_z = (size_t)cz; p->specie_id = 10 + s;
      v.push_back(p); all[p] = {i, j, s, cr, cz};
    }
  }
  W.b->particles_runaway_collector();
  std::map<Particle *, int> seen;
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j) for (int s = 0; s < ns; ++s)
    for (Particle *p : W.b->domains(i, j)->species_p[s]->particles)
    {
      CHECK(all.count(p), "case %ld: domain (%d,%d) species %d holds an unknown particle", n, i, j, s);
      if (!all.count(p)) continue;
      Src &q = all[p]; ++seen[p];
      bool in = q.cr >= part(W.nr, W.R, i) && q.cr < part(W.nr, W.R, i + 1) && q.cz >= part(W.nz, W.Z, j) && q.cz < part(W.nz, W.Z, j + 1);
      CHECK(in && s == q.s, "case %ld, %dx%d domains of %dx%d cells: particle of cell (%ld,%ld) species %d from domain (%d,%d) is now in domain (%d,%d) species %d", n, W.R, W.Z, W.nr, W.nz, q.cr, q.cz, q.s, q.i, q.j, i, j, s);
    }
  for (auto &a : all)
  {
    bool out = a.second.cr < 0 || a.second.cz < 0 || a.second.cr >= W.nr || a.second.cz >= W.nz; int c = seen.count(a.first) ? seen[a.first] : 0;
    CHECK(c == (out ? 0 : 1), "case %ld, %dx%d domains of %dx%d cells: particle of cell (%ld,%ld) species %d from domain (%d,%d) is in %d lists", n, W.R, W.Z, W.nr, W.nz, a.second.cr, a.second.cz, a.second.s, a.second.i, a.second.j, c);
  }
  for (auto &a : all) delete a.first;
}
void one_case(long n)
{
  int R = I(1, 4), Z = I(1, 4), ns = I(1, 3);
  BW W = block(R, Z, R * 4 + I(0, R - 1), Z * 4 + I(0, Z - 1), ns);
  round_(n, W, ns, I(0, 12), true); round_(n, W, ns, I(1, 12), false);
  if (n % 10 == 0)
  {
    BW V = block(8, 2, 32, 8, 1);
    for (int k = 0; k < 3; ++k) round_(n, V, 1, 4000, false);
  }
}
