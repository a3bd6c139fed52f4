#include "smb.hpp"
#include "specie.hpp"
#include "outController.hpp"
#include "maxwellSolver/maxwellSolverYee.hpp"
#include <map>
// a block of domains with random fields and particles; the real controller, writers and HDF5 engine (in-memory HighFive) dump it for some steps; every element of every slice is compared with the node it stands for
static void fill(BW &W, bool parts)
{
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j)
  {
    Domain *d = W.b->domains(i, j); MaxwellSolverYee *y = (MaxwellSolverYee *)d->maxwell_solver; int b = part(W.nr, W.R, i), t = part(W.nr, W.R, i + 1), l = part(W.nz, W.Z, j), r = part(W.nz, W.Z, j + 1);
    for (Grid3D<double> *g : {&y->field_e, &y->field_h, &y->field_h_at_et, &d->current->current})
      for (int c = 0; c < 3; ++c) for (int x = 0; x < t - b + 4; ++x) for (int q = 0; q < r - l + 4; ++q) (*g)[c].grid[x][q] = U(-1, 1);
    if (parts)
      for (size_t s = 0; s < d->species_p.size(); ++s) for (int k = I(0, 12); k > 0; --k)
      {
        Particle *p = new Particle(); double v = U(1e5, 2e8), a = U(0, 6.28), c = U(-1, 1);
        p->pos_r = (b + U(i ? 0 : .6, t - b)) * W.dr; p->pos_z = (l + U(0, r - l)) * W.dz; p->weight = U(.5, 2) * 1e6;
        p->vel_r = v * cos(a) * sqrt(1 - c * c); p->vel_phi = v * sin(a) * sqrt(1 - c * c); p->vel_z = v * c; d->species_p[s]->particles.push_back(p);
      }
  }
}
static double node(BW &W, const std::string &c, int specie, int x, int y, std::map<int, Grid<double> *> &rho)
{
  int i = 0, j = 0; while (part(W.nr, W.R, i + 1) <= x) ++i; while (part(W.nz, W.Z, j + 1) <= y) ++j;
  Domain *d = W.b->domains(i, j); int a = x - part(W.nr, W.R, i), b = y - part(W.nz, W.Z, j); MaxwellSolverYee *m = (MaxwellSolverYee *)d->maxwell_solver;
  size_t sl = c.find('/'); int k = sl == std::string::npos ? -1 : c.substr(sl + 1) == "r" ? 0 : c.substr(sl + 1) == "phi" ? 1 : 2; std::string h = c.substr(0, sl);
  if (h == "E") return m->field_e(k, a, b);
  if (h == "H") return m->field_h_at_et(k, a, b);
  if (h == "J") return d->current->current(k, a, b);
  if (h == "density") return (*rho[specie])(x, y);
  SpecieP *s = d->species_p[specie];
  if (h == "temperature") { s->calc_temperature(); return s->temperature_map(a, b); }
  if (h == "energy") { s->calc_energy(); return s->energy_map(a, b); }
  s->calc_momentum(); return s->momentum_map(k, a, b);
}
void one_case(long n)
{
  const char *comp[] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
  int R = I(1, 3), Z = I(1, 3), nr = R * I(4, 6), nz = Z * I(4, 6); if (Z == 1) nr += I(0, R - 1); if (R == 1) nz += I(0, Z - 1);
  BW W = block(R, Z, nr, nz); fill(W, true);
  int NP = I(1, 4); std::vector<probe> ps;
  for (int k = 0; k < NP; ++k)
  {
    probe p; p.component = comp[I(0, 3) ? I(0, 14) : I(9, 14)]; p.specie = "specie" + std::to_string(I(0, 1)); p.shape = I(0, 1) ? 0 : I(1, 3); p.schedule = I(1, 5); p.dims = {0, 0, 0, 0};
    auto cut = [](int lo, int hi, int D, int N) { return I(0, 1) ? (int)I(lo, hi) : std::min(hi, std::max(lo, part(N, D, I(0, D)))); };   // often at a border of two domains
    if (p.shape == 0) { int a = cut(0, nr - 1, R, nr), b = cut(0, nz - 1, Z, nz); p.dims = {(size_t)a, (size_t)b, (size_t)cut(a + 1, nr, R, nr), (size_t)cut(b + 1, nz, Z, nz)}; }
    if (p.shape == 1 || p.shape == 3) p.dims[3] = cut(0, nz - 1, Z, nz);
    if (p.shape == 2 || p.shape == 3) p.dims[2] = cut(0, nr - 1, R, nr);
    p.path = "p" + std::to_string(k) + "/" + p.component; ps.push_back(p);
  }
  picojson::value meta;
  HighFive::File F; std::vector<probe> arg = ps;
  OutController out(&F, W.g, W.t, arg, W.b, meta, false);
  int steps = I(3, 14); W.t->current = 0; int skip = I(0, 3) ? 0 : I(10, 3000); for (int q = 0; q < skip; ++q) W.t->current += W.t->step;
  std::vector<long> seen(NP, -1);
  for (int q = skip; q < skip + steps; ++q, W.t->current += W.t->step)
  {
    fill(W, false);
    out();
    std::map<int, Grid<double> *> rho;
    for (int s = 0; s < 2; ++s)
    {
      Geometry *g = new Geometry({W.dr * nr, W.dz * nz}, {0, 0, (size_t)nr, (size_t)nz}, {true, true, true, true}); SpecieP *u = new SpecieP(1, "u", -1, 1, 0, 1, 1, 1, g, W.t);
      for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) for (Particle *p : W.b->domains(i, j)->species_p[s]->particles) u->particles.push_back(p);
      u->calc_density(); rho[s] = &u->density_map;
    }
    for (int k = 0; k < NP; ++k)
    {
      probe &p = ps[k]; HighFive::Store &S = F.sets["/" + p.path];
      long written = -1; for (auto &c : S.cells) written = std::max(written, (long)c.first[0]);
      if (q % p.schedule == 0)
      {
        long slice = q / p.schedule; int sp = p.specie == "specie1";
        CHECK(written == slice, "case %ld: step %d, schedule %u: the last slice of %s is %ld instead of %ld", n, q, p.schedule, p.path.c_str(), written, slice);
        CHECK((long)S.dims[0] >= slice + 1, "case %ld: step %d: dataset of %ld slices", n, q, (long)S.dims[0]);
        int x0 = p.shape == 0 ? p.dims[0] : p.shape == 1 ? 0 : p.dims[2], x1 = p.shape == 0 ? p.dims[2] : p.shape == 1 ? nr : x0 + 1;
        int y0 = p.shape == 0 ? p.dims[1] : p.shape == 2 ? 0 : p.dims[3], y1 = p.shape == 0 ? p.dims[3] : p.shape == 2 ? nz : y0 + 1;
        double sc = p.component == "density" ? 1e6 / (W.dr * W.dr * W.dz) : 0;
        for (int x = x0; x < x1; ++x) for (int y = y0; y < y1; ++y)
        {
          std::vector<size_t> at = {(size_t)slice}; if (p.shape == 0 || p.shape == 1) at.push_back(x - x0); if (p.shape == 0 || p.shape == 2) at.push_back(y - y0); if (p.shape == 3) at.push_back(0);
          double e = node(W, p.component, sp, x, y, rho); auto c = S.cells.find(at);
          CHECK(c != S.cells.end(), "case %ld: step %d: node (%d,%d) of %s shape %u [%zu,%zu,%zu,%zu], %dx%d nodes in %dx%d domains, is not written", n, q, x, y, p.path.c_str(), p.shape, p.dims[0], p.dims[1], p.dims[2], p.dims[3], nr, nz, R, Z);
          if (c != S.cells.end()) CHECK(close(c->second, e, sc), "case %ld: step %d: node (%d,%d) of %s shape %u [%zu,%zu,%zu,%zu], %dx%d nodes in %dx%d domains, is %g instead of %g", n, q, x, y, p.path.c_str(), p.shape, p.dims[0], p.dims[1], p.dims[2], p.dims[3], nr, nz, R, Z, c->second, e);
        }
        seen[k] = slice;
      }
      else
        CHECK(written == seen[k], "case %ld: step %d, schedule %u: slice %ld of %s appeared", n, q, p.schedule, written, p.path.c_str());
    }
  }
}
