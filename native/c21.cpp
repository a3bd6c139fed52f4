#include "specie.hpp"
#include <map>
#include "algo/common.hpp"
// SCHEME: 0 random/flat, 1 centered, 2 regular; SPEED: 0 thermal, 1 rectangular, 2 eigen
void one_case(long n)
{
  int nr = I(2, 9), nz = I(2, 9), c0 = I(0, 1) ? 0 : I(1, 9), c1 = I(0, 1) ? 0 : I(1, 9); bool w2 = I(0, 1), w3 = I(0, 1);
  if (nr < 3) w2 = false; if (nz < 3) w3 = false;
#if SCHEME != 0
  w2 = w3 = false; // "regular" numbers are corrected for the whole domain only
  if (I(0, 1)) w3 = nz > 2; if (I(0, 1)) w2 = nr > 2;
#endif
  double dr0 = 1. / (1 << I(6, 9)), dz0 = 1. / (1 << I(6, 9));
  Geometry *g = new Geometry({dr0 * nr, dz0 * nz}, {dr0 * (nr + c0), dz0 * (nz + c1)}, {(size_t)c0, (size_t)c1, (size_t)(c0 + nr), (size_t)(c1 + nz)}, {0, 0, 0, 0}, {0, 0}, {c0 == 0, c1 == 0, w2, w3});
  TimeSim *t = new TimeSim(); t->start = t->current = 0; t->end = 1; t->step = 1e-12;
  double dr = g->cell_size[0], dz = g->cell_size[1], dl = U(1, 5) * 1e15, dR = I(0, 1) ? dl : U(1, 5) * 1e15, T = I(0, 1) ? U(.01, 100) : U(.01, 3) * 1e5;
  int want = n % 7 == 0 ? 4000 : I(1, 3) * nr * nz + I(0, 5), id = I(0, 60000);
  SpecieP *s = new SpecieP(id, "s", I(0, 1) ? -1 : 2, U(1, 3), want, dl, dR, T, g, t);
  s->fullyfill_spatial_distribution();
  s->velocity_distribution();
  size_t N = s->particles.size(); double r0 = (c0 + .5) * dr, z0 = (c1 + .5) * dz, R = (nr - w2) * dr, Z = (nz - w3) * dz, q = 1e-6;
#if SCHEME == 0
  CHECK(s->macro_amount == (unsigned)want && N == (size_t)want, "case %ld: %zu particles, want %d", n, N, want);
#else
  CHECK(s->macro_amount >= (unsigned)want && s->macro_amount % (nr * nz) == 0 && s->macro_amount < (unsigned)(want + nr * nz), "case %ld: %u particles for %d in %dx%d cells", n, s->macro_amount, want, nr, nz);
#endif
#if SCHEME == 1
  size_t per = floor((double)s->macro_amount / ((nr - w2) * (nz - w3)));
  CHECK(N == per * (nr - w2) * (nz - w3), "case %ld: %zu particles placed, %zu in each of %dx%d cells", n, N, per, nr - w2, nz - w3);
  std::map<std::pair<int,int>, size_t> cells;
  for (auto p : s->particles) cells[{(int)floor((p->pos_r - r0) / dr + q), (int)floor((p->pos_z - z0) / dz + q)}]++;
  CHECK(cells.size() == (size_t)((nr - w2) * (nz - w3)), "case %ld: particles in %zu cells of %d", n, cells.size(), (nr - w2) * (nz - w3));
  for (auto &c : cells) CHECK(c.second == per, "case %ld: %zu particles in cell %d %d, want %zu", n, c.second, c.first.first, c.first.second, per);
#endif
  double sum = 0, vol = 0, ring0 = 0, w0 = 0, mr = 0, ms = 0;
  for (auto p : s->particles) {
    CHECK(p->specie_id == id, "case %ld: particle of species %d, want %d", n, (int)p->specie_id, id);
    CHECK(p->pos_phi == 0, "case %ld: angle %g", n, p->pos_phi);
    CHECK(p->pos_r >= r0 - q * dr && p->pos_r <= r0 + R + q * dr, "case %ld: radius %g outside %g..%g", n, p->pos_r, r0, r0 + R);
    CHECK(p->pos_z >= z0 - q * dz && p->pos_z <= z0 + Z + q * dz, "case %ld: longitude %g outside %g..%g", n, p->pos_z, z0, z0 + Z);
    double v = p->pos_r > dr / 2 ? 2 * M_PI * p->pos_r * dr * dz : M_PI * p->pos_r * p->pos_r * dz;
    if (!ring0) { ring0 = v; w0 = p->weight; }
    CHECK(p->weight > 0 && close(p->weight / v, w0 / ring0, w0 / ring0, 1e-9), "case %ld: weight %g for volume %g, %g for %g", n, p->weight, v, w0, ring0);
    sum += p->weight; mr += (p->pos_r - r0) / R;
    double x = (p->pos_z - z0) / Z; ms += (x * dl + x * x * (dR - dl) / 2) / ((dl + dR) / 2);
    double b = sqrt(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z), c[3] = {p->vel_r, p->vel_phi, p->vel_z};
#if SPEED == 2
    double lim = T * 1.6e-19 * 2 / (s->mass * 3e8) > 5e7 ? 3e8 : sqrt(2 * T * 1.6e-19 / s->mass);
    CHECK(c[0] == c[1] && c[1] == c[2], "case %ld: velocity %g %g %g", n, c[0], c[1], c[2]);
    if (lim < 3e8) CHECK(close(c[0], lim, lim, 1e-9), "case %ld: speed %g, want %g", n, c[0], lim);
#elif SPEED == 1
    double lim = T * 1.6e-19 * 2 / (s->mass * 3e8) > 5e7 ? 3e8 : sqrt(2 * T * 1.6e-19 / s->mass);
    for (int k = 0; k < 3; ++k) CHECK(fabs(c[k]) <= lim, "case %ld: velocity component %g above %g", n, c[k], lim);
    CHECK(c[0] != c[1] && c[1] != c[2], "case %ld: velocity %g %g %g", n, c[0], c[1], c[2]);
#else
    for (int k = 0; k < 3; ++k) CHECK(fabs(c[k]) < 3e8, "case %ld: velocity component %g", n, c[k]);
    CHECK(c[0] != c[1] && c[1] != c[2], "case %ld: velocity %g %g %g", n, c[0], c[1], c[2]);
#endif
    CHECK(b == b, "case %ld: velocity is not a number", n);
  }
  double total = (dl + dR) / 2 * M_PI * dr * dr * ((double)(c0 + nr - w2) * (c0 + nr - w2) - (double)c0 * c0) * Z;
  if (N) CHECK(close(sum, N == s->macro_amount ? total : sum, total, 1e-9), "case %ld: %g real particles, want %g", n, sum, total);
  if (N) CHECK(close(sum, total, total, 1e-9), "case %ld: %g real particles in %zu of %u, want %g", n, sum, N, s->macro_amount, total);
#if SCHEME == 0
  if (want == 4000) CHECK(fabs(mr / N - .5) < .05 && fabs(ms / N - .5) < .05, "case %ld: mean radius share %g, mean profile share %g", n, mr / N, ms / N);
#endif
  delete s; delete t; delete g;
}
