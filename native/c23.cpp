#include "specie.hpp"
#include "collisions/collisionsTA77S.hpp"
// two species in a small domain: pairs, lists, totals, then whole steps
static Geometry *GEO; static TimeSim *TS;
struct V3 { double x, y, z; };
static V3 vel(const Particle *p) { return {p->vel_r, p->vel_phi, p->vel_z}; }
static double sq(V3 a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
static V3 sub(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static bool same(V3 a, V3 b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static void pair_case(long n, CollisionsTA77S &c)
{
  Particle a = Particle(), b = Particle(); double ma = U(.5, 3) * 1e-30, mb = I(0, 1) ? ma : U(.5, 5) * 1e-28, q = 1.6e-19; int kind = I(0, 3);
  for (Particle *p : {&a, &b}) { p->vel_r = U(-1, 1) * 1e6; p->vel_phi = U(-1, 1) * 1e6; p->vel_z = U(-1, 1) * 1e6; p->weight = U(.2, 2) * 1e9; p->pos_r = U(0, 1); p->pos_z = U(0, 1); }
  if (kind == 1) { b.vel_r = a.vel_r; b.vel_phi = a.vel_phi; }
  if (kind == 2) { b.vel_r = a.vel_r; b.vel_phi = a.vel_phi; b.vel_z = a.vel_z; }
  bool eq = I(0, 1); if (eq) b.weight = a.weight;
  Particle A = a, B = b; V3 u = sub(vel(&A), vel(&B)); double mab = ma * mb / (ma + mb), U0 = sqrt(sq(u));
  double st = TS->step; TS->step = pow(10, U(-14, -6));
  c.collide_single(ma, mb, I(0, 1) ? -q : q, q, a, b, U(.5, 2) * 1e17, U(.5, 2) * 1e17, U(1, 5) * 1e-5); TS->step = st;
  CHECK(a.weight == A.weight && b.weight == B.weight && a.pos_r == A.pos_r && b.pos_z == B.pos_z && a.pos_z == A.pos_z && b.pos_r == B.pos_r, "case %ld: weight or position changed", n);
  V3 da = sub(vel(&a), vel(&A)), db = sub(vel(&b), vel(&B));
  if (kind == 2) { CHECK(same(da, {0, 0, 0}) && same(db, {0, 0, 0}), "case %ld: particles of one velocity scattered", n); return; }
  CHECK(sq(da) > 0 && sq(db) > 0, "case %ld: no scattering", n);
  V3 ra = {u.x + da.x * ma / mab, u.y + da.y * ma / mab, u.z + da.z * ma / mab}, rb = {u.x - db.x * mb / mab, u.y - db.y * mb / mab, u.z - db.z * mb / mab};
  CHECK(close(sqrt(sq(ra)), U0, U0, 1e-8) && close(sqrt(sq(rb)), U0, U0, 1e-8), "case %ld: relative speed %g turned into %g and %g (kind %d, weights %g %g)", n, U0, sqrt(sq(ra)), sqrt(sq(rb)), kind, A.weight, B.weight);
  if (eq) {
    V3 p = {ma * da.x + mb * db.x, ma * da.y + mb * db.y, ma * da.z + mb * db.z}; double s = mab * U0;
    CHECK(sqrt(sq(p)) < 1e-8 * s, "case %ld: momentum of a pair changed by %g of %g", n, sqrt(sq(p)), s);
    double e = ma * (sq(vel(&a)) - sq(vel(&A))) + mb * (sq(vel(&b)) - sq(vel(&B))), es = ma * sq(vel(&A)) + mb * sq(vel(&B));
    CHECK(fabs(e) < 1e-8 * es, "case %ld: energy of a pair changed by %g of %g", n, e, es);
  }
}
void one_case(long n)
{
  int nr = I(1, 4), nz = I(1, 4), c0 = I(0, 1) ? 0 : I(1, 9), c1 = I(0, 1) ? 0 : I(1, 9); double dr = U(.001, .01), dz = U(.001, .01);
  TS = new TimeSim(); TS->start = 0; TS->current = 0; TS->end = 1; TS->step = U(1, 50) * 1e-13;
  GEO = new Geometry({dr * nr, dz * nz}, {dr * (nr + c0), dz * (nz + c1)}, {(size_t)c0, (size_t)c1, (size_t)(c0 + nr), (size_t)(c1 + nz)}, {0, 0, 0, 0}, {0, 0}, {c0 == 0, c1 == 0, 1, 1});
  dr = GEO->cell_size[0]; dz = GEO->cell_size[1];
  bool cap = I(0, 1), first = I(0, 1);
  SpecieP *el = new SpecieP(7, cap ? "Electrons" : "electrons", -1, 1, 10, 1e17, 1e17, 1, GEO, TS), *ion = new SpecieP(8, cap ? "Ions" : "ions", 1, U(5, 1836), 10, 1e17, 1e17, 1, GEO, TS);
  std::vector<SpecieP*> sp; if (first) { sp.push_back(el); sp.push_back(ion); } else { sp.push_back(ion); sp.push_back(el); }
  // what the particles of a cell do: 0 all thermal, 1 no relative velocity inside a species, 2 ions without charge
  int mode = I(0, 2); if (mode == 2) ion->charge = 0;
  double ve = U(.5, 2) * 1e6, vi = ve / sqrt(ion->mass / el->mass) * U(.5, 2); bool one_w = I(0, 1);
  std::vector<int> ne(nr * nz), ni(nr * nz);
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) {
    int k = i * nz + j, how = I(0, 9); ne[k] = how == 0 ? 0 : I(1, 12); ni[k] = how == 1 ? 0 : how < 4 ? ne[k] : I(1, 12);
    double vol = M_PI * dr * dr * dz * (2 * (i + c0) + 1), w0 = 1e17 * vol / 8;
    V3 se = {U(-1, 1) * ve, U(-1, 1) * ve, U(-1, 1) * ve}, si = {U(-1, 1) * vi, U(-1, 1) * vi, U(-1, 1) * vi};
    for (int s = 0; s < 2; ++s) for (int q = 0; q < (s ? ni[k] : ne[k]); ++q) {
      Particle *p = new Particle(); double v = s ? vi : ve; V3 o = s ? si : se;
      p->pos_r = (c0 + i + .5) * dr; p->pos_z = (c1 + j + .5) * dz; p->pos_phi = 0; p->cell_r = c0 + i; p->cell_z = c1 + j; p->weight = w0 * (one_w ? 1 : U(.3, 2));
      if (mode == 1) { p->vel_r = o.x; p->vel_phi = o.y; p->vel_z = o.z; } else { p->vel_r = U(-1, 1) * v; p->vel_phi = U(-1, 1) * v; p->vel_z = U(-1, 1) * v; }
      (s ? ion : el)->particles.push_back(p);
    }
  }
  for (SpecieP *s : sp) std::shuffle(s->particles.begin(), s->particles.end(), RNG);
  CollisionsTA77S c(GEO, TS, sp);
  CHECK(c.mass_el == el->mass && c.mass_ion == ion->mass && c.charge_el == el->charge && c.charge_ion == ion->charge, "case %ld: masses %g %g charges %g %g", n, c.mass_el, c.mass_ion, c.charge_el, c.charge_ion);
  for (int i = 0; i < 5; ++i) pair_case(n, c);
  std::vector<Particle> before[2]; for (int s = 0; s < 2; ++s) for (Particle *p : (s ? ion : el)->particles) before[s].push_back(*p);
  if (I(0, 1)) c();
  for (int s = 0; s < 2; ++s) for (size_t q = 0; q < before[s].size(); ++q) *(s ? ion : el)->particles[q] = before[s][q];
  // step by step up to the collisions
  c.clear(); c.sort_to_cells(); c.random_sort(); c.collect_weighted_params_tot_grid();
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) for (int s = 0; s < 2; ++s) {
    auto &l = (s ? c.map_ion2cell : c.map_el2cell)(i, j); double w = 0, e = 0, P[3] = {0, 0, 0}, m = s ? ion->mass : el->mass; size_t cnt = 0;
    for (Particle *p : (s ? ion : el)->particles) if ((int)p->cell_r == c0 + i && (int)p->cell_z == c1 + j) {
      ++cnt; CHECK(std::count(l.begin(), l.end(), p) == 1, "case %ld: particle of cell %d %d is %d times in its list", n, i, j, (int)std::count(l.begin(), l.end(), p));
      w += p->weight; e += m * p->weight * sq(vel(p)) / 2; P[0] += m * p->weight * p->vel_r; P[1] += m * p->weight * p->vel_phi; P[2] += m * p->weight * p->vel_z;
    }
    CHECK(l.size() == cnt, "case %ld: %zu particles in the list of cell %d %d, want %zu", n, l.size(), i, j, cnt);
    double W = (s ? c.amount_tot_ion : c.amount_tot_el)(i, j), E = (s ? c.energy_tot_ion : c.energy_tot_el)(i, j); auto &M = s ? c.moment_tot_ion : c.moment_tot_el;
    CHECK(close(W, w, w, 1e-10) && close(E, e, e, 1e-10), "case %ld: cell %d %d holds %g particles of energy %g, want %g %g", n, i, j, W, E, w, e);
    for (int k = 0; k < 3; ++k) CHECK(close(M[k](i, j), P[k], 100 * sqrt(2 * e * m * w), 1e-10), "case %ld: momentum %d of cell %d %d is %g, want %g", n, k, i, j, M[k](i, j), P[k]);
    if (cnt) {
      double vol = M_PI * dr * dr * dz * (2 * (i + c0) + 1), d = s ? c.get_ion_density(i, j) : c.get_el_density(i, j), T = s ? c.get_ion_temperature(i, j) : c.get_el_temperature(i, j);
      CHECK(close(d, w / vol, d, 1e-9) && close(T * 1.6e-19, e / w, e / w, 1e-9), "case %ld: density %g want %g, temperature %g want %g", n, d, w / vol, T, e / w / 1.6e-19);
    }
  }
  c.collide();
  for (int s = 0; s < 2; ++s) for (size_t q = 0; q < before[s].size(); ++q) {
    Particle *p = (s ? ion : el)->particles[q]; Particle &b = before[s][q]; int k = (p->cell_r - c0) * nz + p->cell_z - c1, own = s ? ni[k] : ne[k], oth = s ? ne[k] : ni[k];
    CHECK(p->weight == b.weight && p->pos_r == b.pos_r && p->pos_z == b.pos_z && p->cell_r == b.cell_r && p->cell_z == b.cell_z, "case %ld: a particle was moved", n);
    bool moved = !same(vel(p), vel(&b)), want = oth && own && (mode == 0 || mode == 1 || s == 0 && own > 1);
    CHECK(moved == want, "case %ld mode %d: %s of a cell with %d electrons and %d ions %s", n, mode, s ? "ion" : "electron", ne[k], ni[k], moved ? "collided" : "did not collide");
    CHECK(std::isfinite(sq(vel(p))), "case %ld: velocity is not a number", n);
  }
  c.correct_velocities();
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) for (int s = 0; s < 2; ++s) {
    double m = s ? ion->mass : el->mass, e[2] = {0, 0}, w = 0, P[2][3] = {{0, 0, 0}, {0, 0, 0}}; size_t cnt = 0;
    for (size_t q = 0; q < before[s].size(); ++q) {
      Particle *p = (s ? ion : el)->particles[q]; if ((int)p->cell_r != c0 + i || (int)p->cell_z != c1 + j) continue; ++cnt; w += p->weight;
      for (int t = 0; t < 2; ++t) { V3 v = t ? vel(p) : vel(&before[s][q]); e[t] += m * p->weight * sq(v) / 2; P[t][0] += m * p->weight * v.x; P[t][1] += m * p->weight * v.y; P[t][2] += m * p->weight * v.z; }
    }
    double ps = sqrt(2 * e[0] * m * w); double mean = (P[0][0] * P[0][0] + P[0][1] * P[0][1] + P[0][2] * P[0][2]) / (2 * m * w);
    if (cnt < 2 || !(e[0] - mean > 1e-3 * e[0])) continue; // no thermal energy to restore
    CHECK(close(e[1], e[0], e[0], 1e-7), "case %ld mode %d: energy of species %d in cell %d %d was %g, is %g", n, mode, s, i, j, e[0], e[1]);
    for (int k = 0; k < 3; ++k) CHECK(fabs(P[1][k] - P[0][k]) < 1e-7 * ps, "case %ld mode %d: momentum %d of species %d in cell %d %d was %g, is %g", n, mode, k, s, i, j, P[0][k], P[1][k]);
  }
}
