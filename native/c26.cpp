#include "specie.hpp"
#ifdef P12
#include "collisions/collisionsP12.hpp"
typedef CollisionsP12 Scheme;
#else
#include "collisions/collisionsSK98.hpp"
typedef CollisionsSK98 Scheme;
#endif
// pairs of fast particles, then whole steps of two species in a small domain
static Geometry *GEO; static TimeSim *TS;
struct V3 { double x, y, z; };
static V3 vel(const Particle *p) { return {p->vel_r, p->vel_phi, p->vel_z}; }
static double sq(V3 a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
static V3 sub(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static bool same(V3 a, V3 b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static const double CL = 3e8;
static double gam(V3 v) { return 1 / sqrt(1 - sq(v) / CL / CL); }
static V3 mom(V3 v, double m) { double g = gam(v) * m; return {v.x * g, v.y * g, v.z * g}; }
static V3 add(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static double kin(V3 v, double m) { double g = gam(v), b2 = sq(v) / CL / CL; return m * CL * CL * b2 * g * g / (g + 1); }
// speed of the relative motion
static V3 dir(double v) { double c = U(-1, 1), s = sqrt(1 - c * c), f = U(0, 2 * M_PI); return {v * s * cos(f), v * s * sin(f), v * c}; }
static void put(Particle &p, V3 v) { p.vel_r = v.x; p.vel_phi = v.y; p.vel_z = v.z; }
static void pair_case(long n, Scheme &c)
{
  Particle a = Particle(), b = Particle(); double ma = U(.5, 3) * 1e-30, mb = I(0, 1) ? ma : U(.5, 5) * (I(0, 1) ? 1e-28 : 1e-30), q = 1.6e-19; int kind = I(0, 6);
  bool fast = I(0, 1); bool eq = I(0, 1), light = !I(0, 3);
  for (Particle *p : {&a, &b}) { put(*p, dir(fast ? U(.05, .9) * CL : pow(10, U(5, 7)))); p->weight = light ? U(.2, 2) : U(.2, 2) * 1e9; p->pos_r = U(0, 1); p->pos_z = U(0, 1); }
  if (kind == 1) put(b, vel(&a));                                                            // no relative motion
  if (kind == 2) { mb = ma; put(b, sub({0, 0, 0}, vel(&a))); }                               // no total momentum
  if (kind == 3) { put(a, {0, 0, a.vel_z}); put(b, {0, 0, b.vel_z}); }                       // along z
  if (kind == 4) put(b, {a.vel_r, a.vel_phi, -a.vel_z});
  if (eq) b.weight = a.weight;
  Particle A = a, B = b;
  double st = TS->step; TS->step = pow(10, U(-16, -6)); bool sure = !fast && TS->step > 1e-12;  // angles that are not lost in rounding
  c.collide_single(ma, mb, I(0, 1) ? -q : q, q, a, b, U(.5, 2) * 1e17, U(.5, 2) * 1e17, U(1, 5) * 1e-5); TS->step = st;
  CHECK(a.weight == A.weight && b.weight == B.weight && a.pos_r == A.pos_r && b.pos_z == B.pos_z && a.pos_z == A.pos_z && b.pos_r == B.pos_r, "case %ld: weight or position changed", n);
  CHECK(std::isfinite(sq(vel(&a))) && std::isfinite(sq(vel(&b))), "case %ld kind %d: velocity is not a number", n, kind);
  bool ca = !same(vel(&a), vel(&A)), cb = !same(vel(&b), vel(&B));
  if (kind == 1) { CHECK(!ca && !cb, "case %ld: particles of one velocity scattered", n); return; }
#ifdef P12
  CHECK(!sure || (ca || !(A.weight > 1)) && (cb || !(B.weight > 1)), "case %ld kind %d: no scattering", n, kind);
  if (sure && light) { CHECK(eq || ca == cb || (A.weight > B.weight ? ca : cb), "case %ld: the one of less weight is scattered alone", n); }
  if (!ca || !cb) {
    for (int k = 0; k < 2; ++k) if (k ? cb : ca) CHECK(sq(vel(k ? &b : &a)) > 0, "case %ld: velocity of the particle was lost", n);
    return;
  }
#else
  CHECK(!sure || ca && cb, "case %ld kind %d: no scattering", n, kind);
#endif
  V3 P = add(mom(vel(&A), ma), mom(vel(&B), mb)), Q = add(mom(vel(&a), ma), mom(vel(&b), mb));
  double s = sqrt(sq(mom(vel(&A), ma))) + sqrt(sq(mom(vel(&B), mb)));
  CHECK(sqrt(sq(sub(P, Q))) < 1e-8 * s, "case %ld kind %d: momentum of a pair changed by %g of %g", n, kind, sqrt(sq(sub(P, Q))), s);
  double e = kin(vel(&A), ma) + kin(vel(&B), mb), f = kin(vel(&a), ma) + kin(vel(&b), mb);
  CHECK(fabs(e - f) < 1e-7 * e, "case %ld kind %d: energy of a pair changed from %g to %g", n, kind, e, f);
}
void one_case(long n)
{
  int nr = I(1, 4), nz = I(1, 4), c0 = I(0, 1) ? 0 : I(1, 9), c1 = I(0, 1) ? 0 : I(1, 9); double dr = U(.001, .01), dz = U(.001, .01);
  TS = new TimeSim(); TS->start = 0; TS->current = 0; TS->end = 1; TS->step = U(1, 50) * 1e-13;
  GEO = new Geometry({dr * nr, dz * nz}, {dr * (nr + c0), dz * (nz + c1)}, {(size_t)c0, (size_t)c1, (size_t)(c0 + nr), (size_t)(c1 + nz)}, {0, 0, 0, 0}, {0, 0}, {c0 == 0, c1 == 0, 1, 1});
  dr = GEO->cell_size[0]; dz = GEO->cell_size[1];
  bool cap = I(0, 1), first = I(0, 1);
  SpecieP *el = new SpecieP(7, cap ? "Electrons" : "electrons", -1, 1, 10, 1e17, 1e17, 1, GEO, TS), *ion = new SpecieP(8, cap ? "Ions" : "ions", 1, U(5, 1836), 10, 1e17, 1e17, 1, GEO, TS);
  std::vector<SpecieP*> sp; if (first) { sp.push_back(el); sp.push_back(ion); } else { sp.push_back(ion); sp.push_back(el); }
  // what the particles of a cell do: 0 all thermal, 1 no relative velocity inside a species
  int mode = I(0, 1);
  double ve = U(.5, 2) * (I(0, 1) ? 1e6 : 6e7), vi = ve / sqrt(ion->mass / el->mass) * U(.5, 2); bool one_w = I(0, 1);
  std::vector<int> ne(nr * nz), ni(nr * nz);
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) {
    int k = i * nz + j, how = I(0, 9); ne[k] = how == 0 ? 0 : I(1, 12); ni[k] = how == 1 ? 0 : how < 4 ? ne[k] : I(1, 12);
    double vol = M_PI * dr * dr * dz * (2 * (i + c0) + 1), w0 = 1e17 * vol / 8;
    V3 se = {U(-1, 1) * ve, U(-1, 1) * ve, U(-1, 1) * ve}, si = {U(-1, 1) * vi, U(-1, 1) * vi, U(-1, 1) * vi};
    for (int s = 0; s < 2; ++s) for (int q = 0; q < (s ? ni[k] : ne[k]); ++q) {
      Particle *p = new Particle(); double v = s ? vi : ve; V3 o = s ? si : se;
      p->pos_r = (c0 + i + .5) * dr; p->pos_z = (c1 + j + .5) * dz; p->pos_phi = 0; p->cell_r = c0 + i; p->cell_z = c1 + j; p->weight = w0 * (one_w ? 1 : U(.3, 2));
      if (mode == 1) { p->vel_r = o.x; p->vel_phi = o.y; p->vel_z = o.z; } else { p->vel_r = U(-1, 1) * v; p->vel_phi = U(-1, 1) * v; p->vel_z = U(-1, 1) * v; }
      (s ? ion : el)->particles.push_back(p);
    }
  }
  for (SpecieP *s : sp) std::shuffle(s->particles.begin(), s->particles.end(), RNG);
  Scheme c(GEO, TS, sp);
  CHECK(c.mass_el == el->mass && c.mass_ion == ion->mass && c.charge_el == el->charge && c.charge_ion == ion->charge, "case %ld: masses %g %g charges %g %g", n, c.mass_el, c.mass_ion, c.charge_el, c.charge_ion);
  for (int i = 0; i < 20; ++i) pair_case(n, c);
  std::vector<Particle> before[2]; for (int s = 0; s < 2; ++s) for (Particle *p : (s ? ion : el)->particles) before[s].push_back(*p);
  if (I(0, 1)) c();
  for (int s = 0; s < 2; ++s) for (size_t q = 0; q < before[s].size(); ++q) *(s ? ion : el)->particles[q] = before[s][q];
  // step by step up to the collisions
  c.clear(); c.sort_to_cells(); c.random_sort(); c.collect_weighted_params_tot_grid();
  for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) for (int s = 0; s < 2; ++s) {
    auto &l = (s ? c.map_ion2cell : c.map_el2cell)(i, j); double w = 0, e = 0, P[3] = {0, 0, 0}, m = s ? ion->mass : el->mass; size_t cnt = 0;
    for (Particle *p : (s ? ion : el)->particles) if ((int)p->cell_r == c0 + i && (int)p->cell_z == c1 + j) {
      ++cnt; CHECK(std::count(l.begin(), l.end(), p) == 1, "case %ld: particle of cell %d %d is %d times in its list", n, i, j, (int)std::count(l.begin(), l.end(), p));
      w += p->weight; e += m * p->weight * sq(vel(p)) / 2; P[0] += m * p->weight * p->vel_r; P[1] += m * p->weight * p->vel_phi; P[2] += m * p->weight * p->vel_z;
    }
    CHECK(l.size() == cnt, "case %ld: %zu particles in the list of cell %d %d, want %zu", n, l.size(), i, j, cnt);
    double W = (s ? c.amount_tot_ion : c.amount_tot_el)(i, j), E = (s ? c.energy_tot_ion : c.energy_tot_el)(i, j); auto &M = s ? c.moment_tot_ion : c.moment_tot_el;
    CHECK(close(W, w, w, 1e-10) && close(E, e, e, 1e-10), "case %ld: cell %d %d holds %g particles of energy %g, want %g %g", n, i, j, W, E, w, e);
    for (int k = 0; k < 3; ++k) CHECK(close(M[k](i, j), P[k], 100 * sqrt(2 * e * m * w), 1e-10), "case %ld: momentum %d of cell %d %d is %g, want %g", n, k, i, j, M[k](i, j), P[k]);
    if (cnt) {
      double vol = M_PI * dr * dr * dz * (2 * (i + c0) + 1), d = s ? c.get_ion_density(i, j) : c.get_el_density(i, j), T = s ? c.get_ion_temperature(i, j) : c.get_el_temperature(i, j);
      CHECK(close(d, w / vol, d, 1e-9) && close(T * 1.6e-19, e / w, e / w, 1e-9), "case %ld: density %g want %g, temperature %g want %g", n, d, w / vol, T, e / w / 1.6e-19);
    }
  }
  c.collide();
  for (int s = 0; s < 2; ++s) for (size_t q = 0; q < before[s].size(); ++q) {
    Particle *p = (s ? ion : el)->particles[q]; Particle &b = before[s][q]; int k = (p->cell_r - c0) * nz + p->cell_z - c1, own = s ? ni[k] : ne[k], oth = s ? ne[k] : ni[k];
    CHECK(p->weight == b.weight && p->pos_r == b.pos_r && p->pos_z == b.pos_z && p->cell_r == b.cell_r && p->cell_z == b.cell_z, "case %ld: a particle was moved", n);
    bool moved = !same(vel(p), vel(&b)), want = oth && own && (mode == 0 || mode == 1 || s == 0 && own > 1);
    CHECK(moved == want, "case %ld mode %d: %s of a cell with %d electrons and %d ions %s", n, mode, s ? "ion" : "electron", ne[k], ni[k], moved ? "collided" : "did not collide");
    CHECK(std::isfinite(sq(vel(p))), "case %ld: velocity is not a number", n);
  }
  if (one_w) for (int i = 0; i < nr; ++i) for (int j = 0; j < nz; ++j) {
    double e[2] = {0, 0}, ps = 0; V3 P[2] = {{0, 0, 0}, {0, 0, 0}};
    for (int s = 0; s < 2; ++s) for (size_t q = 0; q < before[s].size(); ++q) {
      Particle *p = (s ? ion : el)->particles[q]; if ((int)p->cell_r != c0 + i || (int)p->cell_z != c1 + j) continue; double m = s ? ion->mass : el->mass;
      for (int t = 0; t < 2; ++t) { V3 v = t ? vel(p) : vel(&before[s][q]); e[t] += kin(v, m); P[t] = add(P[t], mom(v, m)); ps += sqrt(sq(mom(v, m))); }
    }
    CHECK(fabs(e[1] - e[0]) <= 1e-7 * e[0], "case %ld mode %d: energy of cell %d %d was %g, is %g", n, mode, i, j, e[0], e[1]);
    CHECK(sqrt(sq(sub(P[0], P[1]))) <= 1e-7 * ps, "case %ld mode %d: momentum of cell %d %d changed by %g of %g", n, mode, i, j, sqrt(sq(sub(P[0], P[1]))), ps);
  }
}
