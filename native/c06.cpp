#include "common.hpp"
#include "specieP.hpp"
#include "pusher.hpp"
#if defined(SWITCH_PUSHER_VAY)
#include "pusher/pusherVay.hpp"
typedef PusherVay PU;
#elif defined(SWITCH_PUSHER_HC)
#include "pusher/pusherHC.hpp"
typedef PusherHC PU;
#else
#include "pusher/pusherBoris.hpp"
typedef PusherBoris PU;
#endif
static double FE[3], FH[3];
struct MS : public MaxwellSolverYee {
  MS() : MaxwellSolverYee() {}
  vector3d<double> get_field_h(double, double) { return vector3d<double>(FH[0], FH[1], FH[2]); }
  vector3d<double> get_field_e(double, double) { return vector3d<double>(FE[0], FE[1], FE[2]); }
};
typedef double V[3];
static void cross(const V a, const V b, V r) { r[0] = a[1]*b[2]-a[2]*b[1]; r[1] = a[2]*b[0]-a[0]*b[2]; r[2] = a[0]*b[1]-a[1]*b[0]; }
static double dot(const V a, const V b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static const double c2 = 9e16, mu = 1.26e-6;
void one_case(long n)
{
  alignas(MS) static char buf[sizeof(MS)];
  static MS *ms = new (buf) MS();
  TimeSim t; t.start = 0; t.end = 1; t.current = 0; t.step = pow(10, U(-14, -10));
  SpecieP *sp = (SpecieP *)calloc(1, sizeof(SpecieP) + 64);
  new (&sp->particles) std::vector<Particle *>();
  sp->charge = (I(0, 1) ? 1 : -1) * 1.6e-19 * I(1, 3); sp->mass = 9.1e-31 * (I(0, 1) ? 1 : 1836);
  double q = sp->charge, m = sp->mass;
  int mode = I(0, 4); // 0 both, 1 no E, 2 no B, 3 none, 4 both strong
  for (int i = 0; i < 3; ++i) {
    FE[i] = (mode == 1 || mode == 3) ? 0 : U(-1, 1) * pow(10, U(3, 7.5));
    FH[i] = (mode == 2 || mode == 3) ? 0 : U(-1, 1) * pow(10, U(2, 7));
  }
  std::vector<Particle *> parts; std::vector<Particle> old;
  for (int i = 0; i < 4; ++i) {
    Particle *p = new Particle();
    double sp_ = (I(0, 2) == 0 ? U(0.2, 0.99) : I(0, 1) ? U(0.001, 0.16) : U(0.16, 0.18)) * 3e8, d[3] = {U(-1, 1), U(-1, 1), U(-1, 1)};
    double l = sqrt(dot(d, d));
    p->vel_r = sp_*d[0]/l; p->vel_phi = sp_*d[1]/l; p->vel_z = sp_*d[2]/l;
    p->pos_r = U(0, 1); p->pos_z = U(0, 1); p->pos_phi = U(0, 1); p->weight = U(1, 2); p->sin = U(-.5, .5); p->cell_r = 3; p->cell_z = 4;
    sp->particles.push_back(p); parts.push_back(p); old.push_back(*p);
  }
  PU pu(ms, std::vector<SpecieP *>{sp}, &t);
  pu();
  for (size_t k = 0; k < parts.size(); ++k) {
    Particle &a = old[k], &b = *parts[k];
    V v = {a.vel_r, a.vel_phi, a.vel_z}, w = {b.vel_r, b.vel_phi, b.vel_z}, e, tt, x;
    double al = q * t.step / (2 * m);
    for (int i = 0; i < 3; ++i) { e[i] = al * FE[i]; tt[i] = al * mu * FH[i]; }
    double v2 = dot(v, v);
#if defined(SWITCH_PUSHER_BORIS)
    bool rel = false;
#elif defined(SWITCH_PUSHER_BORIS_ADAPTIVE)
    bool rel = v2 > 2.5e15;
#else
    bool rel = true;
#endif
    V u, s;
    double g = rel ? 1 / sqrt(1 - v2 / c2) : 1;
    for (int i = 0; i < 3; ++i) u[i] = g * v[i];
#if defined(SWITCH_PUSHER_VAY)
    V up; cross(u, tt, x);
    for (int i = 0; i < 3; ++i) up[i] = u[i] + 2 * e[i] + x[i] / sqrt(1 + dot(u, u) / c2);
    double sg = 1 + dot(up, up) / c2 - dot(tt, tt), us = dot(up, tt) * dot(up, tt) / c2;
    double g1 = sqrt(.5 * (sg + sqrt(sg * sg + 4 * (dot(tt, tt) + us))));
    V z; for (int i = 0; i < 3; ++i) z[i] = tt[i] / g1;
    cross(up, z, x); double S = 1 / (1 + dot(z, z)), dd = dot(up, z);
    for (int i = 0; i < 3; ++i) s[i] = S * (up[i] + dd * z[i] + x[i]);
#else
    V um, z, y; for (int i = 0; i < 3; ++i) um[i] = u[i] + e[i];
#if defined(SWITCH_PUSHER_HC)
    double sg = 1 + dot(um, um) / c2 - dot(tt, tt), us = dot(um, tt) * dot(um, tt) / c2;
    double ig = 1 / sqrt(.5 * (sg + sqrt(sg * sg + 4 * (dot(tt, tt) + us))));
#else
    double ig = rel ? 1 / sqrt(1 + dot(um, um) / c2) : 1;
#endif
    for (int i = 0; i < 3; ++i) z[i] = tt[i] * ig;
    cross(um, z, x); for (int i = 0; i < 3; ++i) x[i] += um[i];
    cross(x, z, y); double S = 2 / (1 + dot(z, z));
    for (int i = 0; i < 3; ++i) s[i] = um[i] + S * y[i] + e[i];
#endif
    double gi = rel ? 1 / sqrt(1 + dot(s, s) / c2) : 1;
    double sc = sqrt(v2);
    for (int i = 0; i < 3; ++i)
      CHECK(close(w[i], gi * s[i], sc, 1e-6), "case %ld particle %zu: velocity component %d after push is %.12g, Lorentz-force update gives %.12g "
            "(v=%.9g,%.9g,%.9g E=%.9g,%.9g,%.9g H=%.9g,%.9g,%.9g dt=%.9g q=%.9g m=%.9g)", n, k, i, w[i], gi * s[i], v[0], v[1], v[2],
            FE[0], FE[1], FE[2], FH[0], FH[1], FH[2], t.step, q, m);
    if (mode == 1) CHECK(close(dot(w, w), v2, v2, 1e-6), "case %ld: magnetic field changed |v|^2 from %.12g to %.12g", n, v2, dot(w, w));
    Particle c = b; c.vel_r = a.vel_r; c.vel_phi = a.vel_phi; c.vel_z = a.vel_z;
    CHECK(c.pos_r == a.pos_r && c.pos_phi == a.pos_phi && c.pos_z == a.pos_z && c.weight == a.weight && c.sin == a.sin && c.cell_r == a.cell_r &&
          c.cell_z == a.cell_z && c.pos_old_r == a.pos_old_r && c.pos_old_z == a.pos_old_z && c.mark == a.mark, "case %ld: push changed more than velocity", n);
    delete parts[k];
  }
}
