#include "common.hpp"
#include "phys/rel.hpp"
#include "algo/common.hpp"
#include <alloca.h>
using namespace phys::rel;
template <class F> static bool fatal(F f) { try { f(); } catch (VerifFatal &) { return true; } return false; }
void one_case(long n)
{
  if (!__builtin_cpu_supports("avx")) return;
  volatile char *pad = (char *)alloca(16 * I(1, 8)); pad[0] = 0;
  const double c = 3e8, c2 = 9e16; double m = 9.1e-31 * pow(10, U(-1, 4)), v = c * (I(0, 2) ? U(0, .9999) : I(0, 1) ? U(.16, .18) : U(0, 1e-3)), v2 = v * v;
  double ga = 1 / sqrt(1 - v2 / c2), u2 = ga * ga * v2, d[3] = {U(-1, 1), U(-1, 1), U(-1, 1)}, l = sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]);
  CHECK(close(algo::common::sq_rt(u2), sqrt(u2), 0), "case %ld sqrt(%g)=%g", n, u2, algo::common::sq_rt(u2));
  CHECK(close(lorenz_factor(v2), ga, 0), "case %ld gamma(v=%g)=%.12g want %.12g", n, v, lorenz_factor(v2), ga);
  CHECK(close(lorenz_factor_inv(u2), 1 / ga, 0), "case %ld 1/gamma(u2=%g)=%.12g want %.12g", n, u2, lorenz_factor_inv(u2), 1 / ga);
  vector3d<double> V(v*d[0]/l, v*d[1]/l, v*d[2]/l), P = momentum(m, V);
  for (int i = 0; i < 3; ++i) CHECK(close(P[i], ga * m * v * d[i] / l, m * c, 1e-7), "case %ld momentum[%d]=%g want %g", n, i, P[i], ga * m * v * d[i] / l);
  CHECK(close(momentum_0(m, V), ga * m * c, 0), "case %ld momentum_0=%g want %g", n, momentum_0(m, V), ga * m * c);
  double want = v2 > 2.5e15 ? (ga - 1) * m * c2 : m * v2 / 2;
  CHECK(close(energy(m, v2), want, 0, 1e-7), "case %ld energy(v=%g)=%.12g want %.12g", n, v, energy(m, v2), want);
  double p2 = u2 * m * m; want = p2 > 2.5e15 * m * m ? sqrt(p2 * c2 + m*m*c2*c2) - m*c2 : p2 / (2*m);
  CHECK(close(energy_m(m, p2), want, 0, 1e-7), "case %ld energy_m(p2=%g)=%.12g want %.12g", n, p2, energy_m(m, p2), want);
  CHECK(fatal([&] { lorenz_factor(c2 * U(1.0001, 9)); }), "case %ld superluminal velocity accepted", n);
  CHECK(fatal([&] { momentum(0, V); }) && fatal([&] { momentum_0(0, V); }), "case %ld zero mass accepted", n);
}
