#include "specie.hpp"
static void fold(double &p, double &v, double lo, double hi, bool wl, bool wh)
{ for (int k = 0; k < 50; ++k) { if (wh && p > hi) { p = 2*hi - p; v = -v; } else if (wl && p < lo) { p = 2*lo - p; v = -v; } else break; } }
void one_case(long n)
{
  SW W = sworld(I(0, 6)); std::vector<Particle> o; double Lr = W.dr * W.nr, Lz = W.dz * W.nz;
  for (auto p : W.s->particles) {
    int far = I(0, 4) == 0 ? 2 : 1;
    double r = I(0, 1) ? U(-.5 * far * Lr, (1 + .5 * far) * Lr) : I(0, 1) ? U(.5, W.nr - .5) * W.dr : U(-1, .6) * W.dr, z = I(0, 1) ? U(-.5 * far * Lz, (1 + .5 * far) * Lz) : U(.5, W.nz - .5) * W.dz;
    if (I(0, 30) == 0 && W.c1 == 0) z = 0;
    if (I(0, 30) == 0) r = (W.nr - U(0, 1)) * W.dr;
    p->pos_r = W.c0 * W.dr + r; p->pos_z = W.c1 * W.dz + z; p->pos_old_r = p->pos_r - p->vel_r * W.dt; p->pos_old_z = p->pos_z - p->vel_z * W.dt; o.push_back(*p);
  }
  W.s->reflect();
  CHECK(W.s->particles.size() == o.size(), "case %ld number of particles", n);
  for (size_t i = 0; i < o.size(); ++i) {
    Particle &a = o[i], &b = *W.s->particles[i]; double sr = W.c0 * W.dr, sz = W.c1 * W.dz, r = a.pos_r - sr, z = a.pos_z - sz, vr = a.vel_r, vz = a.vel_z;
    fold(r, vr, W.dr/2, Lr - W.dr/2, W.w[0], W.w[2]); fold(z, vz, W.dz/2, Lz - W.dz/2, W.w[1], W.w[3]);
    CHECK(close(b.pos_r, r + sr, Lr) && close(b.pos_z, z + sz, Lz), "case %ld walls %d%d%d%d local (%g,%g) in cells -> (%g,%g) want (%g,%g)", n, W.w[0], W.w[1], W.w[2], W.w[3],
      (a.pos_r - sr) / W.dr, (a.pos_z - sz) / W.dz, (b.pos_r - sr) / W.dr, (b.pos_z - sz) / W.dz, r / W.dr, z / W.dz);
    CHECK(b.vel_r == vr && b.vel_z == vz && b.vel_phi == a.vel_phi, "case %ld walls %d%d%d%d local (%g,%g) of (%d,%d) cells velocity (%g,%g) -> (%g,%g) want (%g,%g)", n, W.w[0], W.w[1], W.w[2], W.w[3],
      (a.pos_r - sr) / W.dr, (a.pos_z - sz) / W.dz, W.nr, W.nz, a.vel_r, a.vel_z, b.vel_r, b.vel_z, vr, vz);
    CHECK(b.weight == a.weight && b.pos_phi == a.pos_phi && b.mark == a.mark, "case %ld frame", n);
  }
}
