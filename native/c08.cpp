#include "specie.hpp"
void one_case(long n)
{
  SW W = sworld(I(0, 5)); double dt = W.dt;
  std::vector<Particle> o;
  for (auto p : W.s->particles) {
    if (I(0, 2) == 0) p->pos_r = dt * 3e8 * U(.01, 1); // close to the axis
    p->pos_z += dt * 3e8; o.push_back(*p);
  }
  W.s->dump_position_to_old(); W.s->mover_cylindrical(); W.s->back_position_to_rz(); W.s->back_velocity_to_rz(); W.s->bind_cell_numbers();
  CHECK(W.s->particles.size() == o.size(), "case %ld number of particles", n);
  for (size_t i = 0; i < o.size(); ++i) {
    Particle &a = o[i], &b = *W.s->particles[i]; double x = a.pos_r + a.vel_r * dt, y = a.vel_phi * dt, r = sqrt(x*x + y*y), c = x / r, s = y / r;
    double sp = sqrt(a.vel_r*a.vel_r + a.vel_phi*a.vel_phi);
    double L = 3e8 * dt;
    CHECK(close(b.pos_r, r, L) && b.pos_phi == 0 && close(b.pos_z, a.pos_z + a.vel_z * dt, L), "case %ld position (%g,%g,%g) want (%g,0,%g)", n, b.pos_r, b.pos_phi, b.pos_z, r, a.pos_z + a.vel_z * dt);
    CHECK(fabs(b.vel_r - (c*a.vel_r + s*a.vel_phi)) < 1e-5 * sp && fabs(b.vel_phi - (c*a.vel_phi - s*a.vel_r)) < 1e-5 * sp && b.vel_z == a.vel_z,
      "case %ld velocity after flight from r=%g v=(%g,%g) dt=%g is (%g,%g) want (%g,%g)", n, a.pos_r, a.vel_r, a.vel_phi, dt, b.vel_r, b.vel_phi, c*a.vel_r + s*a.vel_phi, c*a.vel_phi - s*a.vel_r);
    CHECK(fabs(b.pos_r * b.vel_phi - a.pos_r * a.vel_phi) < 1e-5 * sp * (a.pos_r + L), "case %ld angular momentum %g -> %g", n, a.pos_r * a.vel_phi, b.pos_r * b.vel_phi);
    CHECK(b.pos_old_r == a.pos_r && b.pos_old_z == a.pos_z && b.pos_old_phi == a.pos_phi, "case %ld old position", n);
    CHECK(b.cell_r == (size_t)floor(b.pos_r / W.dr) && b.cell_z == (size_t)floor(b.pos_z / W.dz), "case %ld cell (%zu,%zu) of r/dr=%g z/dz=%g", n, b.cell_r, b.cell_z, b.pos_r / W.dr, b.pos_z / W.dz);
    CHECK(b.weight == a.weight && b.mark == a.mark && b.specie_id == a.specie_id, "case %ld weight or mark changed", n);
  }
}
