#include "specie.hpp"
#include "beamP.hpp"
// a beam in a row of radial domains: bunch by bunch, step by step
void one_case(long n)
{
  int nd = I(1, 3), nr = I(2, 6), nz = I(3, 8), c1 = I(0, 3) ? 0 : I(1, 8);
  double dr = U(.001, .01), dz = U(.001, .01), vel = U(1e7, 2e8), rad = dr * nr * U(.1, nd * 1.2);
  unsigned bunches = I(1, 4), macro = I(1, 3000), id = I(0, 60000); double len = U(.002, .05), gap = U(.01, .05), den = U(1, 9) * 1e14, start = I(0, 1) ? 0 : U(0, 1e-9);
  TimeSim *t = new TimeSim(); t->start = 0; t->end = 1; t->step = len / vel / U(1, 30); if (vel * t->step > gap / 1.01) t->step = gap / vel / 1.01;
  std::vector<BeamP*> B; std::vector<Geometry*> G; double part = 0;
  for (int d = 0; d < nd; ++d) {
    G.push_back(new Geometry({dr * nr, dz * nz}, {dr * nr * nd, dz * (nz + c1)}, {(size_t)(nr * d), (size_t)c1, (size_t)(nr * (d + 1)), (size_t)(c1 + nz)}, {0, 0, 0, 0}, {0, 0}, {d == 0, c1 == 0, d == nd - 1, 0}));
    B.push_back(new BeamP(id, "beam", -1, 1, macro, start, rad, den, bunches, len, gap, vel, G.back(), t));
    part += B.back()->bunch_macro_amount;
  }
  if (c1 == 0 && rad <= dr * nr * nd) CHECK(close(part, (double)macro / bunches, (double)macro, 1e-9), "case %ld: %g macroparticles per bunch in %d domains, want %g", n, part, nd, (double)macro / bunches);
  size_t total[3] = {0, 0, 0};
  for (t->current = 0; t->current < start + (len + gap) / vel * (bunches + 1); t->current += t->step) {
    int active = -1;
    for (unsigned b = 0; b < bunches; ++b) { double s = start + (len + gap) / vel * b; if (t->current >= s && t->current < s + len / vel) active = b; }
    double edge = 1; for (unsigned b = 0; b <= bunches; ++b) for (double e : {start + (len + gap) / vel * b, start + (len + gap) / vel * b + len / vel}) edge = std::min(edge, fabs(t->current - e) / t->step);
    for (int d = 0; d < nd; ++d) {
      size_t before = B[d]->particles.size(); B[d]->inject(); size_t made = B[d]->particles.size() - before;
      double r0 = nr * d * dr, span = c1 ? 0 : std::max(0., std::min(rad - r0, nr * dr)), per = macro * (span / rad) / bunches * vel * t->step / len;
      size_t want = active >= 0 && r0 < rad ? (size_t)ceil(per) : 0;
      if (edge > 1e-6 && fabs(per - round(per)) > 1e-9) CHECK(made == want, "case %ld domain %d time %g bunch %d: %zu particles, want %zu", n, d, t->current, active, made, want);
      total[d] += made;
      for (size_t i = before; i < B[d]->particles.size(); ++i) {
        Particle *p = B[d]->particles[i]; double q = 1e-9;
        CHECK(p->specie_id == id && p->vel_r == 0 && p->vel_phi == 0 && p->vel_z == vel && p->pos_phi == 0, "case %ld domain %d: id %d velocity %g %g %g", n, d, (int)p->specie_id, p->vel_r, p->vel_phi, p->vel_z);
        CHECK(p->pos_r >= r0 + dr / 2 - q * dr && p->pos_r <= r0 + dr / 2 + span + q * dr, "case %ld domain %d: radius %g outside %g + %g", n, d, p->pos_r, r0 + dr / 2, span);
        CHECK(p->pos_z >= dz / 2 - q * dz && p->pos_z <= dz / 2 + vel * t->step + q * dz, "case %ld domain %d: longitude %g, step %g", n, d, p->pos_z, vel * t->step);
        double w = M_PI * rad * rad * len * bunches * den / macro * 2 * p->pos_r / rad;
        CHECK(close(p->weight, w, w, 1e-9), "case %ld domain %d: weight %g want %g", n, d, p->weight, w);
        double x = p->pos_r / G[d]->cell_size[0], y = p->pos_z / G[d]->cell_size[1];
        if (fabs(x - round(x)) > 1e-9) CHECK(p->cell_r == (size_t)floor(x), "case %ld domain %d: radial cell %zu at %g cells", n, d, p->cell_r, x);
        if (fabs(y - round(y)) > 1e-9) CHECK(p->cell_z == (size_t)floor(y), "case %ld domain %d: longitudinal cell %zu at %g cells", n, d, p->cell_z, y);
      }
    }
  }
  for (int d = 0; d < nd; ++d) {
    CHECK(B[d]->current_bunch_number == bunches, "case %ld domain %d: %u bunches of %u", n, d, B[d]->current_bunch_number, bunches);
    std::vector<Particle> old;
    for (auto p : B[d]->particles) { p->pos_r = (nr * d + U(-.4, 2)) * dr; p->vel_r = U(-1, 1); old.push_back(*p); }
    B[d]->reflect();
    for (size_t i = 0; i < old.size(); ++i) {
      Particle *p = B[d]->particles[i]; bool hit = d == 0 && old[i].pos_r < G[d]->cell_size[0] / 2;
      CHECK(close(p->pos_r, hit ? G[d]->cell_size[0] - old[i].pos_r : old[i].pos_r, dr, 1e-9) && p->vel_r == (hit ? -old[i].vel_r : old[i].vel_r), "case %ld domain %d: reflected to %g %g from %g %g", n, d, p->pos_r, p->vel_r, old[i].pos_r, old[i].vel_r);
    }
    delete B[d]; delete G[d];
  }
  delete t;
}
