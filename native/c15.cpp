#include "smb.hpp"
#include "specie.hpp"
#include <map>
// one block is advanced by the step functions of the simulation block, its twin stage by stage on species and solvers in the order of the scheme
struct Probe : SpecieP
{
  int injected = 0, filled = 0, vel = 0, bound = 0; bool order = true;
  Probe(Geometry *g, TimeSim *t) : SpecieP(77, "probe", -1, 1, 0, 1e17, 1e17, 1, g, t) {}
  void inject() { ++injected; }
  void fullyfill_spatial_distribution() { ++filled; if (vel) order = false; Particle *p = new Particle(); p->pos_r = (geometry->cell_dims[0] + 1.5) * geometry->cell_size[0]; p->pos_z = (geometry->cell_dims[1] + 2.5) * geometry->cell_size[1]; p->cell_r = p->cell_z = 99999; particles.push_back(p); }
  void velocity_distribution() { ++vel; }
};
static void fill(BW &W, int ns, int per)
{
  int mark = 0;
  for (int i = 0; i < W.R; ++i) for (int j = 0; j < W.Z; ++j)
  {
    Domain *d = W.b->domains(i, j); int b = part(W.nr, W.R, i), t = part(W.nr, W.R, i + 1), l = part(W.nz, W.Z, j), r = part(W.nz, W.Z, j + 1);
    for (Grid3D<double> *g : {&d->maxwell_solver->field_e, &d->maxwell_solver->field_h, &d->maxwell_solver->field_h_at_et, &d->current->current})
      for (Grid<double> *c : {&g->r_component, &g->phi_component, &g->z_component})
      { double **p = c->get_grid(); double k = g == &d->current->current ? 1e4 : g == &d->maxwell_solver->field_e ? 1e6 : 1e3; for (int x = 0; x < t - b + 4; ++x) for (int y = 0; y < r - l + 4; ++y) p[x][y] = U(-k, k); }
    for (int s = 0; s < ns; ++s) for (int k = 0; k < per; ++k)
    {
      Particle *p = new Particle(); double v = U(1e6, 2.5e8), a = U(0, 6.28), c = U(-1, 1);
      p->pos_r = (b + U(i ? 0 : .5, t - b)) * W.dr; p->pos_z = (l + U(0, r - l)) * W.dz; p->pos_phi = 0; p->pos_old_r = p->pos_r; p->pos_old_z = p->pos_z; p->pos_old_phi = 0;
      if (i == W.R - 1 && I(0, 2) == 0) p->pos_r = (t - U(.5, .6)) * W.dr;
      p->vel_r = v * cos(a) * sqrt(1 - c * c); p->vel_phi = v * sin(a) * sqrt(1 - c * c); p->vel_z = v * c; p->weight = U(.5, 2) * 1e6; p->sin = 0; p->mark = ++mark; p->specie_id = 10 + s;
      p->cell_r = (size_t)(p->pos_r / W.dr); p->cell_z = (size_t)(p->pos_z / W.dz); d->species_p[s]->particles.push_back(p);
    }
  }
}
static void same(long n, const char *what, BW &A, BW &B, bool fields, bool parts)
{
  for (int i = 0; i < A.R; ++i) for (int j = 0; j < A.Z; ++j)
  {
    Domain *d = A.b->domains(i, j), *e = B.b->domains(i, j);
    if (fields)
    {
      Grid3D<double> *ga[] = {&d->maxwell_solver->field_e, &d->maxwell_solver->field_h, &d->maxwell_solver->field_h_at_et, &d->current->current};
      Grid3D<double> *gb[] = {&e->maxwell_solver->field_e, &e->maxwell_solver->field_h, &e->maxwell_solver->field_h_at_et, &e->current->current};
      const char *nm[] = {"electric field", "magnetic field", "magnetic field at E time", "current"}; double sc[] = {1e6, 1e3, 1e3, 1e4};
      for (int f = 0; f < 4; ++f) for (int c = 0; c < 3; ++c)
      {
        Grid<double> *ca[] = {&ga[f]->r_component, &ga[f]->phi_component, &ga[f]->z_component}, *cb[] = {&gb[f]->r_component, &gb[f]->phi_component, &gb[f]->z_component};
        double **p = ca[c]->get_grid(), **q = cb[c]->get_grid();
        for (int x = 0; x < (int)ca[c]->x_real_size; ++x) for (int y = 0; y < (int)ca[c]->y_real_size; ++y)
          CHECK(close(p[x][y], q[x][y], sc[f]), "case %ld %s, %dx%d domains: %s component %d of domain (%d,%d) node (%d,%d) is %g, by stages %g", n, what, A.R, A.Z, nm[f], c, i, j, x - 2, y - 2, p[x][y], q[x][y]);
      }
    }
    if (parts) for (size_t s = 0; s < d->species_p.size(); ++s)
    {
      std::map<size_t, Particle *> m; for (Particle *p : e->species_p[s]->particles) m[p->mark] = p;
      CHECK(d->species_p[s]->particles.size() == m.size(), "case %ld %s, %dx%d domains: domain (%d,%d) species %zu holds %zu particles, by stages %zu", n, what, A.R, A.Z, i, j, s, d->species_p[s]->particles.size(), m.size());
      for (Particle *p : d->species_p[s]->particles)
      {
        if (!m.count(p->mark)) { FAIL("case %ld %s: particle %zu is in domain (%d,%d)", n, what, (size_t)p->mark, i, j); continue; }
        Particle *q = m[p->mark];
        bool ok = close(p->pos_r, q->pos_r, A.dr) && close(p->pos_z, q->pos_z, A.dz) && close(p->pos_old_r, q->pos_old_r, A.dr) && close(p->pos_old_z, q->pos_old_z, A.dz) &&
          close(p->vel_r, q->vel_r, 1e6) && close(p->vel_phi, q->vel_phi, 1e6) && close(p->vel_z, q->vel_z, 1e6) && p->cell_r == q->cell_r && p->cell_z == q->cell_z;
        CHECK(ok, "case %ld %s, %dx%d domains: particle %zu of domain (%d,%d): position (%g,%g) was (%g,%g) velocity (%g,%g,%g) cell (%zu,%zu), by stages (%g,%g) was (%g,%g) velocity (%g,%g,%g) cell (%zu,%zu)", n, what, A.R, A.Z, (size_t)p->mark, i, j,
              p->pos_r, p->pos_z, p->pos_old_r, p->pos_old_z, p->vel_r, p->vel_phi, p->vel_z, (size_t)p->cell_r, (size_t)p->cell_z, q->pos_r, q->pos_z, q->pos_old_r, q->pos_old_z, q->vel_r, q->vel_phi, q->vel_z, (size_t)q->cell_r, (size_t)q->cell_z);
      }
    }
  }
}
void one_case(long n)
{
  static const int amt[] = {1, 2, 4};
  int R = amt[I(0, 2)], Z = amt[I(0, 2)], nr = R * I(4, 6), nz = Z * I(4, 6), ns = I(1, 3), per = I(1, 6); bool aw = true;
  unsigned long s0 = RNG(), s1 = RNG();
  auto mk = [&] { RNG.seed(s0); BW W = block(R, Z, nr, nz, ns, {0, 0, 0, 0}, aw); RNG.seed(s1); fill(W, ns, per); return W; };
  BW A = mk(), B = mk();
  auto each = [&](std::function<void(Domain *)> f) { for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) f(B.b->domains(i, j)); };
  A.b->solve_maxvell();
  each([](Domain *d) { d->maxwell_solver->calc_field_e(); }); B.b->field_e_overlay(); each([](Domain *d) { d->maxwell_solver->calc_field_h(); }); B.b->field_h_overlay();
  same(n, "solve_maxvell", A, B, true, false);
  A.b->advance_particles();
  each([](Domain *d) { (*d->pusher)(); for (SpecieP *s : d->species_p) { s->dump_position_to_old(); s->mover_cylindrical(); s->back_position_to_rz(); s->back_velocity_to_rz(); s->reflect(); s->bind_cell_numbers(); } });
  B.b->particles_runaway_collector();
  same(n, "advance_particles", A, B, false, true);
  A.b->solve_current();
  each([](Domain *d) { for (Grid<double> *c : {&d->current->current.r_component, &d->current->current.phi_component, &d->current->current.z_component}) { double **p = c->get_grid(); for (int x = 0; x < (int)c->x_real_size; ++x) for (int y = 0; y < (int)c->y_real_size; ++y) p[x][y] = 0; } d->current->current_distribution(); });
  B.b->current_overlay();
  same(n, "solve_current", A, B, true, false);
  // injection and initial distribution, seen by a species that counts its calls
  std::vector<Probe *> pr;
  for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) { Domain *d = A.b->domains(i, j); for (auto s : d->species_p) s->particles.clear(); d->species_p.clear(); for (int k = 0; k < 2; ++k) { pr.push_back(new Probe(&d->geometry, A.t)); d->species_p.push_back(pr.back()); } }
  int k = 0;
  A.b->distribute();
  for (Probe *p : pr)
  {
    CHECK(p->filled == 1 && p->vel == 1 && p->order, "case %ld distribute, %dx%d domains: a species was placed %d times, its velocities set %d times", n, R, Z, p->filled, p->vel);
    if (p->particles.size() == 1) CHECK(p->particles[0]->cell_r == p->geometry->cell_dims[0] + 1 && p->particles[0]->cell_z == p->geometry->cell_dims[1] + 2, "case %ld distribute: cell numbers are not set after placement: (%zu,%zu)", n, (size_t)p->particles[0]->cell_r, (size_t)p->particles[0]->cell_z);
  }
  bool beams = I(0, 1); if (beams) A.c->particle_beams.push_back(particle_beam());
  A.b->inject_beam();
  for (Probe *p : pr) { int want = beams && p->geometry->cell_dims[1] == 0; CHECK(p->injected == want, "case %ld inject_beam, %dx%d domains, beams %d: injected %d times in a domain that starts at z cell %zu", n, R, Z, beams, p->injected, (size_t)p->geometry->cell_dims[1]); }
}
