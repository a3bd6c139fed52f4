#include "smb.hpp"
#include "beamP.hpp"
// the block is built by the real constructor with random sizes, offsets, walls, layers, species and beams; every domain is compared with the slice of the block it must hold
void one_case(long n)
{
  int R = I(1, 4), Z = I(1, 5), nr = R * I(3, 5) + I(0, R - 1), nz = Z * I(3, 5) + I(0, Z - 1), c0 = I(0, 2) ? 0 : I(1, 7), c1 = I(0, 2) ? 0 : I(1, 7);
  int gr = c0 + nr + (I(0, 2) ? 0 : I(1, 6)), gz = c1 + nz + (I(0, 2) ? 0 : I(1, 6));
  double dr = U(.001, .01), dz = U(.001, .01); bool w[4]; for (int i = 0; i < 4; ++i) w[i] = I(0, 1);
  size_t pml[4] = {0, (size_t)I(0, 6), (size_t)I(0, 6), (size_t)I(0, 6)};
  double s0 = U(1e-4, 1e-3), s1 = U(1e-2, 1e-1);
  Geometry *g = new Geometry({dr * nr, dz * nz}, {dr * gr, dz * gz}, {(size_t)c0, (size_t)c1, (size_t)(c0 + nr), (size_t)(c1 + nz)}, {0, pml[1], pml[2], pml[3]}, {s0, s1}, {w[0], w[1], w[2], w[3]});
  g->domains_amount = {(size_t)R, (size_t)Z};
  CHECK((int)g->global_cell_amount[0] == gr && (int)g->global_cell_amount[1] == gz, "case %ld: block of %dx%d cells in a space of %dx%d cells counts the space as %zux%zu", n, nr, nz, gr, gz, g->global_cell_amount[0], g->global_cell_amount[1]);
  CHECK(close(g->cell_size[0], dr, dr) && close(g->cell_size[1], dz, dz), "case %ld: cell size of the block", n);
  TimeSim *t = new TimeSim(); t->start = 0; t->current = 0; t->end = 1; t->step = 1e-13;
  Cfg *c = (Cfg *)calloc(1, sizeof(Cfg)); c->geometry = g; c->time = t;
  int ns = I(1, 3), nb = I(0, 2);
  for (int i = 0; i < ns; ++i)
  {
    particle_specie s; s.id = 10 + i; s.name = "specie" + std::to_string(i); s.mass = I(1, 2000); s.charge = I(-2, 2); s.macro_amount = R * Z * I(1, 50) + I(0, R * Z);
    s.left_density = U(1e16, 1e18); s.right_density = U(1e16, 1e18); s.temperature = U(.1, 10); c->particle_species.push_back(s);
  }
  int live = 0;
  for (int i = 0; i < nb; ++i)
  {
    particle_beam s; s.id = 1000 + i; s.name = "beam" + std::to_string(i); s.mass = I(1, 4); s.charge = I(-2, 2); s.macro_amount = I(10, 1000); s.bunches_amount = I(0, 3); s.start_time = U(0, 1e-9);
    s.bunch_length = U(.01, .1); s.bunches_distance = U(.01, .1); s.bunch_radius = U(.2, 1) * dr * nr; s.velocity = I(10000000, 200000000); s.density = U(1e14, 1e16); s.left_density = s.right_density = 0; s.temperature = 0;
    live += s.bunches_amount > 0; c->particle_beams.push_back(s);
  }
  SMB *b = new SMB(c, g, t, 0, 1);
  std::vector<int> own(nr * nz, 0);
  for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j)
  {
    Domain *d = b->domains(i, j); Geometry &q = d->geometry;
    int lo0 = q.cell_dims[0], lo1 = q.cell_dims[1], hi0 = q.cell_dims[2], hi1 = q.cell_dims[3];
    for (int x = lo0; x < hi0; ++x) for (int y = lo1; y < hi1; ++y)
      if (x >= c0 && x < c0 + nr && y >= c1 && y < c1 + nz) ++own[(x - c0) * nz + y - c1];
      else CHECK(false, "case %ld: domain (%d,%d) holds cell (%d,%d) outside the block", n, i, j, x, y);
    if (i + 1 < R) CHECK((int)b->domains(i + 1, j)->geometry.cell_dims[0] == hi0, "case %ld: radial neighbours of (%d,%d) are not adjacent", n, i, j);
    if (j + 1 < Z) CHECK((int)b->domains(i, j + 1)->geometry.cell_dims[1] == hi1, "case %ld: longitudinal neighbours of (%d,%d) are not adjacent", n, i, j);
    CHECK((int)q.cell_amount[0] == hi0 - lo0 && (int)q.cell_amount[1] == hi1 - lo1, "case %ld: cell amount of (%d,%d)", n, i, j);
    CHECK(close(q.cell_size[0], dr, dr) && close(q.cell_size[1], dz, dz), "case %ld: domain (%d,%d) of %dx%d has cells of %g x %g, the block %g x %g", n, i, j, hi0 - lo0, hi1 - lo1, q.cell_size[0], q.cell_size[1], dr, dz);
    CHECK(q.walls[0] == (w[0] && i == 0) && q.walls[1] == (w[1] && j == 0) && q.walls[2] == (w[2] && i == R - 1) && q.walls[3] == (w[3] && j == Z - 1), "case %ld: walls of domain (%d,%d) of %dx%d: %d%d%d%d, block %d%d%d%d", n, i, j, R, Z,
          (int)q.walls[0], (int)q.walls[1], (int)q.walls[2], (int)q.walls[3], w[0], w[1], w[2], w[3]);
    size_t e1 = lo1 < (int)pml[1] ? pml[1] : 0, e2 = hi0 > gr - (int)pml[2] ? pml[2] : 0, e3 = hi1 > gz - (int)pml[3] ? pml[3] : 0;
    CHECK(q.pml_size[0] == 0 && q.pml_size[1] == e1 && q.pml_size[2] == e2 && q.pml_size[3] == e3 && q.pml_sigma == g->pml_sigma, "case %ld: layers of domain (%d,%d): %zu %zu %zu, expected %zu %zu %zu", n, i, j, q.pml_size[1], q.pml_size[2], q.pml_size[3], e1, e2, e3);
    CHECK((int)q.global_cell_amount[0] == gr && (int)q.global_cell_amount[1] == gz, "case %ld: domain (%d,%d) sees a space of %zux%zu cells instead of %dx%d", n, i, j, q.global_cell_amount[0], q.global_cell_amount[1], gr, gz);
    CHECK((int)d->species_p.size() == ns + live, "case %ld: domain (%d,%d) has %zu species, %d configured", n, i, j, d->species_p.size(), ns + live);
    int at = 0;
    for (auto &s : c->particle_species)
    {
      SpecieP *p = d->species_p[at++]; double k = (s.right_density - s.left_density) / (dz * nz);
      CHECK(p->id == s.id && p->name == s.name && close(p->charge, s.charge * constant::EL_CHARGE, constant::EL_CHARGE) && close(p->mass, s.mass * constant::EL_MASS, constant::EL_MASS * s.mass) && p->temperature == s.temperature, "case %ld: specie %s of domain (%d,%d)", n, s.name.c_str(), i, j);
      CHECK((int)p->macro_amount == (int)(s.macro_amount / (R * Z) + 1e-9), "case %ld: specie %s has %u macroparticles in domain (%d,%d) of %dx%d, %g in all", n, s.name.c_str(), p->macro_amount, i, j, R, Z, s.macro_amount);
      CHECK(close(p->density[0], s.left_density + k * lo1 * dz, 1e18) && close(p->density[1], s.left_density + k * hi1 * dz, 1e18), "case %ld: density of %s in domain (%d,%d): %g .. %g, profile %g .. %g", n, s.name.c_str(), i, j, p->density[0], p->density[1], s.left_density + k * lo1 * dz, s.left_density + k * hi1 * dz);
      CHECK(p->geometry->cell_dims == q.cell_dims && p->time == t && p->particles.empty(), "case %ld: specie %s of domain (%d,%d) is bound to another geometry or clock", n, s.name.c_str(), i, j);
      Grid<double> *mp[] = {&p->density_map, &p->temperature_map, &p->energy_map, &p->momentum_abs_map_w, &p->momentum_map_w.r_component, &p->momentum_map.z_component};
      for (auto *x : mp) CHECK((int)x->x_size == hi0 - lo0 && (int)x->y_size == hi1 - lo1 && x->o_s == 2 && x->x_real_size == x->x_size + 4 && x->y_real_size == x->y_size + 4, "case %ld: a map of %s has %ux%u nodes in domain (%d,%d)", n, s.name.c_str(), x->x_size, x->y_size, i, j);
    }
    for (auto &s : c->particle_beams)
      if (s.bunches_amount > 0)
      {
        BeamP *p = dynamic_cast<BeamP *>(d->species_p[at++]);
        CHECK(p && p->id == s.id && p->name == s.name && close(p->charge, s.charge * constant::EL_CHARGE, constant::EL_CHARGE) && close(p->mass, s.mass * constant::EL_MASS, constant::EL_MASS * s.mass), "case %ld: beam %s of domain (%d,%d)", n, s.name.c_str(), i, j);
        CHECK(p->radius == s.bunch_radius && p->bunch_length == s.bunch_length && p->bunches_distance == s.bunches_distance && (int)p->bunches_amount == s.bunches_amount && p->velocity == s.velocity && p->start_time == s.start_time, "case %ld: beam %s of domain (%d,%d) has other parameters than configured", n, s.name.c_str(), i, j);
        CHECK(p->geometry->cell_dims == q.cell_dims && p->time == t, "case %ld: beam %s of domain (%d,%d) is bound to another geometry or clock", n, s.name.c_str(), i, j);
      }
    CHECK(d->time == t && d->current->geometry == &d->geometry && d->maxwell_solver->geometry == &d->geometry && d->maxwell_solver->current == d->current && d->pusher->maxwell_solver == d->maxwell_solver, "case %ld: parts of domain (%d,%d) are not linked to each other", n, i, j);
    CHECK(d->current->species_p == d->species_p && d->pusher->species_p == d->species_p && d->current->time == t && d->maxwell_solver->time == t && d->pusher->time == t, "case %ld: parts of domain (%d,%d) act on other species or another clock", n, i, j);
  }
  for (int x = 0; x < nr; ++x) for (int y = 0; y < nz; ++y)
    CHECK(own[x * nz + y] == 1, "case %ld: cell (%d,%d) of %dx%d belongs to %d domains of %dx%d", n, x, y, nr, nz, own[x * nz + y], R, Z);
}
