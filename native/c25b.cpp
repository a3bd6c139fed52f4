#include "smb.hpp"
// the field in every copy of a cell is the configured one, whatever the number of domains
void one_case(long n)
{
  int R = I(1, 3), Z = I(1, 3); BW W = block(R, Z, R * 3 + I(0, 5), Z * 3 + I(0, 5));
  std::vector<external_field> &x = W.c->external_fields;
  for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) W.b->domains(i, j)->apply_external_fields();
  for (int i = 0; i < R; ++i) for (int j = 0; j < Z; ++j) {
    Domain *d = W.b->domains(i, j); Geometry &g = d->geometry; int nr = g.cell_amount[0], nz = g.cell_amount[1], c0 = g.cell_dims[0], c1 = g.cell_dims[1];
    for (int f = 0; f < 2; ++f) for (int c = 0; c < 3; ++c) {
      double **p = (f ? d->external_fields->field_h : d->external_fields->field_e)[c].get_grid();
      for (int a = -2; a < nr + 2; ++a) for (int b = -2; b < nz + 2; ++b) {
        int gi = c0 + a, gk = c1 + b; if (gi < 0 || gk < 0 || gi >= W.nr || gk >= W.nz) continue;
        bool in = (!W.w[0] || gi >= 1) && (!W.w[1] || gk >= 1) && (!W.w[2] || gi < W.nr - 1) && (!W.w[3] || gk < W.nz - 1);
        double want = c == 2 && in && x[f].formfactor == "const_z" ? x[f].params[0] : 0;
        CHECK(p[a + 2][b + 2] == want, "case %ld %dx%d domains, %s: domain %d,%d cell %d,%d of %dx%d: component %d = %g want %g", n, R, Z, f ? "magnetic" : "electric", i, j, gi, gk, W.nr, W.nz, c, p[a + 2][b + 2], want);
      }
    }
    if (!(n % 8)) CHECK(d->pusher && ((Pusher *)d->pusher)->external_fields == d->external_fields && ((Pusher *)d->pusher)->maxwell_solver == d->maxwell_solver, "case %ld: pusher of domain %d,%d uses other fields", n, i, j);
  }
}
