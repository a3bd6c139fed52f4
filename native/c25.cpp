#include "yee.hpp"
#include "maxwellSolver/externalFields.hpp"
static const char *NM[] = {"none", "const_r", "const_phi", "const_z", "linerad_r", "linerad_z"};
void one_case(long n)
{
  World W = world(); int pe = I(0, 5), pm = I(0, 5);
  if (n % 4 == 0) pe = 3; if (n % 4 == 1) pm = 3; if (n % 4 == 2) pe = pm = 3;
  double ea = U(1, 100), ma = U(1, 100);
  ExternalFields X(W.g, W.t, NM[pe], NM[pm], {ea, 7, 8}, {ma});
  for (int s = 0; s < 2; ++s) {
    X();
    for (int f = 0; f < 2; ++f) for (int c = 0; c < 3; ++c) {
      Grid3D<double> &F = f ? X.field_h : X.field_e; double **p = F[c].get_grid();
      for (int i = -2; i < W.nr + 2; ++i) for (int k = -2; k < W.nz + 2; ++k) {
        bool in = (!W.w[0] || i >= 1) && (!W.w[1] || k >= 1) && (!W.w[2] || i < W.nr - 1) && (!W.w[3] || k < W.nz - 1);
        double want = (f ? pm : pe) == 3 && c == 2 && in ? (f ? ma : ea) : 0;
        CHECK(p[i + 2][k + 2] == want, "case %ld %s/%s walls %d%d%d%d of %dx%d: %s[%d](%d,%d) = %g want %g", n, NM[pe], NM[pm], W.w[0], W.w[1], W.w[2], W.w[3], W.nr, W.nz, f ? "H" : "E", c, i, k, p[i + 2][k + 2], want);
      }
    }
  }
}
