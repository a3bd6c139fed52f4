// ZigZag current deposition: discrete charge continuity for every particle move of less than one cell
#include "specie.hpp"
#include "current/currentZigZag.hpp"
static double DR, DZ; static SW W;
static void charge(std::vector<std::vector<double>> &m, double r, double z, int i, int k, double q)
{
  double x = r / DR - i, y = z / DZ - k; i += 2 - W.c0; k += 2 - W.c1;
  m[i][k] += q * (1 - x) * (1 - y); m[i+1][k] += q * x * (1 - y); m[i][k+1] += q * (1 - x) * y; m[i+1][k+1] += q * x * y;
}
void one_case(long n)
{
  bool degenerate = n % 3 == 2;      // exact cell borders, exact corners: dyadic cells
  W = sworld(1);
  if (degenerate) { W.g->cell_size[0] = DR = 1. / 64; W.g->cell_size[1] = DZ = 1. / 128; W.dr = DR; W.dz = DZ; }
  else { DR = W.dr; DZ = W.dz; }
  int nr = W.nr, nz = W.nz, c0 = W.c0, c1 = W.c1; double dt = W.dt;
  SpecieP *s2 = new SpecieP(4, "other", 2, 1, 1, 1e17, 1e17, 1, W.g, W.t);
  if (I(0, 1)) std::swap(s2->particles, W.s->particles);
  CurrentZigZag cur(W.g, W.t, {W.s, s2});
  std::vector<std::vector<double>> q0(nr + 4, std::vector<double>(nz + 4, 0.)), q1 = q0, az = q0; double qs = 0, vol = 0;
  std::string log;
  for (auto s : {W.s, s2}) for (auto p : s->particles) {
    int i0 = I(0, nr - 1) + c0, k0 = I(0, nz - 1) + c1, di = I(-1, 1), dk = I(-1, 1);
    if (i0 + di < c0 || i0 + di >= c0 + nr) di = 0; if (k0 + dk < c1 || k0 + dk >= c1 + nz) dk = 0;
    double x0, x1, y0, y1; int mode = I(0, 5);
    if (degenerate) {
      auto G = [&]() { return I(0, 3) / 4.; };
      x0 = G(); x1 = G(); y0 = G(); y1 = G();
      if (!i0 && !x0) x0 = .25; if (!(i0 + di) && !x1) x1 = .25;
    } else { x0 = U(.05, .95); x1 = U(.05, .95); y0 = U(.05, .95); y1 = U(.05, .95); }
    if (mode == 0) { di = 0; x1 = x0; }            // strictly axial
    if (mode == 1) { dk = 0; y1 = y0; }            // strictly radial
    if (mode == 2 && di && dk && !degenerate) { }  // corner
    double ro = (i0 + x0) * DR, rn = (i0 + di + x1) * DR, zo = (k0 + y0) * DZ, zn = (k0 + dk + y1) * DZ;
    if (mode == 0) rn = ro; if (mode == 1) zn = zo;
    if (!degenerate && mode > 1) { if (fabs(rn - ro) < .02 * DR) rn += (x1 < .5 ? .04 : -.04) * DR; if (fabs(zn - zo) < .02 * DZ) zn += (y1 < .5 ? .04 : -.04) * DZ; }
    p->pos_old_r = ro; p->pos_r = rn; p->pos_old_z = zo; p->pos_z = zn;
    p->cell_r = (int)floor(rn / DR); p->cell_z = (int)floor(zn / DZ);
    double q = s->charge * p->weight; qs += fabs(q);
    charge(q0, ro, zo, floor(ro / DR), floor(zo / DZ), q); charge(q1, rn, zn, floor(rn / DR), floor(zn / DZ), q);
    vol = M_PI * DZ * DR * DR * (2 * floor((ro + rn) / 2 / DR) + 1);
    { int i = p->cell_r, k = p->cell_z, io = floor(ro / DR), ko = floor(zo / DZ); double fr = i == io ? (ro + rn) / 2 : std::max(i, io) * DR, fz = k == ko ? (zo + zn) / 2 : std::max(k, ko) * DZ, x = (rn + fr) / 2 / DR - i, y = (zn + fz) / 2 / DZ - k;
      for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) az[i - c0 + a + 2][k - c1 + b + 2] += q * p->vel_phi * (a ? x : 1 - x) * (b ? y : 1 - y) / vol; }
    char buf[200]; snprintf(buf, 200, " [cell (%d,%d) off (%d,%d): (%.4g,%.4g)->(%.4g,%.4g) cells]", i0, k0, c0, c1, ro / DR, zo / DZ, rn / DR, zn / DZ); log += buf;
  }
  // previous content of inner cells is kept (deposition accumulates), halos start from zero
  std::vector<std::vector<double>> pre[3]; Grid<double> *g[3] = {&cur.current[0], &cur.current[1], &cur.current[2]};
  double jr = qs / (dt * 2 * M_PI * DR * DZ), jz = qs / (dt * DR * DR);
  for (int c = 0; c < 3; ++c) { pre[c].assign(nr + 4, std::vector<double>(nz + 4, 0.)); double sc = c == 0 ? jr : c == 2 ? jz : 0; for (int i = 0; i < nr + 4; ++i) for (int k = 0; k < nz + 4; ++k) { double v = U(-1, 1) * sc; g[c]->get_grid()[i][k] = v; pre[c][i][k] = i >= 2 && k >= 2 && i < nr + 2 && k < nz + 2 ? v : 0; } }
  if (I(0, 1)) for (int c = 0; c < 3; ++c) for (int i = 0; i < nr + 4; ++i) for (int k = 0; k < nz + 4; ++k) g[c]->get_grid()[i][k] = pre[c][i][k] = 0;
  cur.current_distribution();
  auto J = [&](int c, int i, int k) { return i < 0 || k < 0 ? 0. : g[c]->get_grid()[i][k] - pre[c][i][k]; };
  for (int i = 0; i < nr + 4; ++i) for (int k = 0; k < nz + 4; ++k) {
    int a = i - 2 + c0;
    double out = vol * ((J(0, i, k) - J(0, i - 1, k)) / DR + (J(2, i, k) - J(2, i, k - 1)) / DZ);
    double res = q1[i][k] - q0[i][k] + dt * out;
    CHECK(fabs(res) < 1e-6 * qs, "case %ld: charge of node (%d,%d) changes by %g of the total but currents carry away %g:%s", n, a, k - 2 + c1, (q1[i][k] - q0[i][k]) / qs, dt * out / qs, log.c_str());
    CHECK(close(J(1, i, k), az[i][k], qs * 3e8 / (DR * DR * DZ), 1e-7), "case %ld: azimuthal current of node (%d,%d) %g want %g:%s", n, a, k - 2 + c1, J(1, i, k), az[i][k], log.c_str());
  }
}
