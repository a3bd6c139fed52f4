ID, PROP = 'B02', 'C02'
NEEDS = 'halo width of two: only the inner one of the two shared columns is affected'
BREAKS = 'the upper grid receives the sum of the wrong strip after a longitudinal overlay'
EDITS = [('include/algo/grid.hpp', 'grid[i][y_real_size-1-d] = rhsgrid.grid[i][2*o_s-1-d];', 'grid[i][y_real_size-1-d] = rhsgrid.grid[i][o_s+d];')]
SRCS = []
DEMO = r'''
#include "common.hpp"
#include "algo/grid.hpp"
void one_case(long n)
{
  int nx = I(4, 6), ny = I(4, 6), my = I(4, 7); Grid<double> a(nx, ny, 2), b(nx, my, 2);
  double **p = a.get_grid(), **q = b.get_grid();
  for (int i = 0; i < nx + 4; ++i) { for (int j = 0; j < ny + 4; ++j) p[i][j] = U(0, 1); for (int j = 0; j < my + 4; ++j) q[i][j] = U(0, 1); }
  std::vector<std::vector<double>> s(nx + 4, std::vector<double>(4));
  for (int i = 2; i < nx + 2; ++i) for (int d = 0; d < 4; ++d) s[i][d] = p[i][ny + d] + q[i][d];
  a.overlay_y(b);
  for (int i = 2; i < nx + 2; ++i) for (int d = 0; d < 4; ++d) {
    CHECK(close(p[i][ny + d], s[i][d], 1), "lower %d %d", i, d); CHECK(close(q[i][d], s[i][d], 1), "upper %d %d", i, d);
  }
}
'''
