ID, PROP = 'B01', 'C01'
NEEDS = 'a grid whose two sides differ in length, cleared including its halo'
BREAKS = 'clearing the halo skips the far columns, because the upper limit is taken from the row count'
EDITS = [('include/algo/grid.hpp', 'i >= x_real_size - o_s || j >= y_real_size - o_s', 'i >= x_real_size - o_s || j >= x_real_size - o_s')]
SRCS = []
DEMO = r'''
#include "common.hpp"
#include "algo/grid.hpp"
void one_case(long n)
{
  int nx = I(1, 5), ny = nx + I(1, 4); Grid<double> g(nx, ny, 2);
  double **p = g.get_grid();
  for (int i = 0; i < nx + 4; ++i) for (int j = 0; j < ny + 4; ++j) p[i][j] = 1 + i * 100 + j;
  g.overlay_set(-7);
  for (int i = 0; i < nx + 4; ++i) for (int j = 0; j < ny + 4; ++j) {
    bool halo = i < 2 || j < 2 || i >= nx + 2 || j >= ny + 2;
    CHECK(p[i][j] == (halo ? -7 : 1 + i * 100 + j), "cell %d %d", i, j);
  }
}
'''
