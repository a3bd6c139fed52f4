// instantiates the header-only templates so that their bodies are extracted
#include "algo/grid.hpp"
#include "algo/grid3d.hpp"
#include "math/vector3d.hpp"
template class Grid<double>;
template class Grid3D<double>;
template class vector3d<double>;
#include "algo/weighter.hpp"
template void weight_cylindrical<double>(Geometry *, Grid<double> *, double, double, double);
// friend operators of the vector template are instantiated by use
typedef vector3d<double> v3;
#define V3OP(n, op) v3 v3_##n(v3 &a, v3 &b) { return a op b; } v3 v3s_##n(v3 &a, double &b) { return a op b; }
V3OP(add, +)
V3OP(sub, -)
V3OP(mul, *)
V3OP(div, /)
v3 v3_make(double x, double y, double z) { return v3(x, y, z); }
v3 v3_zero() { return v3(); }
double v3_at(v3 &a, int i) { return a[i]; }
void v3_put(v3 &a, int i, double x) { a[i] = x; }
void v3_set(v3 &a, v3 &b) { a = b; }
v3 v3_copy(v3 &a) { return a; }
v3 v3_cross(v3 &a, v3 &b) { return a.cross(b); }
v3 v3_abs(v3 &a) { return a.abs(); }
v3 v3_pow(v3 &a, double &b) { return a.pow(b); }
double v3_dot(v3 &a, v3 &b) { return a.dot(b); }
