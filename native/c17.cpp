#include "common.hpp"
#include "math/vector3d.hpp"
typedef vector3d<double> V;
static bool is(V v, double a, double b, double c) { return close(v[0], a, 1) && close(v[1], b, 1) && close(v[2], c, 1); }
#define OK(v, a, b, c, what) CHECK(is(v, a, b, c), "case %ld %s: got (%g,%g,%g) want (%g,%g,%g) for a=(%g,%g,%g) b=(%g,%g,%g) s=%g", n, what, (v)[0], (v)[1], (v)[2], (double)(a), (double)(b), (double)(c), x[0], x[1], x[2], y[0], y[1], y[2], s)
void one_case(long n)
{
  double x[3], y[3], s = U(.5, 3) * (I(0, 1) ? 1 : -1);
  for (int i = 0; i < 3; ++i) { x[i] = U(-3, 3); y[i] = U(.3, 3) * (I(0, 1) ? 1 : -1); if (I(0, 6) == 0) y[i] = x[i] = I(1, 3); }
  if (I(0, 9) == 0) for (int i = 0; i < 3; ++i) x[i] = y[i];
  V a(x[0], x[1], x[2]), b(y[0], y[1], y[2]), z; 
  OK(z, 0, 0, 0, "default"); OK(a, x[0], x[1], x[2], "constructor");
#define ALL(op, name) do { V r = a op b; OK(r, x[0] op y[0], x[1] op y[1], x[2] op y[2], name); r = a op s; OK(r, x[0] op s, x[1] op s, x[2] op s, name " scalar"); \
  V c = a; c op##= b; OK(c, x[0] op y[0], x[1] op y[1], x[2] op y[2], name "="); c = a; c op##= s; OK(c, x[0] op s, x[1] op s, x[2] op s, name "= scalar"); \
  OK(a, x[0], x[1], x[2], name " left operand"); OK(b, y[0], y[1], y[2], name " right operand"); } while (0)
  ALL(+, "+"); ALL(-, "-"); ALL(*, "*"); ALL(/, "/");
  V c; c = s; OK(c, s, s, s, "= scalar"); c = a; c[1] = 7; OK(c, x[0], 7, x[2], "element write"); OK(a, x[0], x[1], x[2], "copy is independent");
  bool e = x[0] == y[0] && x[1] == y[1] && x[2] == y[2]; CHECK((a == b) == e && (a != b) == !e, "case %ld comparison", n);
  for (int m = 0; m < 8; ++m) { V d(m & 1 ? 5. : 1., m & 2 ? 5. : 2., m & 4 ? 5. : 3.), f(5, 5, 5); bool q = m == 7; double five = 5; CHECK((d == f) == q && (d != f) == !q && (d == five) == q && (d != five) == !q, "case %ld comparison mask %d", n, m); }
  CHECK(close(a.dot(b), x[0]*y[0] + x[1]*y[1] + x[2]*y[2], 1), "case %ld dot %g", n, a.dot(b));
  CHECK(close(a.length2(), x[0]*x[0] + x[1]*x[1] + x[2]*x[2], 1) && close(a.length(), sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]), 1), "case %ld length", n);
  c = a; V r = c.cross(b); OK(r, x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0], "cross");
  OK(c, x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0], "cross receiver"); OK(b, y[0], y[1], y[2], "cross argument");
  c = a; r = c.abs(); OK(r, fabs(x[0]), fabs(x[1]), fabs(x[2]), "abs");
  c = r; c.pow(2.); OK(c, x[0]*x[0], x[1]*x[1], x[2]*x[2], "pow");
}
