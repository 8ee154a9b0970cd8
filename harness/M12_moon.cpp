// SRC: src/math_physics/planet_rotation/moon_rotation_utilities.cpp
// MODE: real
// BOUNDS: Moon position in [-5,5]^3 and velocity in [-2,2]^3 (any units), not parallel
#include "util.hpp"
#include <math_physics/planet_rotation/moon_rotation_utilities.hpp>
using namespace s2e;
using math::Matrix;
using math::Vector;
static void state(Vector<3>& r, Vector<3>& v, Vector<3>& h) {
  r = vu::vec3("r", -5, 5);
  v = vu::vec3("v", -2, 2);
  h[0] = r[1] * v[2] - r[2] * v[1];
  h[1] = r[2] * v[0] - r[0] * v[2];
  h[2] = r[0] * v[1] - r[1] * v[0];
  sym_assume(InnerProduct(r, r) > 0.1 && InnerProduct(h, h) > 0.1);
}
CHECK(mean_earth_frame) {
  Vector<3> r, v, h;
  state(r, v, h);
  Matrix<3, 3> d = planet_rotation::CalcDcmEciToMeanEarth(r, v);
  double rn = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), hn = std::sqrt(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]);
  for (int i = 0; i < 3; i++) {
    sym_assert_close(d[0][i] * rn, -r[i], 1e-6, "first axis points from the Moon to the Earth");
    sym_assert_close(d[2][i] * hn, h[i], 1e-6, "third axis is the orbit normal");
    int j = (i + 1) % 3, k = (i + 2) % 3;
    sym_assert_close(d[1][i] * rn * hn, -(h[j] * r[k] - h[k] * r[j]), 1e-5, "second axis completes the right-handed frame");
  }
}
CHECK(principal_axis_frame) {
  Vector<3> r, v, h;
  state(r, v, h);
  Matrix<3, 3> d = planet_rotation::CalcDcmEciToMeanEarth(r, v), p = planet_rotation::CalcDcmEciToPrincipalAxis(r, v);
  const double AS = 3.14159265358979323846 / 648000.0, a[3] = {0.285 * AS, 78.580 * AS, 67.573 * AS};
  double s[3], c[3];
  for (int i = 0; i < 3; i++) { s[i] = std::sin(a[i]); c[i] = std::cos(a[i]); }
  double m[3][3] = {{c[2] * c[1], c[2] * s[1] * s[0] + s[2] * c[0], -c[2] * s[1] * c[0] + s[2] * s[0]},
                    {-s[2] * c[1], -s[2] * s[1] * s[0] + c[2] * c[0], s[2] * s[1] * c[0] + c[2] * s[0]},
                    {s[1], -c[1] * s[0], c[1] * c[0]}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double w = 0;
    for (int k = 0; k < 3; k++) w += m[i][k] * d[k][j];
    sym_assert_close(p[i][j], w, 1e-9, "mean-Earth frame turned by the three libration offsets, x then y then z");
  }
}
