// SRC: src/math_physics/math/interpolation.cpp src/math_physics/orbit/interpolation_orbit.cpp
// MODE: real
// BOUNDS: 2..7 unequally spaced nodes (fixed offsets times an arbitrary scale and start for the polynomial method), arbitrary polynomial / trigonometric coefficients in [-5,5], any evaluation point inside and beyond the node range; 3 nodes fully symbolic; sliding window of 2..4 points with up to 5 arbitrary pushes
#include "util.hpp"
#include <math_physics/math/interpolation.hpp>
#include <math_physics/orbit/interpolation_orbit.hpp>
using namespace s2e;
using math::Vector;

static const double OFF[8] = {0.0, 1.0, 2.5, 3.0, 5.0, 6.25, 7.0, 9.0};
static std::string nm(const char* s, int i) { return std::string(s) + std::to_string(i); }

CHECK(polynomial_exact) {
  int n = sym_choose("n", 2, 7);
  double c[7], x0 = sym_double("x0", -3, 3);
  for (int i = 0; i < n; i++) c[i] = sym_double(nm("c", i).c_str(), -5, 5);
  auto p = [&](double x) { double r = 0, q = 1; for (int i = 0; i < n; i++) { r += c[i] * q; q *= (x - x0); } return r; };
  std::vector<double> xs, ys;
  for (int i = 0; i < n; i++) { xs.push_back(x0 + OFF[i]); ys.push_back(p(xs.back())); }
  math::Interpolation ip(xs, ys);
  sym_assert(ip.GetDegree() == (size_t)n, "degree is the number of points");
  double d = sym_double("d", -2, 11);
  sym_assert_close(ip.CalcPolynomial(x0 + d), p(x0 + d), 1e-5, "reproduces every polynomial of lower degree");
}
CHECK(polynomial_free_nodes) {
  int n = 3;
  double a = sym_double("a", -5, 5), g1 = sym_double("g1", 0.1, 5), g2 = sym_double("g2", 0.1, 5);
  std::vector<double> xs{a, a + g1, a + g1 + g2}, ys;
  double c0 = sym_double("c0", -5, 5), c1 = sym_double("c1", -5, 5), c2 = sym_double("c2", -5, 5);
  for (int i = 0; i < n; i++) ys.push_back(c0 + xs[i] * (c1 + xs[i] * c2));
  math::Interpolation ip(xs, ys);
  double x = sym_double("x", -10, 20);
  sym_assert_close(ip.CalcPolynomial(x), c0 + x * (c1 + x * c2), 1e-6, "quadratic through three arbitrary nodes");
}
CHECK(polynomial_hits_nodes) {
  int n = sym_choose("n", 2, 6), k = sym_choose("k", 0, 5);
  if (k >= n) { sym_reach("skip"); return; }
  std::vector<double> xs, ys;
  for (int i = 0; i < n; i++) { xs.push_back(OFF[i]); ys.push_back(sym_double(nm("y", i).c_str(), -100, 100)); }
  math::Interpolation ip(xs, ys);
  sym_assert_close(ip.CalcPolynomial(OFF[k]), ys[k], 1e-9, "interpolates the data at the nodes");
}
CHECK(trigonometric_exact) {
  int n = sym_choose("n", 2, 6);
  double w = 0.35, x0 = sym_double("x0", -3, 3);
  int deg = ((n % 2) ? n - 1 : n - 2) / 2;
  double c0 = sym_double("c0", -5, 5), a[3], b[3];
  for (int i = 0; i < deg; i++) { a[i] = sym_double(nm("a", i).c_str(), -5, 5); b[i] = sym_double(nm("b", i).c_str(), -5, 5); }
  auto f = [&](double t) { double r = c0; for (int i = 0; i < deg; i++) r += a[i] * std::cos((i + 1) * w * t) + b[i] * std::sin((i + 1) * w * t); return r; };
  std::vector<double> xs, ys;
  for (int i = 0; i < n; i++) { xs.push_back(x0 + OFF[i]); ys.push_back(f(OFF[i])); }
  math::Interpolation ip(xs, ys);
  double d = sym_double("d", -1, 9);
  sym_assert_close(ip.CalcTrigonometric(x0 + d, w), f(d), 1e-5, "reproduces every trigonometric polynomial of the method's degree");
}
CHECK(trigonometric_even_uses_nearest) {
  // with an even number of points the farthest end point is dropped: it must have no influence, all others are interpolated
  int n = 4, k = sym_choose("k", 0, 3);
  std::vector<double> xs, ys;
  for (int i = 0; i < n; i++) { xs.push_back(2.0 * i); ys.push_back(sym_double(nm("y", i).c_str(), -100, 100)); }
  math::Interpolation ip(xs, ys);
  double d = sym_double("d", -0.9, 0.9);
  double v = ip.CalcTrigonometric(2.0 * k, 0.3);
  sym_assert_close(v, ys[k], 1e-9, "interpolates the data at the node");
  std::vector<double> zs = ys;
  zs[k < 2 ? 3 : 0] = sym_double("other", -100, 100);
  math::Interpolation iq(xs, zs);
  sym_assert_close(iq.CalcTrigonometric(2.0 * k + d, 0.3), ip.CalcTrigonometric(2.0 * k + d, 0.3), 1e-9, "farthest end point has no influence");
}
CHECK(sliding_window) {
  int n = sym_choose("n", 2, 4);
  std::vector<double> xs, ys;
  double t = 0;
  for (int i = 0; i < n; i++) { t += sym_double(nm("g", i).c_str(), 0.1, 5); xs.push_back(t); ys.push_back(sym_double(nm("y", i).c_str(), -10, 10)); }
  math::Interpolation ip(xs, ys);
  for (int k = 0; k < 5; k++) {
    double nx = sym_double(nm("nx", k).c_str(), -10, 60), ny = sym_double(nm("ny", k).c_str(), -10, 10);
    bool ok = ip.PushAndPopData(nx, ny);
    bool expect = nx > xs.back();
    sym_assert(ok == expect, "accepted exactly when later than the last point");
    if (expect) { xs.erase(xs.begin()); ys.erase(ys.begin()); xs.push_back(nx); ys.push_back(ny); }
    std::vector<double> gx = ip.GetIndependentVariables(), gy = ip.GetDependentVariables();
    sym_assert(gx.size() == (size_t)n && gy.size() == (size_t)n, "window size constant");
    for (int i = 0; i < n; i++) { sym_assert_close(gx[i], xs[i], 0, "newest points kept in order"); sym_assert_close(gy[i], ys[i], 0, "values stay with their points"); }
  }
  sym_assert(ip.GetDegree() == (size_t)n, "degree unchanged");
}
CHECK(orbit_axes) {
  orbit::InterpolationOrbit io(3);
  sym_assert(io.GetDegree() == 3, "degree");
  double t[3], x[3];
  Vector<3> p[3];
  double now = sym_double("t0", 0, 3);
  for (int i = 0; i < 3; i++) {
    t[i] = now;
    p[i] = vu::vec3(nm("p", i).c_str(), -100, 100);
    sym_assert(io.PushAndPopData(t[i], p[i]), "later point accepted");
    now += 1.0 + i;
  }
  sym_assert(!io.PushAndPopData(t[2], p[0]), "equal time rejected");
  for (int a = 0; a < 3; a++) {
    auto l = io.GetPositionDataList(a);
    for (int i = 0; i < 3; i++) { sym_assert_close(l[i], p[i][a], 0, "axis data"); sym_assert_close(io.GetTimeList()[i], t[i], 0, "time data"); }
  }
  double d = sym_double("d", -1, 6);
  double tt = t[0] + d;
  Vector<3> q = io.CalcPositionWithPolynomial(tt), r = io.CalcPositionWithTrigonometric(tt, 0.4);
  for (int a = 0; a < 3; a++) {
    std::vector<double> xs(t, t + 3), ys;
    for (int i = 0; i < 3; i++) ys.push_back(p[i][a]);
    // Lagrange form
    double e = 0, g = 0;
    for (int i = 0; i < 3; i++) {
      double l = 1, m = 1;
      for (int j = 0; j < 3; j++) if (j != i) { l *= (tt - t[j]) / ((i + i * (i + 1) / 2 - i) - (j + j * (j + 1) / 2 - j)); m *= std::sin(0.2 * (tt - t[j])) / std::sin(0.2 * (t[i] - t[j])); }
      e += l * ys[i];
      g += m * ys[i];
    }
    sym_assert_close(q[a], e, 1e-6, "each axis interpolated from its own data (polynomial)");
    sym_assert_close(r[a], g, 1e-6, "each axis interpolated from its own data (trigonometric)");
  }
}
