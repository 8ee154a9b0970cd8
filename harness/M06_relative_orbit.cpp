// SRC: src/math_physics/orbit/relative_orbit_models.cpp
// MODE: real
// BOUNDS: orbit radius in [0.5,10] and gravity constant in [0.1,10] (length/time units), elapsed times in [-20,20]
#include "util.hpp"
#include <math_physics/orbit/relative_orbit_models.hpp>
using namespace s2e;
using math::Matrix;
static const double TOL = 1e-6;
static void par(double& r, double& mu, double& n) {
  r = sym_double("radius", 0.5, 10);
  mu = sym_double("mu", 0.1, 10);
  n = std::sqrt(mu / (r * r * r));
}
// Hill's equations: x'' = 3n^2 x + 2n y', y'' = -2n x', z'' = -n^2 z
CHECK(hill_equations) {
  double r, mu, n;
  par(r, mu, n);
  Matrix<6, 6> a = orbit::CalcHillSystemMatrix(r, mu);
  double s[6], d[6];
  for (int i = 0; i < 6; i++) s[i] = sym_double(("s" + std::to_string(i)).c_str(), -10, 10);
  for (int i = 0; i < 6; i++) { d[i] = 0; for (int j = 0; j < 6; j++) d[i] += a[i][j] * s[j]; }
  for (int i = 0; i < 3; i++) sym_assert_close(d[i], s[3 + i], TOL, "position derivative is the velocity");
  sym_assert_close(d[3], 3 * n * n * s[0] + 2 * n * s[4], TOL, "radial acceleration");
  sym_assert_close(d[4], -2 * n * s[3], TOL, "along-track acceleration");
  sym_assert_close(d[5], -n * n * s[2], TOL, "cross-track acceleration");
}
CHECK(stm_at_zero) {
  double r, mu, n;
  par(r, mu, n);
  Matrix<6, 6> p = orbit::CalcHcwStm(r, mu, 0.0);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) sym_assert_close(p[i][j], i == j, TOL, "transition over no time is the identity");
}
CHECK(stm_semigroup) {
  double r, mu, n;
  par(r, mu, n);
  double t = sym_double("t", -20, 20), u = sym_double("u", -20, 20);
  Matrix<6, 6> p = orbit::CalcHcwStm(r, mu, t), q = orbit::CalcHcwStm(r, mu, u), w = orbit::CalcHcwStm(r, mu, t + u);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
    double s = 0;
    for (int k = 0; k < 6; k++) s += p[i][k] * q[k][j];
    sym_assert_close(s, w[i][j], TOL, "transitions compose along time");
  }
}
// the transition matrix solves Hill's equations: P(t) A = A P(t), and each entry of the velocity rows is the exact derivative
CHECK(stm_solves_hill) {
  double r, mu, n;
  par(r, mu, n);
  double t = sym_double("t", -20, 20), c = std::cos(n * t), s = std::sin(n * t);
  Matrix<6, 6> a = orbit::CalcHillSystemMatrix(r, mu), p = orbit::CalcHcwStm(r, mu, t);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
    double x = 0, y = 0;
    for (int k = 0; k < 6; k++) { x += p[i][k] * a[k][j]; y += a[i][k] * p[k][j]; }
    sym_assert_close(x, y, TOL, "commutes with the system matrix");
  }
  // entries as q0 + q1 t + q2 cos(nt) + q3 sin(nt), found from independent solutions of Hill's equations
  double x0[6];
  for (int i = 0; i < 6; i++) x0[i] = sym_double(("x" + std::to_string(i)).c_str(), -5, 5);
  double x = x0[0], y = x0[1], z = x0[2], vx = x0[3], vy = x0[4], vz = x0[5];
  double out[6];
  for (int i = 0; i < 6; i++) { out[i] = 0; for (int j = 0; j < 6; j++) out[i] += p[i][j] * x0[j]; }
  double xc = 4 * x + 2 * vy / n;  // centre of the relative ellipse
  double A = -(3 * x + 2 * vy / n), B = vx / n;
  sym_assert_close(out[0], xc + A * c + B * s, TOL, "radial motion");
  sym_assert_close(out[1], y - 2 * vx / n - 1.5 * n * xc * t + 2 * (B * c - A * s), TOL, "along-track motion");
  sym_assert_close(out[2], z * c + vz / n * s, TOL, "cross-track motion");
  sym_assert_close(out[3], n * (-A * s + B * c), TOL, "radial velocity");
  sym_assert_close(out[4], -1.5 * n * xc - 2 * n * (B * s + A * c), TOL, "along-track velocity");
  sym_assert_close(out[5], -z * n * s + vz * c, TOL, "cross-track velocity");
}
