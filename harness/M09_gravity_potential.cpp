// SRC: src/math_physics/gravity/gravity_potential.cpp
// MODE: real
// BOUNDS: every single harmonic (cosine and sine) up to degree 6, partial derivatives up to degree 5, position in [-3,3]^3 body radii with radius in [1,3]; superposition on degree 3 with all 20 coefficients in [-1,1]
#include "util.hpp"
#include <map>
#include <array>
#include <vector>
#include <math_physics/gravity/gravity_potential.hpp>
using namespace s2e;
using gravity::GravityPotential;
using math::Matrix;
using math::Vector;
// homogeneous polynomials in x, y, z with concrete coefficients: the solid harmonics, written out independently of any recursion used by the code
typedef std::map<std::array<int, 3>, double> Poly;
static Poly diff(const Poly& p, int ax) {
  Poly r;
  for (auto& t : p) if (t.first[ax]) { auto e = t.first; double c = t.second * e[ax]; e[ax]--; r[e] += c; }
  return r;
}
static Poly mul(const Poly& a, const Poly& b) {
  Poly r;
  for (auto& s : a) for (auto& t : b) r[{s.first[0] + t.first[0], s.first[1] + t.first[1], s.first[2] + t.first[2]}] += s.second * t.second;
  return r;
}
static double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }
static double fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); }
static double binom(int n, int k) { return fact(n) / fact(k) / fact(n - k); }
// fully normalised r^n P_nm(sin lat) cos/sin(m lon)
static Poly solid(int n, int m, bool sine) {
  Poly q;  // r^(n-m) d^m P_n / ds^m with s = z/r, as polynomial in z and r^2 = x^2+y^2+z^2
  Poly r2 = {{{2, 0, 0}, 1}, {{0, 2, 0}, 1}, {{0, 0, 2}, 1}};
  for (int k = 0; 2 * k <= n - m; k++) {
    double c = (k % 2 ? -1 : 1) * fact(2 * n - 2 * k) / (ipow(2.0, n) * fact(k) * fact(n - k) * fact(n - m - 2 * k));
    Poly t = {{{0, 0, n - m - 2 * k}, c}};
    for (int i = 0; i < k; i++) t = mul(t, r2);
    for (auto& u : t) q[u.first] += u.second;
  }
  Poly a;  // Re / Im (x + i y)^m
  for (int k = 0; k <= m; k++) if ((k % 2 == 1) == sine) a[{m - k, k, 0}] += binom(m, k) * (k / 2 % 2 ? -1 : 1);
  double norm = std::sqrt((m ? 2 : 1) * (2 * n + 1) * fact(n - m) / fact(n + m));
  Poly r = mul(q, a);
  for (auto& t : r) t.second *= norm;
  return r;
}
static double eval(const Poly& p, const Vector<3>& x) {
  double s = 0;
  for (auto& t : p) if (t.second != 0) s += t.second * ipow(x[0], t.first[0]) * ipow(x[1], t.first[1]) * ipow(x[2], t.first[2]);
  return s;
}
static double inv_r;  // 1/r
static Vector<3> place() {
  Vector<3> p = vu::vec3("p", -3, 3);
  double r2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
  sym_assume(r2 >= 1 && r2 <= 9);
  inv_r = 1 / std::sqrt(r2);
  return p;
}
static double grad(const Poly& h, int n, int i, const Vector<3>& p) { return eval(diff(h, i), p) * ipow(inv_r, 2 * n + 1) - (2 * n + 1) * p[i] * eval(h, p) * ipow(inv_r, 2 * n + 3); }
static double hess(const Poly& h, int n, int i, int j, const Vector<3>& p) {
  double k = 2 * n + 1;
  double s = eval(diff(diff(h, i), j), p) * ipow(inv_r, 2 * n + 1) - k * (p[j] * eval(diff(h, i), p) + p[i] * eval(diff(h, j), p)) * ipow(inv_r, 2 * n + 3) + k * (k + 2) * p[i] * p[j] * eval(h, p) * ipow(inv_r, 2 * n + 5);
  if (i == j) s -= k * eval(h, p) * ipow(inv_r, 2 * n + 3);
  return s;
}
typedef std::vector<std::vector<double>> Tab;
static Tab tab(int n) { return Tab(n + 1, std::vector<double>(n + 1, 0.0)); }
static void pick(int lo, int hi, int& n, int& m, bool& sine) {
  int id = sym_choose("harmonic", lo * lo, hi * hi + 2 * hi);  // n^2 .. n^2+2n: (n,0), (n,1)c, (n,1)s, ...
  n = 0;
  while ((n + 1) * (n + 1) <= id) n++;
  int k = id - n * n;
  m = (k + 1) / 2;
  sine = k && k % 2 == 0;
}
static void acceleration(int lo, int hi) {
  int n, m;
  bool sine;
  pick(lo, hi, n, m, sine);
  Vector<3> p = place();
  double mu = sym_double("mu", 0.5, 2), c = sym_double("coefficient", -1, 1);
  const double R = 1.5;
  int deg = n < 2 ? 2 : n;
  Tab ct = tab(deg), st = tab(deg);
  (sine ? st : ct)[n][m] = c;
  GravityPotential g(deg, ct, st, mu, R);
  Vector<3> a = g.CalcAcceleration_xcxf_m_s2(p);
  Poly h = solid(n, m, sine);
  for (int i = 0; i < 3; i++) sym_assert_close(a[i], mu * ipow(R, n) * c * grad(h, n, i, p), 1e-8, "acceleration is the gradient of the harmonic");
}
static void partial(int lo, int hi) {
  int n, m;
  bool sine;
  pick(lo, hi, n, m, sine);
  Vector<3> p = place();
  double mu = sym_double("mu", 0.5, 2), c = sym_double("coefficient", -1, 1);
  const double R = 1.5;
  int deg = n < 2 ? 2 : n;
  Tab ct = tab(deg), st = tab(deg);
  (sine ? st : ct)[n][m] = c;
  GravityPotential g(deg, ct, st, mu, R);
  Matrix<3, 3> d = g.CalcPartialDerivative_xcxf_s2(p);
  Poly h = solid(n, m, sine);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_assert_close(d[i][j], mu * ipow(R, n) * c * hess(h, n, i, j, p), 1e-7, "partial derivative is the second derivative of the harmonic");
}
CHECK(acceleration_low) { acceleration(0, 3); }
CHECK(acceleration_high) { acceleration(4, 6); }
CHECK(partial_low) { partial(0, 3); }
CHECK(partial_high) { partial(4, 5); }
THOROUGH(acceleration_deep) { acceleration(7, 7); }
THOROUGH(partial_deep) { partial(6, 6); }
// all harmonics at once: contributions add, and a second call does not depend on the first
CHECK(superposition) {
  Vector<3> p = place();
  const double R = 1.5, mu = 1.25;
  const int N = 3;
  Tab ct = tab(N), st = tab(N);
  double want[3] = {0, 0, 0};
  for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) for (int s = 0; s < (m ? 2 : 1); s++) {
    double c = sym_double(((s ? "s" : "c") + std::to_string(n) + std::to_string(m)).c_str(), -1, 1);
    (s ? st : ct)[n][m] = c;
    Poly h = solid(n, m, s);
    for (int i = 0; i < 3; i++) want[i] += mu * ipow(R, n) * c * grad(h, n, i, p);
  }
  GravityPotential g(N, ct, st, mu, R);
  Vector<3> q(0.0);
  q[0] = 2.0; q[1] = -0.5; q[2] = 0.25;
  g.CalcAcceleration_xcxf_m_s2(q);
  g.CalcPartialDerivative_xcxf_s2(q);
  Vector<3> a = g.CalcAcceleration_xcxf_m_s2(p);
  for (int i = 0; i < 3; i++) sym_assert_close(a[i], want[i], 1e-7, "harmonics superpose");
}
// harmonics above the chosen degree do not contribute; degree 0 and 1 switch the model off
CHECK(truncation) {
  int deg = sym_choose("degree", 0, 3);
  Vector<3> p = place();
  Tab a = tab(4), b = tab(4);
  for (int n = 0; n <= 4; n++) for (int m = 0; m <= n; m++) { a[n][m] = 0.1 * (n + 1) + 0.03 * m; b[n][m] = m ? 0.2 - 0.04 * m * n : 0.0; }
  Tab a2 = a, b2 = b;
  for (int n = deg + 1; n <= 4; n++) for (int m = 0; m <= n; m++) { a2[n][m] = 0.7; b2[n][m] = -0.3; }
  GravityPotential g(deg, a, b, 1.0, 1.0), g2(deg, a2, b2, 1.0, 1.0), z;
  Vector<3> x = g.CalcAcceleration_xcxf_m_s2(p), y = g2.CalcAcceleration_xcxf_m_s2(p), w = z.CalcAcceleration_xcxf_m_s2(p);
  Matrix<3, 3> dx = g.CalcPartialDerivative_xcxf_s2(p), dy = g2.CalcPartialDerivative_xcxf_s2(p);
  for (int i = 0; i < 3; i++) {
    sym_assert_close(x[i], y[i], 1e-9, "higher harmonics are left out");
    sym_assert_close(w[i], 0, 0, "default model is off");
    if (deg < 2) sym_assert_close(x[i], 0, 0, "degree below two is off");
    for (int j = 0; j < 3; j++) {
      sym_assert_close(dx[i][j], dy[i][j], 1e-9, "higher harmonics are left out (partial)");
      if (deg < 2) sym_assert_close(dx[i][j], 0, 0, "degree below two is off (partial)");
    }
  }
}
