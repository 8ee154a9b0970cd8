// SRC: src/environment/global/earth_rotation.cpp
// MODE: real
// BOUNDS: Julian dates in [2415020, 2488070] (1900..2100), any sidereal angle in [0, 2 pi)
// OVERRIDE: gstime returns an arbitrary sidereal angle (decided by itself in M12_sidereal); the date handed to it is checked
#include "util.hpp"
#include <environment/global/earth_rotation.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using environment::EarthRotation;
using environment::EarthRotationMode;
using math::Matrix;
static double g_gst, g_jd;
extern "C" double gst_any(double) __asm__("_Z6gstimed");
extern "C" double gst_any(double jd) { g_jd = jd; return g_gst; }
static const double AS = math::arcsec_to_rad;  // angles below are rounded to radians coefficient by coefficient, as any implementation with radian tables does
struct R3 { double m[3][3]; };
static R3 rot(int ax, double c, double s) {
  R3 r;
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) r.m[a][b] = a == b;
  r.m[i][i] = c; r.m[j][j] = c; r.m[i][j] = s; r.m[j][i] = -s;
  return r;
}
static R3 rot(int ax, double t) { return rot(ax, std::cos(t), std::sin(t)); }
static R3 mul(const R3& a, const R3& b) {
  R3 r;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; }
  return r;
}
static void same(const Matrix<3, 3>& a, const R3& b, double tol, const char* l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_assert_close(a[i][j], b.m[i][j], tol, l); }
static double poly(const double* c, int n, double t) { double s = 0; for (int i = n; i >= 1; i--) s = s * t + c[i] * AS; return s * t + c[0] * math::deg_to_rad; }
CHECK(simple) {
  double jd = sym_double("jd", 2415020, 2488070);
  g_gst = sym_double("gst", 0, 6.2832);
  EarthRotation e(EarthRotationMode::kSimple);
  e.Update(jd);
  sym_assert_close(g_jd, jd, 0, "sidereal time of the given date");
  same(e.GetDcmJ2000ToEcef(), rot(2, g_gst), 1e-9, "simple mode turns about the pole by the sidereal angle");
  g_gst = sym_double("gst2", 0, 6.2832);
  e.Update(jd + 1);
  same(e.GetDcmJ2000ToEcef(), rot(2, g_gst), 1e-9, "second update");
}
CHECK(idle) {
  g_gst = sym_double("gst", 0, 6.2832);
  EarthRotation e(EarthRotationMode::kIdle);
  same(e.GetDcmJ2000ToEcef(), rot(2, 1, 0), 0, "identity at first");
  e.Update(sym_double("jd", 2415020, 2488070));
  same(e.GetDcmJ2000ToEcef(), rot(2, 1, 0), 0, "idle mode does not rotate");
}
CHECK(modes) {
  sym_assert(environment::ConvertEarthRotationMode("IDLE") == EarthRotationMode::kIdle, "IDLE");
  sym_assert(environment::ConvertEarthRotationMode("SIMPLE") == EarthRotationMode::kSimple, "SIMPLE");
  sym_assert(environment::ConvertEarthRotationMode("FULL") == EarthRotationMode::kFull, "FULL");
  sym_assert(environment::ConvertEarthRotationMode("none") == EarthRotationMode::kIdle, "unknown mode");
}
CHECK(full) {
  double jd = sym_double("jd", 2415020, 2488070);
  g_gst = sym_double("gst", 0, 6.2832);
  EarthRotation e(EarthRotationMode::kFull);
  e.Update(jd);
  sym_assert_close(g_jd, jd, 0, "sidereal time of the given date");
  double t = (jd + 32.184 / 86400.0 - 2451545.0) / 36525.0;
  // IAU 1976 precession
  const double cz[4] = {0, 2306.2181, 0.30188, 0.017998}, ct[4] = {0, 2004.3109, -0.42665, -0.041833}, cx[4] = {0, 2306.2181, 1.09468, 0.018203};
  R3 p = mul(rot(2, -poly(cx, 3, t)), mul(rot(1, poly(ct, 3, t)), rot(2, -poly(cz, 3, t))));
  // Delaunay arguments and the nine largest terms of the nutation series
  const double cl[5] = {134.96340251, 1717915923.2178, 31.8792, 0.051635, -0.0002447}, cs[5] = {357.52910918, 129596581.0481, -0.5532, 0.000136, -0.00001149},
               cf[5] = {93.27209062, 1739527262.8478, -12.7512, -0.001037, 0.00000417}, cd[5] = {297.85019547, 1602961601.2090, -6.3706, 0.006593, -0.00003169},
               co[5] = {125.04455501, -6962890.5431, 7.4722, 0.007702, -0.00005939}, ce[4] = {23.4392911, -46.8150, -0.00059, 0.001813};
  double l = poly(cl, 4, t), s = poly(cs, 4, t), f = poly(cf, 4, t), d = poly(cd, 4, t), o = poly(co, 4, t), eps = poly(ce, 3, t);
  double arg[9] = {o, 2 * (f - d + o), 2 * o, 2 * (f + o), s, l, s + 2 * (f - d + o), l + 2 * (f + o), 2 * (f - d + o) - s};
  const double as[9] = {-17.206, -1.317, 0.207, -0.228, 0.148, 0.071, -0.052, -0.030, 0.022}, ac[9] = {9.205, 0.573, -0.090, 0.098, 0.007, -0.001, 0.022, 0.013, -0.010};
  double dpsi = 0, deps = 0;
  for (int k = 0; k < 9; k++) { double a = as[k] * AS, b = ac[k] * AS; dpsi += a * std::sin(arg[k]); deps += b * std::cos(arg[k]); }
  R3 n = mul(rot(0, -(eps + deps)), mul(rot(2, -dpsi), rot(0, eps)));
  R3 q = rot(2, g_gst + dpsi * std::cos(eps + deps));
  same(e.GetDcmJ2000ToEcef(), mul(q, mul(n, p)), 1e-9, "precession, then nutation, then apparent sidereal rotation");
}
CHECK(full_is_rotation) {
  double jd = sym_double("jd", 2415020, 2488070);
  g_gst = sym_double("gst", 0, 6.2832);
  EarthRotation e(EarthRotationMode::kFull);
  e.Update(jd);
  Matrix<3, 3> a = e.GetDcmJ2000ToEcef();
  for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) {
    double s = 0;
    for (int k = 0; k < 3; k++) s += a[i][k] * a[j][k];
    sym_assert_close(s, i == j, 1e-9, "rows are orthonormal");
  }
}
