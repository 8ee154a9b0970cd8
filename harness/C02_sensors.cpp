// SRC: src/components/real/aocs/gyro_sensor.cpp src/components/real/aocs/magnetometer.cpp src/components/base/component.cpp
// MODE: real
// BOUNDS: every true vector, scale factor matrix, bias, noise draw and random-walk state in the boxes, ranges 0 <= constant <= zero (and out-of-order or negative ranges for the range check), any unit mounting quaternion
// OVERRIDE: normal random numbers are arbitrary values (their distribution is decided in M11)
#include "open.hpp"
#include "noise.hpp"
#include <components/base/sensor.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
using math::Matrix;
template <size_t N> struct Probe : public Sensor<N> {
  Probe(const Matrix<N, N>& s, const Vector<N>& rc, const Vector<N>& rz, const Vector<N>& b, const Vector<N>& sd, const Vector<N>& rwsd, const Vector<N>& rwl) : Sensor<N>(s, rc, rz, b, sd, 0.25, rwsd, rwl) {}
  Vector<N> measure(const Vector<N>& t) { return this->Measure(t); }
};
// reference characteristic: linear, held at the constant range, zero beyond the zero range
static double clip(double x, double c, double z) {
  double a = x < 0 ? -x : x;
  if (a >= z) return 0.0;
  if (a >= c) return x < 0 ? -c : c;
  return x;
}
static Matrix<3, 3> any_matrix() { Matrix<3, 3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = sym_double("scale", -2, 2); return m; }
// error model without limits: scale, bias, random walk, white noise; the random walk advances after each measurement
CHECK(error_model) {
  Matrix<3, 3> s = any_matrix();
  Vector<3> b = vu::vec3("bias", -1, 1), sd = vu::vec3("sigma", 0.1, 1), big(1e6), rsd, lim(1e6), t = vu::vec3("truth", -10, 10);
  for (int i = 0; i < 3; i++) rsd[i] = 0.0;
  Probe<3> p(s, big, big, b, sd, rsd, lim);
  for (int k = 0; k < 2; k++) {
    int d0 = g_draws;
    Vector<3> m = p.measure(t), e = s * t;
    sym_assert(g_draws == d0 + 3, "one noise draw per axis and measurement");
    for (int i = 0; i < 3; i++) sym_assert_close(m[i], e[i] + b[i] + sd[i] * g_draw[d0 + i], 1e-9, "scaled truth plus bias plus white noise");
  }
}
CHECK(random_walk) {
  Matrix<1, 1> s;
  s[0][0] = 1.0;
  Vector<1> b(0.0), sd(0.0), big(1e6), rsd, lim(1e6), t;
  rsd[0] = sym_double("walk_sigma", 0.1, 1);
  t[0] = sym_double("truth", -10, 10);
  Probe<1> p(s, big, big, b, sd, rsd, lim);
  double m0 = p.measure(t)[0];
  sym_assert_close(m0, t[0], 1e-9, "the walk starts at zero");
  int n = g_draws;
  double m1 = p.measure(t)[0];
  double w = 0;
  // Runge-Kutta weights of the four stage draws
  sym_assert(n == 4, "four derivative draws per step");
  w = 0.25 * rsd[0] * (g_draw[0] + 2 * g_draw[1] + 2 * g_draw[2] + g_draw[3]) / 6.0;
  sym_assert_close(m1 - t[0], w, 1e-9, "the walk integrates white noise over the sensor step");
}
static void limits(double c, double z, double ce, double ze) {
  Matrix<1, 1> s;
  s[0][0] = 1.0;
  Vector<1> b(0.0), zero(0.0), lim(1.0), t, vc, vz;
  vc[0] = c;
  vz[0] = z;
  t[0] = sym_double("input", -50, 50);
  Probe<1> p(s, vc, vz, b, zero, zero, lim);
  sym_assert_close(p.measure(t)[0], clip(t[0], ce, ze), 1e-12, "output characteristic: linear, constant, zero");
}
CHECK(ranges) {
  double c = sym_double("range_const", 0.1, 20), z = sym_double("range_zero", 0.1, 40);
  sym_assume(c <= z);
  limits(c, z, c, z);
}
CHECK(ranges_out_of_order) {
  double c = sym_double("range_const", 0.1, 20), z = sym_double("range_zero", 0, 20);
  sym_assume(c > z);
  limits(c, z, c, 2 * c);
}
CHECK(ranges_negative) {
  double c = sym_double("range_const", 0.1, 10), z = sym_double("range_zero", 0.1, 20);
  sym_assume(c <= z);
  int k = (int)sym_choose("sign", 0, 2);
  limits(k != 1 ? -c : c, k != 0 ? -z : z, c, z);
}
// axes are clipped independently with their own ranges
CHECK(axes) {
  Matrix<3, 3> s;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s[i][j] = i == j;
  Vector<3> z(0.0), c, r, t = vu::vec3("truth", -9, 9), lim(1.0);
  for (int i = 0; i < 3; i++) { c[i] = 1.0 + 2 * i; r[i] = 2.0 + 3 * i; }
  Probe<3> p(s, c, r, z, z, z, lim);
  Vector<3> m = p.measure(t);
  for (int i = 0; i < 3; i++) sym_assert_close(m[i], clip(t[i], c[i], r[i]), 1e-12, "per-axis characteristic");
}
struct Att : public dynamics::attitude::Attitude {
  static Matrix<3, 3>& I() { static Matrix<3, 3> m; return m; }
  Att() : dynamics::attitude::Attitude(I(), "a") {}
  void Propagate(const double) {}
};
CHECK(gyro) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Att a;
  Raw<dynamics::Dynamics> d;
  d->attitude_ = &a;
  Vector<3> w = vu::vec3("omega", -1, 1), z(0.0), big(1e6), lim(1.0), b = vu::vec3("bias", -0.1, 0.1);
  a.SetAngularVelocity_b_rad_s(w);
  math::Quaternion q = vu::unit_quat("q_b2c");
  Sensor<3> base(math::MakeIdentityMatrix<3>(), big, big, b, z, 0.1, z, lim);
  GyroSensor s(1, &g, base, 1, q, d.get());
  g.TickToComponents();
  vu::close_vec(s.GetMeasuredAngularVelocity_c_rad_s(), q.FrameConversion(w) + b, 1e-9, "body rate in the sensor frame plus bias");
}
CHECK(magnetometer) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Raw<environment::GeomagneticField> f;
  Vector<3> w = vu::vec3("field_b", -5e4, 5e4), z(0.0), big(1e9), lim(1.0), b = vu::vec3("bias", -100, 100), b2 = vu::vec3("added_bias", -100, 100);
  f->magnetic_field_b_nT_ = w;
  math::Quaternion q = vu::unit_quat("q_b2c");
  Sensor<3> base(math::MakeIdentityMatrix<3>(), big, big, b, z, 0.1, z, lim);
  Magnetometer s(1, &g, base, 1, q, f.get());
  g.TickToComponents();
  vu::close_vec(s.GetMeasuredMagneticField_c_nT(), q.FrameConversion(w) + b, 1e-6, "body field in the sensor frame plus bias");
  s.AddConstantBiasNoise_c_nT(b2);
  g.TickToComponents();
  vu::close_vec(s.GetMeasuredMagneticField_c_nT(), q.FrameConversion(w) + b + b2, 1e-6, "added bias");
  s.SetConstantBiasNoise_c_nT(b2);
  g.TickToComponents();
  vu::close_vec(s.GetMeasuredMagneticField_c_nT(), q.FrameConversion(w) + b2, 1e-6, "replaced bias");
  vu::close_vec(s.GetConstantBiasNoise_c_nT(), b2, 0, "bias query");
}
