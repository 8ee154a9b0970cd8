// SRC: src/dynamics/attitude/attitude.cpp src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
// MODE: real
// BOUNDS: derivative for every state, torque, wheel momentum, damping ratio and frequency with full inertia tensors; one step along every coordinate axis through a generic state; propagations of up to 2 steps; any change of the inertia tensor's diagonal
#include "open.hpp"
#include "util.hpp"
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
using namespace s2e;
using namespace s2e::dynamics::attitude;
using math::Matrix;
using math::Quaternion;
using math::Vector;
static Matrix<3, 3> diag(double a, double b, double c) {
  Matrix<3, 3> m(0.0);
  m[0][0] = a;
  m[1][1] = b;
  m[2][2] = c;
  return m;
}
// oracle: (I + Ic) w' + Ic d' = N, w' + d' = -(2 z W d + W^2 e), x = (w, d, q, e), principal axes
struct Body {
  double I[3], Ic[3], Ip[3], h[3], t[3], ti[3], c, k;
  void f(const double* x, double* y) const {
    const double* q = x + 6;
    for (int i = 0; i < 3; i++) {
      int a = (i + 1) % 3, b = (i + 2) % 3;
      double n = t[i] - ti[i] - (x[a] * (Ip[b] * x[b] + h[b]) - x[b] * (Ip[a] * x[a] + h[a]));
      double g = c * x[3 + i] + k * x[10 + i];
      y[i] = (n + Ic[i] * g) / I[i];
      y[3 + i] = -g - y[i];
      y[10 + i] = x[3 + i];
    }
    y[6] = 0.5 * (x[0] * q[3] + x[2] * q[1] - x[1] * q[2]);
    y[7] = 0.5 * (x[1] * q[3] + x[0] * q[2] - x[2] * q[0]);
    y[8] = 0.5 * (x[2] * q[3] + x[1] * q[0] - x[0] * q[1]);
    y[9] = -0.5 * (x[0] * q[0] + x[1] * q[1] + x[2] * q[2]);
  }
  void step(double* x, double s) const {
    double k[4][13], y[13];
    f(x, k[0]);
    for (int i = 0; i < 13; i++) y[i] = x[i] + s / 2 * k[0][i];
    f(y, k[1]);
    for (int i = 0; i < 13; i++) y[i] = x[i] + s / 2 * k[1][i];
    f(y, k[2]);
    for (int i = 0; i < 13; i++) y[i] = x[i] + s * k[2][i];
    f(y, k[3]);
    for (int i = 0; i < 13; i++) x[i] += s / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
  }
};
static void same(const AttitudeWithCantileverVibration& a, const double* x, bool with_q, const char* l) {
  for (int i = 0; i < 3; i++) {
    sym_assert_close(a.GetAngularVelocity_b_rad_s()[i], x[i], 1e-7, l);
    sym_assert_close(a.angular_velocity_cantilever_rad_s_[i], x[3 + i], 1e-7, l);
    sym_assert_close(a.euler_angular_cantilever_rad_[i], x[10 + i], 1e-7, l);
  }
  if (!with_q) return;
  double n = 0;
  for (int i = 0; i < 4; i++) n += x[6 + i] * x[6 + i];
  n = std::sqrt(n);
  for (int i = 0; i < 4; i++) sym_assert_close(a.GetQuaternion_i2b()[i] * n, x[6 + i], 1e-7, l);
}
CHECK(cantilever_equations_of_motion) {
  static const double kI[3][3] = {{1.5, 0.125, -0.25}, {0.125, 2.0, 0.5}, {-0.25, 0.5, 2.5}}, kC[3][3] = {{0.5, -0.0625, 0.125}, {-0.0625, 0.375, 0.03125}, {0.125, 0.03125, 0.25}};
  Matrix<3, 3> I, C;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      I[i][j] = kI[i][j];
      C[i][j] = kC[i][j];
    }
  Vector<3> w = vu::vec3("rate", -1, 1), t = vu::vec3("torque", -1, 1), h = vu::vec3("wheels", -1, 1), d = vu::vec3("cantilever rate", -1, 1), e = vu::vec3("cantilever angle", -1, 1);
  Quaternion q = vu::unit_quat("q");
  double z = sym_double("damping", 0, 1), W = sym_double("frequency", 0, 2);
  AttitudeWithCantileverVibration a(w, q, I, C, z, W, t, 0.1, "a");
  AttitudeWithCantileverVibrationOde& o = a.attitude_ode_;
  o.SetAngularMomentumReactionWheel_b_Nms(h);
  Vector<3> ti = vu::vec3("inertia change", -1, 1);
  o.SetTorqueInertiaTensor_b_Nm(ti);
  Vector<13> y = o.DerivativeFunction(0.0, o.SetStateFromPhysicalQuantities(w, d, q, e));
  double L[3];
  for (int i = 0; i < 3; i++) L[i] = kI[i][0] * w[0] + kI[i][1] * w[1] + kI[i][2] * w[2] + h[i];
  for (int i = 0; i < 3; i++) {
    double n = t[i] - ti[i] - (w[(i + 1) % 3] * L[(i + 2) % 3] - w[(i + 2) % 3] * L[(i + 1) % 3]), l = 0;
    for (int j = 0; j < 3; j++) l += (kI[i][j] + kC[i][j]) * y[j] + kC[i][j] * y[3 + j];
    sym_assert_close(l, n, 1e-6, "total momentum balance");
    sym_assert_close(y[i] + y[3 + i], -(2 * z * W * d[i] + W * W * e[i]), 1e-6, "damped oscillation of the cantilever");
    sym_assert_close(y[10 + i], d[i], 0, "cantilever angle rate");
  }
  Quaternion r = q.Conjugate() * Quaternion(y[6], y[7], y[8], y[9]);
  for (int i = 0; i < 3; i++) sym_assert_close(2 * r[i], w[i], 1e-9, "quaternion kinematics");
  sym_assert_close(r[3], 0.0, 1e-9, "no scalar rate");
}
// every propagation uses the present inertia, torque and wheels, in Runge-Kutta steps that cover the interval
CHECK(cantilever_propagation) {
  Body b;
  double x[13] = {0.25, -0.5, 0.5, 0.25, 0.125, -0.25, 0.5, -0.5, 0.5, 0.5, 0.125, -0.25, 0.25};
  double z = 0.25, W = 1.0;
  for (int i = 0; i < 3; i++) {
    b.I[i] = b.Ip[i] = 1 << i;
    b.Ic[i] = 0.5 * b.I[i];
    b.h[i] = i == 1 ? -0.25 : 0.5;
    b.t[i] = 0.25 * (1 << i);
    b.ti[i] = 0;
  }
  int which = sym_choose("coordinate", 0, 9);
  double v = sym_double("value", -1, 1), change = 0;
  if (which < 3) b.t[which] = v;
  else if (which < 6) b.h[which - 3] = v;
  else if (which < 9) change = 0.25 * v;
  else W = 1 + 0.5 * v;
  b.c = 2 * z * W;
  b.k = W * W;
  Vector<3> w, t, h, d;
  for (int i = 0; i < 3; i++) {
    w[i] = x[i];
    t[i] = b.t[i];
    h[i] = b.h[i];
  }
  Quaternion q(x[6], x[7], x[8], x[9]);
  Matrix<3, 3> I = diag(b.I[0], b.I[1], b.I[2]);
  AttitudeWithCantileverVibration a(w, q, I, diag(b.Ic[0], b.Ic[1], b.Ic[2]), z, W, Vector<3>(0.0), 0.25, "a");
  for (int i = 0; i < 3; i++) {
    a.angular_velocity_cantilever_rad_s_[i] = x[3 + i];
    a.euler_angular_cantilever_rad_[i] = x[10 + i];
  }
  a.SetTorque_b_Nm(t);
  a.SetRwAngularMomentum_b_Nms(h);
  double end = 0.1875;
  if (which >= 6 && which < 9) {
    I[which - 6][which - 6] += change;
    b.I[which - 6] += change;
    b.ti[which - 6] = change / end * x[which - 6];
  }
  a.Propagate(end);
  b.step(x, end);
  same(a, x, which < 6, "Runge-Kutta step");
  for (int i = 0; i < 3; i++) sym_assert_close(a.attitude_ode_.GetPreviousInertiaTensor_kgm2()[i][i], b.I[i], 0, "present inertia from then on");
  sym_assert_close(a.GetKineticEnergy_J(), 0.5 * (b.I[0] * x[0] * x[0] + b.I[1] * x[1] * x[1] + b.I[2] * x[2] * x[2]), 1e-6, "energy after propagation");
}
// rest, no torque: the cantilever and body about one axis; several steps and two propagations
CHECK(cantilever_interval) {
  Body b;
  double x[13] = {0}, z = 0.25, W = 1.0;
  x[9] = 1;
  for (int i = 0; i < 3; i++) {
    b.I[i] = b.Ip[i] = 2;
    b.Ic[i] = 0.5;
    b.h[i] = b.t[i] = b.ti[i] = 0;
  }
  b.c = 2 * z * W;
  b.k = W * W;
  b.t[2] = sym_double("torque", -1, 1);
  Vector<3> w(0.0), t(0.0);
  t[2] = b.t[2];
  Quaternion q(0, 0, 0, 1);
  Matrix<3, 3> I = diag(2, 2, 2);
  double step = 0.1875;
  AttitudeWithCantileverVibration a(w, q, I, diag(0.5, 0.5, 0.5), z, W, t, step, "a");
  double t1 = sym_choose("full steps", 0, 1) * step + (sym_choose("odd", 0, 1) ? 0.09375 : step);
  double t2 = t1 + 0.09375;
  bool enabled = sym_choose("enabled", 0, 1);
  a.is_calc_enabled_ = enabled;
  for (int k = 0; k < 2; k++) {
    double end = k ? t2 : t1, now = k ? t1 : 0.0;
    while (enabled && end - now > step + 1e-6) {
      b.step(x, step);
      now += step;
    }
    if (enabled) b.step(x, end - now);
    a.Propagate(end);
    same(a, x, false, "state at the end of the interval");
    const Quaternion p = a.GetQuaternion_i2b();
    sym_assert_close(p[3] * p[3] + p[2] * p[2], 1.0, 1e-9, "unit quaternion");
  }
}
