// SRC: src/dynamics/attitude/attitude.cpp src/dynamics/attitude/attitude_rk4.cpp src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
// MODE: real
// BOUNDS: derivative for every state, inertia, momentum and torque; one step for every rate or torque or attitude with a spherical inertia tensor, and along every coordinate axis through a generic state with different principal moments; propagations of up to 4 steps
#include "open.hpp"
#include "util.hpp"
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
using namespace s2e;
using namespace s2e::dynamics::attitude;
using math::Matrix;
using math::Quaternion;
using math::Vector;
typedef double V3[3];
// oracle: rigid body with wheels, x = (rate, quaternion)
struct Body {
  double I[3][3], J[3][3];  // inertia and its inverse
  double Ip[3][3];          // inertia of the previous propagation
  double h[3], t[3], ti[3];
  Body() {
    for (int i = 0; i < 3; i++) {
      h[i] = t[i] = ti[i] = 0;
      for (int j = 0; j < 3; j++) I[i][j] = J[i][j] = Ip[i][j] = 0;
    }
  }
  void f(const double* x, double* d) const {
    double L[3], n[3];
    for (int i = 0; i < 3; i++) L[i] = Ip[i][0] * x[0] + Ip[i][1] * x[1] + Ip[i][2] * x[2] + h[i];
    for (int i = 0; i < 3; i++) n[i] = t[i] - ti[i] - (x[(i + 1) % 3] * L[(i + 2) % 3] - x[(i + 2) % 3] * L[(i + 1) % 3]);
    for (int i = 0; i < 3; i++) d[i] = J[i][0] * n[0] + J[i][1] * n[1] + J[i][2] * n[2];
    const double *q = x + 3;
    d[3] = 0.5 * (x[0] * q[3] + x[2] * q[1] - x[1] * q[2]);
    d[4] = 0.5 * (x[1] * q[3] + x[0] * q[2] - x[2] * q[0]);
    d[5] = 0.5 * (x[2] * q[3] + x[1] * q[0] - x[0] * q[1]);
    d[6] = -0.5 * (x[0] * q[0] + x[1] * q[1] + x[2] * q[2]);
  }
  void step(double* x, double s) const {
    double k[4][7], y[7];
    f(x, k[0]);
    for (int i = 0; i < 7; i++) y[i] = x[i] + s / 2 * k[0][i];
    f(y, k[1]);
    for (int i = 0; i < 7; i++) y[i] = x[i] + s / 2 * k[1][i];
    f(y, k[2]);
    for (int i = 0; i < 7; i++) y[i] = x[i] + s * k[2][i];
    f(y, k[3]);
    for (int i = 0; i < 7; i++) x[i] += s / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
    double n = 0;
    for (int i = 3; i < 7; i++) n += x[i] * x[i];
    n = std::sqrt(n);
    for (int i = 3; i < 7; i++) x[i] /= n;
  }
};
static Matrix<3, 3> mat(const double (&a)[3][3]) {
  Matrix<3, 3> m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) m[i][j] = a[i][j];
  return m;
}
static void state(const double* x, Vector<3>& w, Quaternion& q) {
  for (int i = 0; i < 3; i++) w[i] = x[i];
  q = Quaternion(x[3], x[4], x[5], x[6]);
}
static void same(const Attitude& a, const double* x, double tol, const char* l) {
  for (int i = 0; i < 3; i++) sym_assert_close(a.GetAngularVelocity_b_rad_s()[i], x[i], tol, l);
  for (int i = 0; i < 4; i++) sym_assert_close(a.GetQuaternion_i2b()[i], x[3 + i], tol, l);
}
static const double kI[3][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, 4}};
static const double kX[7] = {0.25, -0.5, 0.5, 0.5, -0.5, 0.5, 0.5};
static void inverse(const double (&m)[3][3], double (&r)[3][3]) {
  double det = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[j][i] = m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3];
  for (int j = 0; j < 3; j++) det += m[0][j] * r[j][0];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] /= det;
}
// Euler's equation and quaternion kinematics; energy and inertial momentum are conserved without torque
CHECK(equations_of_motion) {
  Matrix<3, 3> I(0.0);
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) I[i][j] = I[j][i] = sym_double("inertia", i == j ? 1 : -0.2, i == j ? 3 : 0.2);
  double x[7];
  for (int i = 0; i < 3; i++) x[i] = sym_double("rate", -1, 1);
  Vector<3> w;
  Quaternion q(0, 0, 0, 1), q0 = vu::unit_quat("q");
  for (int i = 0; i < 4; i++) x[3 + i] = q0[i];
  state(x, w, q);
  Vector<3> t = vu::vec3("torque", -1, 1), h = vu::vec3("wheels", -1, 1);
  AttitudeRk4 a(w, q, I, t, 0.1, "a");
  a.SetRwAngularMomentum_b_Nms(h);
  a.torque_inertia_tensor_change_b_Nm_ = vu::vec3("inertia change", -1, 1);
  Vector<7> s;
  for (int i = 0; i < 7; i++) s[i] = x[i];
  Vector<7> d = a.AttitudeDynamicsAndKinematics(s, 0.0);
  double L[3], Id[3];
  for (int i = 0; i < 3; i++) {
    L[i] = I[i][0] * x[0] + I[i][1] * x[1] + I[i][2] * x[2] + h[i];
    Id[i] = I[i][0] * d[0] + I[i][1] * d[1] + I[i][2] * d[2];
  }
  Vector<3> ti = a.torque_inertia_tensor_change_b_Nm_;
  for (int i = 0; i < 3; i++) sym_assert_close(Id[i], t[i] - ti[i] - (x[(i + 1) % 3] * L[(i + 2) % 3] - x[(i + 2) % 3] * L[(i + 1) % 3]), 1e-6, "Euler's equation");
  sym_assert_close(x[3] * d[3] + x[4] * d[4] + x[5] * d[5] + x[6] * d[6], 0.0, 1e-9, "the quaternion keeps its norm");
  // the body turns with the rate: d/dt of the inertial image of a body fixed vector v is R^T (w x v); 2 q' q^-1 = (w, 0)
  Quaternion dq(d[3], d[4], d[5], d[6]);
  Quaternion p = dq * q.Conjugate(), r = q.Conjugate() * dq;
  for (int i = 0; i < 3; i++) sym_assert_close(2 * r[i], w[i], 1e-9, "quaternion kinematics");
  sym_assert_close(r[3], 0.0, 1e-9, "no scalar rate");
}
// accumulated and reported momentum and energy
CHECK(momentum_and_energy) {
  Matrix<3, 3> I(0.0);
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) I[i][j] = I[j][i] = i == j ? 2 + 0.5 * i : sym_double("inertia", -0.2, 0.2);
  Vector<3> w = vu::vec3("rate", -1, 1), h = vu::vec3("wheels", -1, 1), t(0.0);
  Quaternion q = vu::unit_quat("q");
  AttitudeRk4 a(w, q, I, t, 0.1, "a");
  a.SetRwAngularMomentum_b_Nms(h);
  a.CalcAngularMomentum();
  double L[3], e = 0;
  for (int i = 0; i < 3; i++) {
    double l = I[i][0] * w[0] + I[i][1] * w[1] + I[i][2] * w[2];
    e += 0.5 * l * w[i];
    L[i] = l + h[i];
    sym_assert_close(a.angular_momentum_spacecraft_b_Nms_[i], l, 1e-9, "body momentum");
    sym_assert_close(a.angular_momentum_total_b_Nms_[i], L[i], 1e-9, "total momentum");
  }
  sym_assert_close(a.GetKineticEnergy_J(), e, 1e-9, "kinetic energy");
  Vector<3> li = a.angular_momentum_total_i_Nms_;
  Vector<3> lb = q.FrameConversion(li);
  for (int i = 0; i < 3; i++) sym_assert_close(lb[i], L[i], 1e-7, "inertial momentum");
  double n = a.GetTotalAngularMomentNorm_Nms();
  sym_assert(n >= 0, "norm is not negative");
  sym_assert_close(n * n, L[0] * L[0] + L[1] * L[1] + L[2] * L[2], 1e-7, "norm of the momentum");
  double m = a.angular_momentum_total_Nms_;
  sym_assert(m >= 0, "logged norm is not negative");
  sym_assert_close(m * m, li[0] * li[0] + li[1] * li[1] + li[2] * li[2], 1e-7, "logged norm of the momentum");
}
// one fourth order Runge-Kutta step, torque on a spherical body
CHECK(step_spherical) {
  Body b;
  for (int i = 0; i < 3; i++) {
    b.I[i][i] = b.Ip[i][i] = 2.0;
    b.J[i][i] = 0.5;
  }
  double x[7] = {0, 0, 0, 0, 0, 0, 1};
  int mode = sym_choose("mode", 0, 4);
  if (mode == 0) {  // every rate from the reference attitude
    for (int i = 0; i < 3; i++) x[i] = sym_double("rate", -1, 1);
  } else if (mode == 1) {  // every torque, from rest
    for (int i = 0; i < 3; i++) b.t[i] = sym_double("torque", -1, 1);
  } else {  // every attitude, rate and torque about one axis
    Quaternion q0 = vu::unit_quat("q");
    for (int i = 0; i < 4; i++) x[3 + i] = q0[i];
    x[mode - 2] = sym_double("rate", -1, 1);
    b.t[mode - 2] = sym_double("torque", -1, 1);
  }
  Quaternion q(0, 0, 0, 1);
  Vector<3> w, t;
  state(x, w, q);
  for (int i = 0; i < 3; i++) t[i] = b.t[i];
  Matrix<3, 3> I = mat(b.I);
  double step = 0.1875;
  AttitudeRk4 a(w, q, I, t, step, "a");
  a.Propagate(step);
  b.step(x, step);
  for (int i = 0; i < 3; i++) sym_assert_close(a.GetAngularVelocity_b_rad_s()[i], w[i] + t[i] * step / 2, 1e-9, "constant acceleration");
  same(a, x, 1e-9, "Runge-Kutta step");
}
// one step of a general body, along each coordinate of state, torque, wheels and step
CHECK(step_general) {
  Body b;
  double x[7];
  for (int i = 0; i < 3; i++) {
    b.t[i] = 0.25 * (1 << i);
    b.h[i] = i == 1 ? -0.25 : 0.5;
    for (int j = 0; j < 3; j++) b.I[i][j] = b.Ip[i][j] = kI[i][j];
  }
  for (int i = 0; i < 7; i++) x[i] = kX[i];
  inverse(b.I, b.J);
  double step = 0.1875;
  int which = sym_choose("coordinate", 0, 13);
  double v = sym_double("value", -1, 1);
  if (which < 7) x[which] = v;
  else if (which < 10) b.t[which - 7] = v;
  else if (which < 13) b.h[which - 10] = v;
  else step = 0.1875 + v * 0.0625;
  Vector<3> w, t, h;
  Quaternion q(0, 0, 0, 1);
  state(x, w, q);
  for (int i = 0; i < 3; i++) {
    t[i] = b.t[i];
    h[i] = b.h[i];
  }
  Matrix<3, 3> I = mat(b.I);
  AttitudeRk4 a(w, q, I, t, 1.0, "a");
  // the constructor starts from the given state
  same(a, x, 0, "initial state");
  a.SetRwAngularMomentum_b_Nms(h);
  a.Propagate(step);
  b.step(x, step);
  same(a, x, 1e-9, "Runge-Kutta step");
}
// propagation covers the interval exactly, in steps of the propagation step and one last shorter step
CHECK(propagation_interval) {
  Body b;
  for (int i = 0; i < 3; i++) {
    b.I[i][i] = b.Ip[i][i] = 2.0;
    b.J[i][i] = 0.5;
  }
  int which = sym_choose("symbolic", 0, 2);
  b.t[2] = which == 0 ? sym_double("torque", -1, 1) : 0.5;
  double x[7] = {0, 0, which == 1 ? sym_double("rate", -1, 1) : 0.25, 0, 0, 0, 1};
  Vector<3> w, t(0.0);
  Quaternion q(0, 0, 0, 1);
  state(x, w, q);
  t[2] = b.t[2];
  Matrix<3, 3> I = mat(b.I);
  double step = 0.1875, now = 0, t0 = 0;
  AttitudeRk4 a(w, q, I, t, step, "a");
  double t1 = sym_choose("full steps", 0, which == 1 ? 2 : 1) * step + (which == 2 ? sym_double("rest", 0.001, 0.18) : sym_choose("odd", 0, 1) ? 0.09375 : step);
  double t2 = t1 + (which == 1 && sym_choose("two", 0, 1) ? 0.375 : 0.09375);
  for (int k = 0; k < 2; k++) {
    double end = k ? t2 : t1;
    double now = k ? t1 : 0.0;
    while (end - now > step + 1e-6) {
      b.step(x, step);
      now += step;
    }
    b.step(x, end - now);
    a.Propagate(end);
    sym_assert_close(a.current_propagation_time_s_, end, 1e-12, "time");
    same(a, x, 1e-9, "state at the end of the interval");
  }
  // momentum and energy belong to the new state
  sym_assert_close(a.GetKineticEnergy_J(), x[2] * x[2], 1e-9, "energy after propagation");
  sym_assert_close(a.angular_momentum_total_b_Nms_[2], 2 * x[2], 1e-9, "momentum after propagation");
}
// a change of the inertia tensor acts as a torque and takes effect from then on
CHECK(inertia_change) {
  Body b;
  double dI = sym_double("change", -0.5, 0.5), step = 0.1875;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) b.Ip[i][j] = kI[i][j];
  double x[7], N[3][3];
  for (int i = 0; i < 7; i++) x[i] = kX[i];
  Vector<3> w, t(0.0);
  Quaternion q(0, 0, 0, 1);
  state(x, w, q);
  Matrix<3, 3> I = mat(b.Ip);
  AttitudeRk4 a(w, q, I, t, 1.0, "a");
  int k = sym_choose("element", 0, 2);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) N[i][j] = kI[i][j];
  N[k][k] += dI;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) I[i][j] = N[i][j];
  inverse(N, b.J);
  b.ti[k] = dI / step * x[k];
  a.Propagate(step);
  b.step(x, step);
  for (int i = 0; i < 3; i++) sym_assert_close(a.GetAngularVelocity_b_rad_s()[i], x[i], 1e-7, "inertia change torque");
  sym_assert_close(a.previous_inertia_tensor_kgm2_[k][k], N[k][k], 1e-12, "new inertia from then on");
  Vector<3> w1 = a.GetAngularVelocity_b_rad_s();
  sym_assert_close(2 * a.GetKineticEnergy_J(), w1[0] * (N[0][0] * w1[0] + N[0][1] * w1[1] + N[0][2] * w1[2]) + w1[1] * (N[1][0] * w1[0] + N[1][1] * w1[1] + N[1][2] * w1[2]) + w1[2] * (N[2][0] * w1[0] + N[2][1] * w1[1] + N[2][2] * w1[2]), 1e-7, "energy with the new inertia");
}
// torques accumulate; a disabled attitude stays where it is
CHECK(accumulated_torque) {
  Vector<3> w = vu::vec3("rate", -1, 1), t0 = vu::vec3("torque", -1, 1), t1 = vu::vec3("torque 1", -1, 1), t2 = vu::vec3("torque 2", -1, 1);
  Quaternion q = vu::unit_quat("q");
  double D[3][3] = {{2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
  Matrix<3, 3> I = mat(D);
  AttitudeRk4 a(w, q, I, t0, 0.125, "a");
  bool set = sym_choose("set", 0, 1);
  if (set) a.SetTorque_b_Nm(t1);
  a.AddTorque_b_Nm(t2);
  bool enabled = sym_choose("enabled", 0, 1);
  a.is_calc_enabled_ = enabled;
  a.Propagate(0.25);
  for (int i = 0; i < 3; i++) sym_assert_close(a.GetAngularVelocity_b_rad_s()[i], enabled ? w[i] + 0.25 / 2 * ((set ? t1[i] : t0[i]) + t2[i]) : w[i], 1e-9, "rate");
  if (!enabled) vu::close_quat(a.GetQuaternion_i2b(), q, 0, "unchanged");
}
