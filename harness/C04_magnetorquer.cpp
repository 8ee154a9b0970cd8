// SRC: src/components/real/aocs/magnetorquer.cpp src/components/real/aocs/mtq_magnetometer_interference.cpp src/components/real/aocs/magnetometer.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any mounting quaternion, scale-factor matrix, limits, bias, command, field and noise draw in the boxes; histories of up to 4 steps; interference polynomials up to degree 3
// OVERRIDE: NormalRand::operator double -> average + deviation * arbitrary draw
// STUBS: normal random numbers are arbitrary values (average + deviation * draw); std::random_device gives a fixed value
#include "open.hpp"
#include "noise.hpp"
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Matrix;
using math::Vector;
static Matrix<3, 3> unit3() { Matrix<3, 3> m(0.0); for (int i = 0; i < 3; i++) m[i][i] = 1.0; return m; }
static Matrix<3, 3> mat(const char* n, double a) {
  Matrix<3, 3> m;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = sym_double((std::string(n) + char('0' + i) + char('0' + j)).c_str(), -a, a);
  return m;
}
struct Par {
  math::Quaternion q{0, 0, 0, 1};
  Matrix<3, 3> sf = unit3();
  Vector<3> mx{100.0}, mn{-100.0}, bias{0.0}, rws{0.0}, rwl{0.0}, nr{0.0};
};
static Magnetorquer* make(environment::ClockGenerator* g, const Par& p, environment::GeomagneticField* f, PowerPort* pp = nullptr) {
  g->ClearTimerCount();
  if (pp) return new Magnetorquer(1, g, pp, 1, p.q, p.sf, p.mx, p.mn, p.bias, 0.5, p.rws, p.rwl, p.nr, f);
  return new Magnetorquer(1, g, 1, p.q, p.sf, p.mx, p.mn, p.bias, 0.5, p.rws, p.rwl, p.nr, f);
}
static Vector<3> mul(const Matrix<3, 3>& m, const Vector<3>& v) {
  Vector<3> r(0.0);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i] += m[i][j] * v[j];
  return r;
}
static Vector<3> crossv(const Vector<3>& a, const Vector<3>& b) {
  Vector<3> r;
  for (int i = 0; i < 3; i++) r[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
  return r;
}
static double clip(double x, double lo, double hi) { return x > hi ? hi : x < lo ? lo : x; }
// moment through scale factor, bias and noise; torque is moment cross field
CHECK(moment_and_torque) {
  environment::ClockGenerator g;
  Raw<environment::GeomagneticField> f;
  Par p;
  p.q = vu::unit_quat("q_b2c");
  p.sf = mat("sf", 2);
  p.bias = vu::vec3("bias", -1, 1);
  p.nr = vu::vec3("sigma", 0.01, 1);
  Magnetorquer* m = make(&g, p, f.get());
  for (int k = 0; k < 2; k++) {
    f->magnetic_field_b_nT_ = vu::vec3("field", -6e4, 6e4);
    if (k == 0) m->SetOutputMagneticMoment_c_Am2(vu::vec3("target", -50, 50));
    Vector<3> t = m->target_magnetic_moment_c_Am2_;
    int d0 = g_draws;
    g.TickToComponents();
    Vector<3> e;
    for (int i = 0; i < 3; i++) e[i] = t[i] + p.bias[i] + p.nr[i] * g_draw[d0 + i];
    e = mul(p.sf, e);
    vu::close_vec(m->GetOutputMagneticMoment_c_Am2(), e, 1e-9, "moment in the component frame");
    Vector<3> b = p.q.InverseFrameConversion(e);
    vu::close_vec(m->SetOutputMagneticMoment_b_Am2(), b, 1e-9, "moment in the body frame");
    vu::close_vec(m->GetOutputTorque_b_Nm(), crossv(b, 1e-9 * f->magnetic_field_b_nT_), 1e-9, "torque is moment cross field");
  }
}
// each axis is limited to its own range
CHECK(limits) {
  environment::ClockGenerator g;
  Raw<environment::GeomagneticField> f;
  Par p;
  p.mx = vu::vec3("max", 0.1, 1);
  p.mn = vu::vec3("min", -1, -0.1);
  Magnetorquer* m = make(&g, p, f.get());
  for (int k = 0; k < 2; k++) {
    Vector<3> t = vu::vec3("target", -3, 3);
    m->SetOutputMagneticMoment_c_Am2(t);
    g.TickToComponents();
    for (int i = 0; i < 3; i++) sym_assert_close(m->GetOutputMagneticMoment_c_Am2()[i], clip(t[i], p.mn[i], p.mx[i]), 1e-12, "moment limited per axis");
  }
}
// a held command gives the same moment again: noise does not accumulate in the command
CHECK(held_command) {
  environment::ClockGenerator g;
  Raw<environment::GeomagneticField> f;
  Par p;
  p.bias = vu::vec3("bias", -1, 1);
  p.sf = mat("sf", 2);
  Magnetorquer* m = make(&g, p, f.get());
  m->SetOutputMagneticMoment_c_Am2(vu::vec3("target", -50, 50));
  g.TickToComponents();
  Vector<3> a = m->GetOutputMagneticMoment_c_Am2();
  for (int k = 0; k < 3; k++) g.TickToComponents();
  vu::close_vec(m->GetOutputMagneticMoment_c_Am2(), a, 1e-9, "held command repeats the same moment");
}
// random walk: its value adds to the moment, increments are the draws times the step deviation
CHECK(random_walk) {
  environment::ClockGenerator g;
  Raw<environment::GeomagneticField> f;
  Par p;
  for (int i = 0; i < 3; i++) { p.rws[i] = 0.25 * (i + 1); p.rwl[i] = 1e6; }
  Magnetorquer* m = make(&g, p, f.get());
  Vector<3> rw(0.0);
  for (int k = 0; k < 3; k++) {
    int d0 = g_draws;
    g.TickToComponents();
    vu::close_vec(m->GetOutputMagneticMoment_c_Am2(), rw, 1e-9, "random walk value");
    sym_assert(g_draws == d0 + 12, "one Runge-Kutta step of the walk per tick");
    static const double W[4] = {1, 2, 2, 1};
    for (int i = 0; i < 3; i++) for (int q = 0; q < 4; q++) rw[i] += 0.5 / 6.0 * W[q] * p.rws[i] * g_draw[d0 + 3 * q + i];
  }
}
CHECK(power_off) {
  environment::ClockGenerator g;
  Raw<environment::GeomagneticField> f;
  for (int i = 0; i < 3; i++) f->magnetic_field_b_nT_[i] = 3e4 - 1e4 * i;
  Par p;
  PowerPort pp(1, 10.0, 1.0, 1.0);
  Magnetorquer* m = make(&g, p, f.get(), &pp);
  pp.SetVoltage_V(5.0);
  Vector<3> t = vu::vec3("target", -50, 50);
  m->SetOutputMagneticMoment_c_Am2(t);
  g.TickToComponents();
  vu::close_vec(m->GetOutputMagneticMoment_c_Am2(), t, 1e-9, "moment while powered");
  pp.SetVoltage_V(0.0);
  g.TickToComponents();
  for (int i = 0; i < 3; i++) sym_assert(m->GetOutputTorque_b_Nm()[i] == 0 && m->GetOutputMagneticMoment_c_Am2()[i] == 0 && m->SetOutputMagneticMoment_b_Am2()[i] == 0, "no moment or torque without power");
}
// interference: the magnetometer bias carries the polynomial of the present moment exactly once
CHECK(interference) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Raw<environment::GeomagneticField> f;
  Raw<MtqMagnetometerInterference> ri;
  Par p;
  Magnetorquer* m = make(&g, p, f.get());
  Raw<Magnetometer> mag;
  mag->bias_noise_c_ = vu::vec3("bias", -100, 100);
  Vector<3> own = mag->bias_noise_c_;
  
  size_t D = (size_t)sym_choose("degree", 0, 3);
  std::vector<Matrix<3, 3>> C;
  for (size_t d = 0; d < D; d++) C.push_back(mat("c", 5));
  MtqMagnetometerInterference& I = *ri;
  I.polynomial_degree_ = D;
  new (&I.additional_bias_by_mtq_coefficients_) std::vector<Matrix<3, 3>>(C);
  // references are stored in declaration order at the end of the object
  *reinterpret_cast<const void**>(reinterpret_cast<char*>(&I) + sizeof(I) - 2 * sizeof(void*)) = mag.get();
  *reinterpret_cast<const void**>(reinterpret_cast<char*>(&I) + sizeof(I) - sizeof(void*)) = m;
  for (int k = 0; k < 3; k++) {
    if (k == 2) mag->AddConstantBiasNoise_c_nT(own = own + Vector<3>{0.0});
    Vector<3> base = k == 2 ? 2.0 * own : own;
    Vector<3> mm = vu::vec3("m", -2, 2);
    m->output_magnetic_moment_c_Am2_ = mm;
    I.UpdateInterference();
    Vector<3> e = base, pw;
    for (int i = 0; i < 3; i++) pw[i] = 1.0;
    for (size_t d = 0; d < D; d++) {
      for (int i = 0; i < 3; i++) pw[i] = pw[i] * mm[i];
      e = e + mul(C[d], pw);
    }
    vu::close_vec(mag->bias_noise_c_, e, 1e-6, "bias is own bias plus the polynomial of the present moment");
  }
}
