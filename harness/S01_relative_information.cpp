// SRC: src/simulation/multiple_spacecraft/relative_information.cpp
// MODE: real
// BOUNDS: 1 to 3 spacecraft (4 for the tables, 5 for the log) with any positions, velocities and attitudes; any attitude and size of the frame of the reference orbit; removal of the last spacecraft
// STUBS: the local orbital frame of each orbit is any rotation consistent with its state (D04 decides how it is computed)
// OVERRIDE: the local orbital frame and the dynamics' log
#include "orb.hpp"
#include <dynamics/attitude/attitude.hpp>
#include <dynamics/dynamics.hpp>
#include <simulation/multiple_spacecraft/relative_information.hpp>
using namespace s2e;
using math::Matrix;
using math::Quaternion;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
static const dynamics::orbit::Orbit* g_o[5];
static Quaternion g_q[5];
namespace s2e::dynamics::orbit {
Quaternion Orbit::CalcQuaternion_i2lvlh() const {
  for (int i = 0; i < 5; i++) if (g_o[i] == this) return g_q[i];
  sym_assert(false, "frame of a registered spacecraft");
  return g_q[0];
}
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
namespace s2e::logger {
static ILoggable* g_logged;
void Logger::AddLogList(ILoggable* l) { g_logged = l; }
}  // namespace s2e::logger
struct Att : dynamics::attitude::Attitude {
  Att(const Matrix<3, 3>& i, int n) : Attitude(i, "attitude" + std::to_string(n)) {}
  void Propagate(const double) override {}
};
struct Orb : dynamics::orbit::Orbit {
  Orb() : Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct Sat {
  Orb o;
  Att a;
  Raw<dynamics::Dynamics> d;
  Sat(int i) : a(math::MakeIdentityMatrix<3>(), i) {
    o.spacecraft_position_i_m_ = Vector<3>(0.0);
    o.spacecraft_velocity_i_m_s_ = Vector<3>(0.0);
    a.quaternion_i2b_ = Quaternion(0, 0, 0, 1);
    d->orbit_ = &o;
    d->attitude_ = &a;
    g_o[i] = &o;
    g_q[i] = Quaternion(0, 0, 0, 1);
  }
};
// all pairs: differences, distances, attitudes, each in the row of the target and the column of the reference
CHECK(inertial) {
  simulation::RelativeInformation rel;
  int n = (int)sym_choose("spacecraft", 1, 3);
  Sat* s[3];
  // registered in any order
  bool rev = sym_choose("order", 0, 1);
  for (int i = 0; i < n; i++) s[i] = new Sat(i);
  for (int i = 0; i < n; i++) { int k = rev ? n - 1 - i : i; rel.RegisterDynamicsInfo(k, s[k]->d.get()); }
  for (int u = 0; u < 2; u++) {
    for (int i = 0; i < n; i++) {
      s[i]->o.spacecraft_position_i_m_ = vu::vec3("position", -10, 10);
      s[i]->o.spacecraft_velocity_i_m_s_ = vu::vec3("velocity", -10, 10);
      // keep the frames' radius away from zero
      s[i]->o.spacecraft_position_i_m_[0] = sym_double("radius", 20.0 * (i + 1), 20.0 * (i + 1) + 10);
      if (!u) s[i]->a.quaternion_i2b_ = vu::unit_quat("attitude");
    }
    rel.Update();
    for (int t = 0; t < n; t++) for (int r = 0; r < n; r++) {
      double d2 = 0;
      for (int k = 0; k < 3; k++) {
        double d = s[t]->o.spacecraft_position_i_m_[k] - s[r]->o.spacecraft_position_i_m_[k];
        d2 += d * d;
        sym_assert_close(rel.GetRelativePosition_i_m(t, r)[k], d, 1e-9, "inertial position");
        sym_assert_close(rel.GetRelativeVelocity_i_m_s(t, r)[k], s[t]->o.spacecraft_velocity_i_m_s_[k] - s[r]->o.spacecraft_velocity_i_m_s_[k], 1e-9, "inertial velocity");
      }
      double m = rel.GetRelativeDistance_m(t, r);
      sym_assert_close(m * m, d2, 1e-6, "distance");
      sym_assert_le(0, m, "distance is not negative");
      if (u) continue;
      // converting from the reference body to the target body
      for (int k = 0; k < 3; k++) {
        Vector<3> e(0.0);
        e[k] = 1;
        vu::close_vec(rel.GetRelativeAttitudeQuaternion(t, r).FrameConversion(s[r]->a.GetQuaternion_i2b().FrameConversion(e)), s[t]->a.GetQuaternion_i2b().FrameConversion(e), 1e-6, "relative attitude");
      }
    }
  }
}
// motion seen from the frame that turns with the orbit of the reference
CHECK(rotating_frame) {
  simulation::RelativeInformation rel;
  Sat s0(0), s1(1);
  rel.RegisterDynamicsInfo(0, s0.d.get());
  rel.RegisterDynamicsInfo(1, s1.d.get());
  int ref = (int)sym_choose("reference", 0, 1), tgt = 1 - ref;
  Sat &R = ref ? s1 : s0, &T = ref ? s0 : s1;
  Quaternion q = vu::unit_quat("q");
  g_q[ref] = q;
  double radius = sym_double("radius", 1, 10), a = sym_double("radial speed", -2, 2), b = sym_double("transverse speed", 0.25, 4), w = b / radius, x[6];
  for (int i = 0; i < 6; i++) x[i] = sym_double("relative", -8, 8);
  Vector<3> e[3];
  for (int i = 0; i < 3; i++) { Vector<3> u(0.0); u[i] = 1; e[i] = q.InverseFrameConversion(u); }
  R.o.spacecraft_position_i_m_ = radius * e[0];
  R.o.spacecraft_velocity_i_m_s_ = a * e[0] + b * e[1];
  double v[3] = {x[3] - w * x[1], x[4] + w * x[0], x[5]};
  T.o.spacecraft_position_i_m_ = R.o.spacecraft_position_i_m_;
  T.o.spacecraft_velocity_i_m_s_ = R.o.spacecraft_velocity_i_m_s_;
  for (int k = 0; k < 3; k++) { T.o.spacecraft_position_i_m_ += x[k] * e[k]; T.o.spacecraft_velocity_i_m_s_ += v[k] * e[k]; }
  Vector<3> p = rel.CalcRelativePosition_rtn_m(tgt, ref), pd = rel.CalcRelativeVelocity_rtn_m_s(tgt, ref);
  for (int k = 0; k < 3; k++) {
    sym_assert_close(p[k], x[k], 1e-6, "position in the rotating frame");
    sym_assert_close(pd[k], x[3 + k], 1e-6, "velocity in the rotating frame");
  }
}
// the tables hold the rotating frame results of every pair; sizes follow registration and removal
CHECK(tables) {
  simulation::RelativeInformation rel;
  int n = (int)sym_choose("spacecraft", 1, 4);
  Sat* s[4];
  for (int i = 0; i < n; i++) { s[i] = new Sat(i); rel.RegisterDynamicsInfo(i, s[i]->d.get()); }
  for (int i = 0; i < n; i++) {
    double c = std::cos(0.5 * i), d = std::sin(0.5 * i);
    g_q[i] = Quaternion(0, 0, d, c);
    s[i]->o.spacecraft_position_i_m_[0] = 10 * (i + 1);
    s[i]->o.spacecraft_velocity_i_m_s_[1] = 3 + i;
    s[i]->o.spacecraft_position_i_m_[2] = sym_double("z", -1, 1);
  }
  bool removed = n > 1 && sym_choose("remove last", 0, 1);
  if (removed) rel.RemoveDynamicsInfo(--n);
  rel.Update();
  for (int t = 0; t < n; t++) {
    sym_assert(rel.GetReferenceSatDynamics(t) == s[t]->d.get(), "registered dynamics");
    for (int r = 0; r < n; r++) {
      vu::close_vec(rel.GetRelativePosition_rtn_m(t, r), rel.CalcRelativePosition_rtn_m(t, r), 1e-9, "position table");
      vu::close_vec(rel.GetRelativeVelocity_rtn_m_s(t, r), rel.CalcRelativeVelocity_rtn_m_s(t, r), 1e-9, "velocity table");
      for (int k = 0; k < 3; k++) sym_assert_close(rel.GetRelativePosition_i_m(t, r)[k], s[t]->o.spacecraft_position_i_m_[k] - s[r]->o.spacecraft_position_i_m_[k], 1e-9, "inertial table");
    }
  }
  sym_assert((int)rel.relative_position_list_i_m_.size() == n && (int)rel.relative_attitude_quaternion_list_.size() == n && (int)rel.relative_distance_list_m_.size() == n, "size");
}
static std::string num(int i) { return std::to_string(i); }
// every column of the log belongs to the pair and quantity of its name
CHECK(log) {
  simulation::RelativeInformation rel;
  int n = (int)sym_choose("spacecraft", 1, 5);
  Sat* s[5];
  for (int i = 0; i < n; i++) { s[i] = new Sat(i); rel.RegisterDynamicsInfo(i, s[i]->d.get()); }
  logger::Logger* lg = nullptr;
  rel.LogSetup(*lg);
  sym_assert(logger::g_logged == &rel, "registered to the logger");
  const char* q[4] = {"position", "velocity", "position", "velocity"};
  const char* f[4] = {"i", "i", "rtn", "rtn"};
  const char* unit[4] = {"m", "m/s", "m", "m/s"};
  std::string head, value;
  for (int k = 0; k < 4; k++)
    for (int t = 0; t < n; t++)
      for (int r = 0; r < t; r++)
        for (int c = 0; c < 3; c++) {
          int v = 1000 * (k + 1) + 100 * t + 10 * r + c;
          head += "satellite" + num(t) + "_" + q[k] + "_from_satellite" + num(r) + "_" + f[k] + "_" + "xyz"[c] + "[" + unit[k] + "],";
          value += num(v) + ",";
          (k == 0 ? rel.relative_position_list_i_m_ : k == 1 ? rel.relative_velocity_list_i_m_s_ : k == 2 ? rel.relative_position_list_rtn_m_ : rel.relative_velocity_list_rtn_m_s_)[t][r][c] = v;
        }
  sym_assert(rel.GetLogHeader() == head, "header");
  sym_assert(rel.GetLogValue() == value, "values");
}
