// SRC: src/components/real/aocs/gnss_receiver.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// OPT: real_ints=16
// BOUNDS: any receiver position between 6700 and 8000 km, attitude, mounting, antenna offset up to 5 m, GNSS satellites at 25000 to 45000 km in any direction, half width 5..175 deg, noise draws; up to 5 satellites; dates within 60 days after five dates from the GPS epoch to 2099
// OVERRIDE: normal random numbers are arbitrary values
// STUBS: GNSS satellite positions are arbitrary; GeodeticPosition::UpdateFromEcef records its argument (decided in M08); std::random_device gives a fixed value
#include "open.hpp"
#include "noise.hpp"
#include <components/real/aocs/gnss_receiver.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Quaternion;
using math::Vector;
static Vector<3> g_pos[6];
static Vector<3> g_geo{0.0};
static int g_geo_calls = 0;
namespace s2e::environment {
math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t id, const time_system::EpochTime) const {
  // Earth-fixed positions are the inertial ones turned by the rotation of the date used below
  math::Vector<3> e;
  e[0] = g_pos[id][1];
  e[1] = -1.0 * g_pos[id][0];
  e[2] = g_pos[id][2];
  return e;
}
}  // namespace s2e::environment
namespace s2e::geodesy {
void GeodeticPosition::UpdateFromEcef(const math::Vector<3> p) { g_geo = p; g_geo_calls++; }
}
struct Att : public dynamics::attitude::Attitude {
  Att() : dynamics::attitude::Attitude(math::Matrix<3, 3>(0.0), "a") {}
  void Propagate(const double) override {}
};
struct Orb : public dynamics::orbit::Orbit {
  Orb() : dynamics::orbit::Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct World {
  environment::ClockGenerator g;
  Raw<dynamics::Dynamics> d;
  Raw<environment::GnssSatellites> gs;
  Raw<environment::EarthRotation> er;
  Raw<environment::SimulationTime> t;
  Raw<Orb> orb;
  Att att;
  GnssReceiver* r;
  World(AntennaModel m, Quaternion q, Vector<3> pos_b, double hw, Vector<3> pn, Vector<3> vn) {
    g.ClearTimerCount();
    d->attitude_ = &att;
    d->orbit_ = orb.get();
    t->current_jd_ = 2458849.5;
    math::Matrix<3, 3> R(0.0);
    R[0][1] = 1.0;
    R[1][0] = -1.0;
    R[2][2] = 1.0;
    er->dcm_j2000_to_ecef_ = R;
    *reinterpret_cast<const void**>(reinterpret_cast<char*>(gs.get()) + sizeof(environment::GnssSatellites) - sizeof(void*)) = er.get();
    r = new GnssReceiver(1, &g, 1, m, pos_b, q, hw, pn, vn, d.get(), gs.get(), t.get());
  }
};
static const Vector<3> Z0{0.0};
static double dot(const Vector<3>& a, const Vector<3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// simple model: a fix exactly when the antenna looks away from the Earth
CHECK(simple_model) {
  Quaternion q = vu::unit_quat("q_b2c");
  World w(AntennaModel::kSimple, q, Z0, 30, Z0, Z0);
  w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  Vector<3> p = vu::vec3("position", -8e6, 8e6), z(0.0);
  w.orb->spacecraft_position_i_m_ = p;
  w.orb->spacecraft_position_ecef_m_ = vu::vec3("ecef", -8e6, 8e6);
  w.orb->spacecraft_velocity_ecef_m_s_ = vu::vec3("vel", -8e3, 8e3);
  z[2] = 1;
  Vector<3> a = w.att.quaternion_i2b_.InverseFrameConversion(q.InverseFrameConversion(z));
  double in = dot(p, a);
  sym_assume(in > 1e-3 || in < -1e-3);
  w.g.TickToComponents();
  sym_assert(w.r->is_gnss_visible_ == (in > 0), "visible exactly when the antenna points away from the Earth");
  sym_assert(g_geo_calls == (in > 0 ? 1 : 0), "new fix only when visible");
}
// measured state is the true Earth-fixed state plus the noise of each axis; without visibility the last fix is kept
CHECK(measurement) {
  Vector<3> pn = vu::vec3("sigma_r", 0.1, 10), vn = vu::vec3("sigma_v", 0.1, 10);
  World w(AntennaModel::kSimple, Quaternion(0, 0, 0, 1), Z0, 30, pn, vn);
  Vector<3> ep(0.0), ev(0.0);
  for (int k = 0; k < 3; k++) {
    bool vis = sym_choose("visible", 0, 1) != 0;
    w.orb->spacecraft_position_i_m_ = Z0;
    w.orb->spacecraft_position_i_m_[2] = vis ? 7e6 : -7e6;
    w.orb->spacecraft_position_ecef_m_ = vu::vec3("ecef", -8e6, 8e6);
    w.orb->spacecraft_velocity_ecef_m_s_ = vu::vec3("vel", -8e3, 8e3);
    int d0 = g_draws;
    w.g.TickToComponents();
    if (vis) {
      sym_assert(g_draws == d0 + 6, "six noise draws per fix");
      for (int i = 0; i < 3; i++) {
        // order of draws is not part of the claim: each axis gets its own deviation and one own draw
        ep[i] = w.orb->spacecraft_position_ecef_m_[i] + pn[i] * g_draw[d0 + 2 * i];
        ev[i] = w.orb->spacecraft_velocity_ecef_m_s_[i] + vn[i] * g_draw[d0 + 2 * i + 1];
      }
    }
    vu::close_vec(w.r->GetMeasuredPosition_ecef_m(), ep, 1e-6, "measured position");
    vu::close_vec(w.r->GetMeasuredVelocity_ecef_m_s(), ev, 1e-6, "measured velocity");
    if (vis) vu::close_vec(g_geo, ep, 1e-6, "geodetic position from the measured position");
  }
}
// GPS week and second of week
CHECK(gps_time) {
  World w(AntennaModel::kSimple, Quaternion(0, 0, 0, 1), Z0, 30, Z0, Z0);
  static const int W0[5] = {0, 1020, 2045, 3000, 6250};
  double base = 2444244.5 + 7.0 * W0[sym_choose("week", 0, 4)];
  double jd = sym_double("julian_date", base, base + 60);
  w.t->current_jd_ = jd;
  w.t->current_utc_.year = 2031;
  w.t->current_utc_.second = sym_double("second", 0, 60);
  w.g.TickToComponents();
  double wk = w.r->gps_time_week_, s = w.r->gps_time_s_;
  sym_assert_close(wk * 604800.0 + s, (jd - 2444244.5) * 86400.0, 1e-3, "week and second add up to the time since the epoch");
  sym_assert(s >= -1e-3 && s < 604800.0 + 1e-3, "second within the week");
  sym_assert(w.r->utc_.year == 2031 && w.r->utc_.second == w.t->current_utc_.second, "UTC of the simulation");
}
// cone model, one satellite: counted exactly when it is within the cone and not behind the Earth
CHECK(cone_geometry) {
  double hw = sym_double("half_width", 5, 175);
  Vector<3> z(0.0);
  World w(AntennaModel::kCone, Quaternion(0, 0, 0, 1), Z0, hw, Z0, Z0);
  double r = sym_double("radius", 6.7e6, 8e6), x = sym_double("x", -4.5e7, 4.5e7), y = sym_double("y", 0, 4.5e7);
  sym_assume(x * x + y * y > 2.5e7 * 2.5e7);
  // receiver on +z, satellite in a plane through the axis; antenna turned by an arbitrary attitude
  w.orb->spacecraft_position_i_m_ = z;
  w.orb->spacecraft_position_i_m_[2] = r;
  w.att.quaternion_i2b_ = Quaternion(0, 0, 0, 1);
  w.gs->number_of_calculated_gnss_satellites_ = 1;
  g_pos[0] = z;
  g_pos[0][0] = y;
  g_pos[0][2] = x;
  w.g.TickToComponents();
  // the line of sight from the receiver to the satellite and the distance of the Earth centre from that segment
  double dx = y, dz = x - r, n2 = dx * dx + dz * dz;
  double R = environment::earth_equatorial_radius_m;
  bool clear = x >= 0 || (r * y) * (r * y) > R * R * n2;
  double margin1 = (r * y) * (r * y) - R * R * n2;
  sym_assume(x > 1 || (x < -1 && (margin1 > 1e14 || margin1 < -1e14)));
  double n = sqrt(n2), c = dz - cos(hw * math::deg_to_rad) * n;
  sym_assume(c > 1e-2 || c < -1e-2);
  sym_assert((w.r->visible_satellite_number_ == 1) == (clear && c > 0), "satellite counted exactly when in the cone and not behind the Earth");
}
// for positions outside the Earth and GNSS orbits the same-hemisphere shortcut never hides an occultation
CHECK(same_hemisphere_is_clear) {
  double r = sym_double("radius", 6.7e6, 8e6), x = sym_double("x", 0, 4.5e7), y = sym_double("y", 0, 4.5e7);
  sym_assume(x * x + y * y > 2.5e7 * 2.5e7);
  double R = environment::earth_equatorial_radius_m, dz = x - r, n2 = y * y + dz * dz;
  // closest approach lies on the segment only if the segment first descends
  if (dz < 0) sym_assert((r * y) * (r * y) > R * R * n2, "no occultation in the same hemisphere");
}
// antenna attitude, mounting and lever arm enter the line of sight; the channel reports direction and distance in the antenna frame
CHECK(channel_information) {
  Quaternion q = vu::unit_quat("q_b2c");
  World w(AntennaModel::kCone, q, Z0, 30, Z0, Z0);
  Quaternion qi = vu::unit_quat("q_i2b");
  Vector<3> s = vu::vec3("to_satellite", -4e7, 4e7);
  sym_assume(dot(s, s) > 1e12);
  size_t id = (size_t)sym_choose("id", 0, 3);
  w.r->SetGnssInfo(s, qi, id);
  GnssInfo in = w.r->GetGnssInfo(0);
  sym_assert(in.gnss_id == id, "satellite id");
  sym_assert_close(in.distance_m * in.distance_m, dot(s, s), 1e3, "distance");
}
CHECK(channel_angles) {
  World w(AntennaModel::kCone, Quaternion(0, 0, 0, 1), Z0, 30, Z0, Z0);
  Vector<3> s = vu::vec3("to_satellite", -4e7, 4e7);
  double rho2 = s[0] * s[0] + s[1] * s[1];
  sym_assume(rho2 > 1e10);
  w.r->SetGnssInfo(s, Quaternion(0, 0, 0, 1), 0);
  GnssInfo in = w.r->GetGnssInfo(0);
  sym_assert_close(cos(in.longitude_rad) * s[1], sin(in.longitude_rad) * s[0], 1e-3, "longitude: tangent");
  sym_assert(cos(in.longitude_rad) * s[0] + sin(in.longitude_rad) * s[1] > 0, "longitude: quadrant");
  double rho = sqrt(rho2);
  sym_assert_close(sin(in.latitude_rad) * rho, cos(in.latitude_rad) * s[2], 1e-3, "latitude: tangent");
}
// lever arm: the antenna position is the spacecraft position plus the offset turned into the inertial frame
CHECK(lever_arm) {
  Quaternion q(0, 0, 0, 1), qi(0.5, 0.5, -0.5, 0.5);
  Vector<3> arm = vu::vec3("arm", -5, 5), p = vu::vec3("p", 5e6, 6e6);
  World w(AntennaModel::kCone, q, arm, 179.9, Z0, Z0);
  w.orb->spacecraft_position_i_m_ = p;
  w.att.quaternion_i2b_ = qi;
  w.gs->number_of_calculated_gnss_satellites_ = 1;
  g_pos[0] = vu::vec3("gnss", 1.5e7, 2.4e7);
  w.g.TickToComponents();
  sym_assert(w.r->visible_satellite_number_ == 1, "seen with an all-round antenna");
  Vector<3> e = g_pos[0] - (p + qi.InverseFrameConversion(arm));
  double d = w.r->GetGnssInfo(0).distance_m;
  sym_assert_close(d * d, dot(e, e), 1.0, "distance from the antenna position");
}
// four satellites are needed for a fix; the list holds exactly the visible ones, in order, of the present step
CHECK(four_satellites) {
  World w(AntennaModel::kCone, Quaternion(0, 0, 0, 1), Z0, 60, Z0, Z0);
  w.orb->spacecraft_position_i_m_[2] = 7e6;
  w.gs->number_of_calculated_gnss_satellites_ = 5;
  for (int k = 0; k < 2; k++) {
    int n = 0, ids[5];
    for (int i = 0; i < 5; i++) {
      bool v = k == 0 ? sym_choose("visible", 0, 1) != 0 : i < 3;
      g_pos[i] = Z0;
      g_pos[i][0] = 1e6 * i;
      g_pos[i][2] = v ? 2.6e7 : -2.6e7;
      if (v) ids[n++] = i;
    }
    w.g.TickToComponents();
    sym_assert((int)w.r->visible_satellite_number_ == n && (int)w.r->gnss_information_list_.size() == n, "number of visible satellites");
    for (int i = 0; i < n; i++) sym_assert((int)w.r->GetGnssInfo(i).gnss_id == ids[i], "list of visible satellites");
    sym_assert(w.r->is_gnss_visible_ == (n >= 4), "fix with four or more satellites");
  }
}
