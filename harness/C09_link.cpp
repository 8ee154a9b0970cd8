// SRC: src/components/real/communication/ground_station_calculator.cpp src/simulation/ground_station/ground_station.cpp src/math_physics/geodesy/geodetic_position.cpp
// MODE: real
// BOUNDS: any geometry, attitude, antenna mounting, losses, requirements, bit rate and elevation limit in the boxes
// STUBS: gain by direction is an arbitrary value recorded with the angles asked for (Antenna::CalcTxEirp_dBW and CalcRxGt_dB_K, decided in C09_antenna)
#include "open.hpp"
#include <components/real/communication/ground_station_calculator.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
using math::Quaternion;
static double g_eirp, g_gt, g_tx[2], g_rx[2];
static int g_ntx, g_nrx;
namespace s2e::components {
double Antenna::CalcTxEirp_dBW(const double t, const double p) const { g_tx[0] = t; g_tx[1] = p; g_ntx++; return g_eirp; }
double Antenna::CalcRxGt_dB_K(const double t, const double p) const { g_rx[0] = t; g_rx[1] = p; g_nrx++; return g_gt; }
}  // namespace s2e::components
struct Att : dynamics::attitude::Attitude {
  Att() : Attitude(math::Matrix<3, 3>(0.0), "a") {}
  void Propagate(const double) override {}
};
struct Orb : dynamics::orbit::Orbit {
  void Propagate(const double, const double) override {}
};
struct World {
  Att att;
  Raw<Orb> orb;
  Raw<dynamics::Dynamics> d;
  Raw<spacecraft::Spacecraft> sc;
  Raw<ground_station::GroundStation> gs;
  Raw<Antenna> tx, rx;
  double pol, atm, rain, oth, ebn0, hw, cod, req;
  GroundStationCalculator* c;
  World() {
    d->attitude_ = &att;
    d->orbit_ = orb.get();
    sc->dynamics_ = d.get();
    const_cast<unsigned&>(sc->spacecraft_id_) = 2;
    new (&gs->is_visible_) std::map<int, bool>();
    gs->is_visible_[2] = true;
    tx->is_transmitter_ = true;
    rx->is_receiver_ = true;
    tx->quaternion_b2c_ = rx->quaternion_b2c_ = gs->geodetic_position_.quaternion_xcxf_to_ltc_ = Quaternion(0, 0, 0, 1);
    tx->frequency_MHz_ = 2000;
    tx->tx_bitrate_bps_ = 1e5;
    orb->spacecraft_position_i_m_[0] = 7e6;
    gs->position_i_m_[0] = 6.4e6;
    orb->spacecraft_position_ecef_m_[0] = 7e6;
    gs->position_ecef_m_[0] = 6.4e6;
    g_ntx = g_nrx = 0;
  }
  void budget() {
    pol = sym_double("polarization", -5, 0); atm = sym_double("atmosphere", -5, 0); rain = sym_double("rain", -5, 0); oth = sym_double("others", -5, 0);
    ebn0 = sym_double("ebn0", 0, 15); hw = sym_double("hardware", 0, 5); cod = sym_double("coding", -10, 0); req = sym_double("requirement", 0, 6);
    g_eirp = sym_double("eirp", -30, 60);
    g_gt = sym_double("gt", -40, 40);
    c = new GroundStationCalculator(pol, atm, rain, oth, ebn0, hw, cod, req, 1e5);
  }
  void fixed() { c = new GroundStationCalculator(0, 0, 0, 0, 0, 0, 0, 0, 1e5); }
  void update() { c->Update(*sc, *tx, *gs, *rx); }
};
// received carrier to noise by the link budget equation
CHECK(link_budget) {
  World w;
  w.budget();
  double f = w.tx->frequency_MHz_ = sym_double("frequency", 100, 30000), br = w.tx->tx_bitrate_bps_ = sym_double("bitrate", 100, 1e8);
  double dist = sym_double("distance", 1e5, 4e8);
  w.orb->spacecraft_position_i_m_ = vu::vec3("position", -1e8, 1e8);
  Vector<3> u = vu::unit_vec("direction");
  w.gs->position_i_m_ = w.orb->spacecraft_position_i_m_ - dist * u;
  w.update();
  double fspl = 20.0 * std::log10(4.0 * math::pi * (dist / 1000.0) / (300.0 / f / 1000.0));
  double cn0 = g_eirp - fspl + w.pol + w.atm + w.rain + w.oth + g_gt - 10.0 * std::log10(environment::boltzmann_constant_J_K);
  sym_assert_close(w.c->GetReceiveMargin_dB(), cn0 - (w.ebn0 + w.hw + w.cod) - 10.0 * std::log10(br), 1e-6, "margin over the required Eb/N0 at the bit rate");
  double m = cn0 - (w.ebn0 + w.hw + w.cod) - w.req;
  double mb = w.c->GetMaxBitrate_Mbps();
  if (m > 1e-6) sym_assert_close(mb, std::pow(10.0, m / 10.0) / 1e6, 1e-6, "largest bit rate that keeps the required margin");
  if (m < -1e-6) sym_assert(mb == 0, "no bit rate without margin");
}
// path loss is what physics says for 300 m/us: the wavelength in km
CHECK(no_link) {
  World w;
  w.budget();
  int kind = (int)sym_choose("reason", 0, 2);
  if (kind == 0) w.gs->is_visible_[2] = false;
  if (kind == 1) w.tx->is_transmitter_ = false;
  if (kind == 2) w.rx->is_receiver_ = false;
  w.c->max_bitrate_Mbps_ = 5;
  w.c->receive_margin_dB_ = 5;
  w.update();
  if (kind == 0) sym_assert(w.c->GetMaxBitrate_Mbps() == 0 && w.c->GetReceiveMargin_dB() == -10000.0, "no link to an invisible spacecraft");
  else sym_assert_close(w.c->GetReceiveMargin_dB(), -(w.ebn0 + w.hw + w.cod) - 10.0 * std::log10(1e5), 1e-6, "no received power without a transmitter or receiver");
  if (kind) sym_assert(g_ntx == 0 && g_nrx == 0, "no antenna asked");
}
// the antennas are asked for the direction of the other side in their own frames
CHECK(transmit_direction) {
  World w;
  w.fixed();
  w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  Quaternion m = w.tx->quaternion_b2c_ = vu::unit_quat("q_b2c");
  Vector<3> u = vu::unit_vec("direction");
  double dist = sym_double("distance", 1e5, 4e8);
  w.orb->spacecraft_position_i_m_ = vu::vec3("position", -1e8, 1e8);
  w.gs->position_i_m_ = w.orb->spacecraft_position_i_m_ + dist * u;
  Vector<3> e = m.FrameConversion(w.att.quaternion_i2b_.FrameConversion(u));
  Vector<3> d = w.gs->position_i_m_ - w.orb->spacecraft_position_i_m_, z = (w.att.quaternion_i2b_ * m).FrameConversion(d.CalcNormalizedVector());
  vu::close_vec(z, e, 1e-9, "direction in the antenna frame");
  sym_assume(z[2] <= 1 && z[2] >= -1);  // follows from the unit norm and equality just shown
  sym_assert_close(e[0] * e[0] + e[1] * e[1] + e[2] * e[2], 1.0, 1e-9, "unit direction");
  sym_assume(e[2] <= 1 && e[2] >= -1);  // follows from the unit norm just shown
  w.update();
  sym_assert_close(std::cos(g_tx[0]), z[2], 1e-9, "polar angle from the antenna Z axis");
  sym_assert_close(g_tx[1], std::atan2(e[1], e[0]), 1e-9, "azimuth from the antenna X axis");
}
CHECK(receive_direction) {
  World w;
  w.fixed();
  w.gs->geodetic_position_.quaternion_xcxf_to_ltc_ = vu::unit_quat("q_ltc");
  Quaternion m = w.rx->quaternion_b2c_ = vu::unit_quat("q_b2c");
  Vector<3> u = vu::unit_vec("direction");
  double dist = sym_double("distance", 1e5, 4e8);
  w.gs->position_ecef_m_ = vu::vec3("position", -1e7, 1e7);
  w.orb->spacecraft_position_ecef_m_ = w.gs->position_ecef_m_ + dist * u;
  Vector<3> e = m.FrameConversion(w.gs->geodetic_position_.quaternion_xcxf_to_ltc_.FrameConversion(u));
  Vector<3> d = w.orb->spacecraft_position_ecef_m_ - w.gs->position_ecef_m_, z = (w.gs->geodetic_position_.quaternion_xcxf_to_ltc_ * m).FrameConversion(d.CalcNormalizedVector());
  vu::close_vec(z, e, 1e-9, "direction in the antenna frame");
  sym_assume(z[2] <= 1 && z[2] >= -1);  // follows from the unit norm and equality just shown
  sym_assert_close(e[0] * e[0] + e[1] * e[1] + e[2] * e[2], 1.0, 1e-9, "unit direction");
  sym_assume(e[2] <= 1 && e[2] >= -1);  // follows from the unit norm just shown
  w.update();
  sym_assert_close(std::cos(g_rx[0]), z[2], 1e-9, "polar angle from the antenna Z axis");
  sym_assert_close(g_rx[1], std::atan2(e[1], e[0]), 1e-9, "azimuth from the antenna X axis");
}
// visible exactly above the elevation limit, for the spacecraft asked; inertial position follows the Earth rotation
CHECK(visibility) {
  World w;
  double lim = sym_double("limit", 0, 80);
  Quaternion q = w.gs->geodetic_position_.quaternion_xcxf_to_ltc_ = vu::unit_quat("q_ltc");
  w.gs->position_ecef_m_ = vu::vec3("station", -7e6, 7e6);
  w.gs->elevation_limit_angle_deg_ = lim;
  double r = sym_double("range", 1e5, 4e8);
  Vector<3> u = vu::unit_vec("direction");
  w.orb->spacecraft_position_ecef_m_ = w.gs->position_ecef_m_ + r * u;
  Raw<environment::EarthRotation> er;
  double ang = sym_double("angle", -3, 3), c = std::cos(ang), s = std::sin(ang);
  math::Matrix<3, 3> dcm(0.0);
  dcm[0][0] = c; dcm[0][1] = s; dcm[1][0] = -s; dcm[1][1] = c; dcm[2][2] = 1;
  er->dcm_j2000_to_ecef_ = dcm;
  bool before = sym_choose("before", 0, 1);
  w.gs->is_visible_[2] = before;
  w.gs->is_visible_[1] = before;
  w.gs->ground_station::GroundStation::Update(*er, *w.sc);
  double e = q.FrameConversion(u)[2];
  double t = std::sin(lim * math::deg_to_rad);
  bool vis = w.gs->IsVisible(2);
  if (vis) sym_assert_le(t, e + 1e-6, "visible only above the elevation limit");
  else sym_assert_le(e, t + 1e-6, "visible whenever above the elevation limit");
  sym_assert(w.gs->IsVisible(1) == before, "other spacecraft keep their flag");
  Vector<3> p = w.gs->position_ecef_m_, pi;
  pi[0] = c * p[0] - s * p[1];
  pi[1] = s * p[0] + c * p[1];
  pi[2] = p[2];
  vu::close_vec(w.gs->GetPosition_i_m(), pi, 1e-3, "inertial position of the station");
}
