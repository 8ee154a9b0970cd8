// SRC: src/components/real/communication/antenna.cpp src/components/real/communication/antenna_radiation_pattern.cpp
// MODE: real
// OPT: real_ints=16
// BOUNDS: any powers, gains, losses, temperatures and angles in the boxes; radiation patterns of up to 3 x 3 with any gains, covering 180, 200 or 360 degrees
// STUBS: radiation pattern tables are set directly instead of read from a file
#include "open.hpp"
#include <components/real/communication/antenna.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
static AntennaParameters params(const char* n, AntennaGainModel m = AntennaGainModel::kIsotropic) {
  std::string s(n);
  AntennaParameters p;
  p.gain_dBi_ = sym_double((s + "_gain").c_str(), -20, 50);
  p.loss_feeder_dB_ = sym_double((s + "_feeder").c_str(), -10, 0);
  p.loss_pointing_dB_ = sym_double((s + "_pointing").c_str(), -10, 0);
  p.antenna_gain_model = m;
  return p;
}
// EIRP and G/T add power, losses and gain in decibel; a missing function gives only the gain of nothing
CHECK(eirp_and_gt) {
  AntennaParameters t = params("tx"), r = params("rx");
  double p = sym_double("power", 1e-3, 100), temp = sym_double("temperature", 10, 1000), f = sym_double("frequency", 100, 30000), br = sym_double("bitrate", 10, 1e8);
  bool tx = sym_choose("transmitter", 0, 1), rx = sym_choose("receiver", 0, 1);
  math::Quaternion q = vu::unit_quat("q");
  double th = sym_double("theta", 0, 3.2), ph = sym_double("phi", -3.2, 3.2);
  Antenna* a;
  if (sym_choose("constructor", 0, 1)) {
    a = new Antenna(3, q, tx, rx, f, br, p, t, temp, r);
  } else {
    Vector<5> tp;
    tp[0] = p; tp[1] = t.gain_dBi_; tp[2] = t.loss_feeder_dB_; tp[3] = t.loss_pointing_dB_; tp[4] = br;
    Vector<4> rp;
    rp[0] = r.gain_dBi_; rp[1] = r.loss_feeder_dB_; rp[2] = r.loss_pointing_dB_; rp[3] = temp;
    a = new Antenna(3, q, tx, rx, f, tp, rp);
  }
  sym_assert(a->IsTransmitter() == tx && a->IsReceiver() == rx, "roles");
  sym_assert(a->GetFrequency_MHz() == f && a->GetBitrate_bps() == br, "frequency and bit rate");
  vu::close_quat(a->GetQuaternion_b2c(), q, 0, "mounting");
  if (tx) sym_assert_close(a->CalcTxEirp_dBW(th, ph), 10 * std::log10(p) + t.loss_feeder_dB_ + t.loss_pointing_dB_ + t.gain_dBi_, 1e-9, "EIRP");
  if (rx) sym_assert_close(a->CalcRxGt_dB_K(th, ph), r.gain_dBi_ + r.loss_feeder_dB_ + r.loss_pointing_dB_ - 10 * std::log10(temp), 1e-9, "gain over noise temperature");
}
// the pattern gives the gain of the nearest grid direction, clamped to the table
static void fill(AntennaRadiationPattern& a, int nt, int np, double tm, double pm, double g[3][3]) {
  a.length_theta_ = nt;
  a.length_phi_ = np;
  a.theta_max_rad_ = tm;
  a.phi_max_rad_ = pm;
  a.gain_dBi_.assign(nt, std::vector<double>(np, 0.0));
  for (int i = 0; i < nt; i++)
    for (int j = 0; j < np; j++) a.gain_dBi_[i][j] = g[i][j] = sym_double("gain", -50, 50);
}
static int nearest(double x, int n, double mx) {
  int i = 0;
  for (int k = 1; k < n; k++) if (x * n >= (k - 0.5) * mx) i = k;
  return i;
}
CHECK(pattern_lookup) {
  AntennaRadiationPattern a;
  double g[3][3];
  int nt = (int)sym_choose("theta_size", 1, 3), np = (int)sym_choose("phi_size", 1, 3);
  double tm = sym_choose("theta_range", 0, 1) ? math::pi : 1.0, pm = sym_choose("phi_range", 0, 1) ? math::tau : math::pi;
  fill(a, nt, np, tm, pm, g);
  double th = sym_double("theta", -0.5, 3.7), ph = sym_double("phi", 0, 6.3);
  double got = a.GetGain_dBi(th, ph);
  sym_assert(got == g[nearest(th, nt, tm)][nearest(ph, np, pm)], "gain of the nearest table direction");
}
// azimuths below zero are the same direction as a full turn later
CHECK(pattern_azimuth) {
  AntennaRadiationPattern a;
  double g[3][3];
  int kind = (int)sym_choose("table", 0, 1);
  int nt = 3, np = 3;
  double tm = kind ? math::tau : math::pi, pm = kind ? math::pi : math::tau;
  fill(a, nt, np, tm, pm, g);
  double th = sym_double("theta", 0, 3.14159), ph = sym_double("phi", -3.14159, -1e-9);
  double got = a.GetGain_dBi(th, ph);
  if (kind) sym_assert(got == g[nearest(math::tau - th, nt, tm)][nearest(ph + math::pi, np, pm)], "opposite azimuth beyond the axis");
  else sym_assert(got == g[nearest(th, nt, tm)][nearest(ph + math::tau, np, pm)], "one turn later");
}
CHECK(pattern_antenna) {
  AntennaParameters t = params("tx", AntennaGainModel::kRadiationPatternCsv), r = params("rx");
  double g[3][3];
  fill(t.radiation_pattern, 2, 2, math::pi, math::tau, g);
  double p = sym_double("power", 1e-3, 100), temp = sym_double("temperature", 10, 1000);
  bool swap = sym_choose("on_receiver", 0, 1);
  Antenna a(1, math::Quaternion(), true, true, 2000, 1e5, p, swap ? r : t, temp, swap ? t : r);
  double th = sym_double("theta", 0, 3.14159), ph = sym_double("phi", -3.14159, 3.14159);
  double gain = g[nearest(th, 2, math::pi)][nearest(ph < 0 ? ph + math::tau : ph, 2, math::tau)];
  AntennaParameters& et = swap ? r : t;
  AntennaParameters& er = swap ? t : r;
  sym_assert_close(a.CalcTxEirp_dBW(th, ph), 10 * std::log10(p) + et.loss_feeder_dB_ + et.loss_pointing_dB_ + (swap ? et.gain_dBi_ : gain), 1e-9, "EIRP in the direction");
  sym_assert_close(a.CalcRxGt_dB_K(th, ph), (swap ? gain : er.gain_dBi_) + er.loss_feeder_dB_ + er.loss_pointing_dB_ - 10 * std::log10(temp), 1e-9, "G/T in the direction");
}
CHECK(gain_model_names) {
  sym_assert(SetAntennaGainModel("ISOTROPIC") == AntennaGainModel::kIsotropic, "isotropic");
  sym_assert(SetAntennaGainModel("RADIATION_PATTERN_CSV") == AntennaGainModel::kRadiationPatternCsv, "pattern");
}
