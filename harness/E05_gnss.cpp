// SRC: src/environment/global/gnss_satellites.cpp src/math_physics/orbit/interpolation_orbit.cpp
// MODE: real
// BOUNDS: 2 SP3 files of 12 epochs (one day each), 2 satellites with any positions and clocks, any start time and up to three updates at any later time
// STUBS: SP3 access (symbolic records; E05_sp3), calendar conversion (M07: seconds are passed through), interpolation formulas (M04: recorded calls), INI access
// OVERRIDE: the interpolation formulas are recorded
// OPT: max_paths=3000
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <cmath>
#include <environment/global/gnss_satellites.hpp>
using namespace s2e;
using namespace s2e::environment;
using gnss::Sp3FileReader;
using math::Vector;
static const int kSat = 2, kRec = 12, kFiles = 2;
static const double kStep = 7200.0, kDay = 86400.0;
static double g_pos[kSat][3], g_clk[kSat];  // position and clock of record n: base + n (n-th record of all files)
static double g_x, g_period;
static int g_reads_behind;
namespace s2e::time_system {
EpochTime::EpochTime(const DateTime d) { time_s_ = 1000000 + d.GetDay() * 86400; fraction_s_ = d.GetSecond(); }
DateTime::DateTime(const std::string) { year_ = 0; month_ = 1; day_ = 1; hour_ = 0; minute_ = 0; second_ = -1e6; }
}  // namespace s2e::time_system
namespace s2e::gnss {
Sp3FileReader::Sp3FileReader(const std::string) {}
static int file_of(const Sp3FileReader* f) { return (int)f->header_.start_time_mjday_; }
time_system::DateTime Sp3FileReader::GetEpochData(const size_t e) const {
  if (e >= (size_t)kRec) { g_reads_behind++; return time_system::DateTime(0, 1, 0, 0, 0, 0.0); }
  return time_system::DateTime(2020, 1, (size_t)file_of(this), 0, 0, e * kStep);
}
Vector<3> Sp3FileReader::GetSatellitePosition_km(const size_t e, const size_t s) {
  Vector<3> p(0.0);
  if (e >= (size_t)kRec || s >= (size_t)kSat) { g_reads_behind++; return p; }
  for (int i = 0; i < 3; i++) p[i] = g_pos[s][i] + (file_of(this) * kRec + (int)e);
  return p;
}
double Sp3FileReader::GetSatelliteClockOffset(const size_t e, const size_t s) {
  if (e >= (size_t)kRec || s >= (size_t)kSat) { g_reads_behind++; return 0; }
  return g_clk[s] + 2 * (file_of(this) * kRec + (int)e);
}
size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime t) {
  double d = t.GetTimeWithFraction_s() - 1e6 - kDay * file_of(this);
  size_t n = 0;
  while (n + 1 < (size_t)kRec && d >= (n + 0.5) * kStep) n++;
  return n;
}
}  // namespace s2e::gnss
namespace s2e::math {
// the recorded calls return a value that depends on the data, so that the result shows which object was used
double Interpolation::CalcTrigonometric(const double x, const double period) const { g_x = x; g_period = period; return dependent_variables_[2]; }
double Interpolation::CalcPolynomial(const double x) const { g_x = x; return dependent_variables_[3]; }
bool Interpolation::PushAndPopData(const double x, const double y) {
  for (size_t i = 1; i < degree_; i++) { independent_variables_[i - 1] = independent_variables_[i]; dependent_variables_[i - 1] = dependent_variables_[i]; }
  independent_variables_[degree_ - 1] = x;
  dependent_variables_[degree_ - 1] = y;
  return true;
}
}  // namespace s2e::math
static Raw<EarthRotation> er;
static Raw<SimulationTime> stm;
static std::vector<Sp3FileReader> files() {
  std::vector<Sp3FileReader> f;
  for (int i = 0; i < kFiles; i++) {
    Sp3FileReader r("");
    r.header_.number_of_epoch_ = kRec; r.header_.number_of_satellites_ = kSat; r.header_.epoch_interval_s_ = kStep;
    r.header_.start_time_mjday_ = (size_t)i;
    r.header_.start_epoch_ = time_system::DateTime(2020, 1, (size_t)i, 0, 0, 0.0);
    f.push_back(r);
  }
  return f;
}
static void data() {
  for (int s = 0; s < kSat; s++) { for (int i = 0; i < 3; i++) g_pos[s][i] = sym_double("p", -3e4, 3e4); g_clk[s] = sym_double("c", -500, 500); }
}
// the window holds 9 consecutive records around t; first = first record of the file in which the simulation started
static void check_window(GnssSatellites& g, double t, int lowest) {
  const std::vector<double> T = g.orbit_[0].GetTimeList();
  double ref = g.reference_time_.GetTimeWithFraction_s() - 1e6;
  int n0 = (int)((ref + T[0]) / kStep + 0.5);
  sym_assert(T.size() == 9 && n0 >= lowest && n0 + 8 < kFiles * kRec, "window inside the data");
  for (int s = 0; s < kSat; s++) {
    const std::vector<double> Ts = g.orbit_[s].GetTimeList(), Tc = g.clock_[s].GetIndependentVariables(), C = g.clock_[s].GetDependentVariables();
    for (int k = 0; k < 9; k++) {
      sym_assert(Ts[k] + ref == (n0 + k) * kStep && Tc[k] == Ts[k], "nine consecutive records");
      for (int a = 0; a < 3; a++) sym_assert_close(g.orbit_[s].GetPositionDataList(a)[k], 1000.0 * (g_pos[s][a] + n0 + k), 0, "positions in metres");
      sym_assert_close(C[k], g_clk[s] + 2 * (n0 + k), 0, "clock offsets");
    }
  }
  bool at_start = n0 == lowest, at_end = n0 + 9 == kFiles * kRec;
  sym_assert(at_end || t <= ref + T[5], "window not behind the time");
  sym_assert(at_start || t >= ref + T[3], "window not ahead of the time");
  if (at_start && at_end) sym_end();
}
CHECK(window) {
  data();
  GnssSatellites g(*er.get(), true, false);
  double t = sym_double("t0", 0, 2 * kDay - 1);
  sym_assume(t < 2 * kDay - kStep);
  g.Initialize(files(), time_system::EpochTime(time_system::DateTime(2020, 1, 0, 0, 0, t)));
  int lowest = t < kDay ? 0 : kRec;
  check_window(g, t, lowest);
  stm->current_utc_.day = 0;
  for (int u = 0; u < 2; u++) {
    t += sym_double("dt", 0, 3 * kStep);
    if (t > 2 * kDay - kStep) break;
    stm->current_utc_.second = t;
    g.Update(*stm.get());
    check_window(g, t, lowest);
    sym_assert(g.current_epoch_time_.GetTimeWithFraction_s() == 1e6 + t, "current time");
  }
  sym_assert(g_reads_behind == 0, "no record behind the files");
  sym_reach("window");
}
CHECK(long_gap) {
  data();
  GnssSatellites g(*er.get(), true, false);
  double t = sym_double("t0", 0, kDay);
  g.Initialize(files(), time_system::EpochTime(time_system::DateTime(2020, 1, 0, 0, 0, t)));
  int lowest = t < kDay ? 0 : kRec;
  stm->current_utc_.day = 0;
  t = sym_double("t1", 0, 4 * kDay);
  stm->current_utc_.second = t;
  const double before = g.orbit_[0].GetTimeList()[0];
  g.Update(*stm.get());
  if (t < 2 * kDay && g.orbit_[0].GetTimeList()[0] > before) check_window(g, t, lowest);
  sym_assert(g_reads_behind == 0, "no record behind the files");
  stm->current_utc_.second = t + 1e5;
  g.Update(*stm.get());
  sym_assert(g_reads_behind == 0, "no record behind the files");
  sym_reach("gap");
}
CHECK(states) {
  data();
  GnssSatellites g(*er.get(), true, false);
  double t = sym_double("t0", 6 * kStep, 7 * kStep);
  g.Initialize(files(), time_system::EpochTime(time_system::DateTime(2020, 1, 0, 0, 0, t)));
  double dcm[3][3];
  er->dcm_j2000_to_ecef_ = math::Matrix<3, 3>(0.0);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) er->dcm_j2000_to_ecef_[i][j] = dcm[i][j] = sym_double("m", -1, 1);
  double ref = g.reference_time_.GetTimeWithFraction_s();
  sym_assert(g.GetNumberOfCalculatedSatellite() == (size_t)kSat, "number of satellites");
  size_t id = (size_t)sym_choose("id", 0, 3);
  const bool now = sym_choose("now", 0, 1);
  double d = sym_double("d", -1e5, 2e6), f = ref + d;
  uint64_t whole = 5000000;
  time_system::EpochTime at = now ? time_system::EpochTime(0, 0.0) : time_system::EpochTime(whole, f - (double)whole);
  double diff = now ? 1e6 + t - ref : d;
  g_x = g_period = -1;
  Vector<3> p = g.GetPosition_ecef_m(id, at);
  double xp = g_x;
  g_x = -1;
  double c = g.GetClock_s(id, at);
  if (id >= (size_t)kSat || diff < 0 || diff > 1e6) {
    for (int i = 0; i < 3; i++) sym_assert(p[i] == 0, "no position for unknown satellites and times");
    sym_assert(c == 0, "no clock for unknown satellites and times");
  } else {
    int n = (int)((ref - 1e6) / kStep + 0.5);
    for (int i = 0; i < 3; i++) sym_assert_close(p[i], 1000 * (g_pos[id][i] + n + 2), 1e-6, "position of this satellite");
    sym_assert_close(c, 1e-6 * (g_clk[id] + 2 * (n + 3)), 1e-15, "clock of this satellite in seconds");
    sym_assert_close(xp, diff, 1e-6, "requested time");
    sym_assert_close(g_x, diff, 1e-6, "requested time");
    sym_assert_close(g_period * 86400 * 1.003, 6.283185307179586, 1e-9, "orbital period");
  }
  Vector<3> e = g.GetPosition_eci_m(id), q = g.GetPosition_ecef_m(id);
  for (int i = 0; i < 3; i++) sym_assert_close(e[i], dcm[0][i] * q[0] + dcm[1][i] * q[1] + dcm[2][i] * q[2], 1e-6, "inertial position");
  sym_reach("states");
}
CHECK(without_data) {
  data();
  const int how = sym_choose("how", 0, 2);
  GnssSatellites g(*er.get(), how != 0, true);
  sym_assert(g.is_log_enabled_ == (how != 0), "logged only when calculated");
  double t = how == 1 ? sym_double("early", -1e5, -1e-3) : sym_double("late", 2 * kDay, 9 * kDay);
  if (how) g.Initialize(files(), time_system::EpochTime(time_system::DateTime(2020, 1, 0, 0, 0, t)));
  stm->current_utc_.second = sym_double("time", 0, 1e5);
  g.Update(*stm.get());
  sym_assert(g.GetNumberOfCalculatedSatellite() == 0, "no satellites without data");
  for (size_t i = 0; i < 2; i++) {
    Vector<3> p = g.GetPosition_ecef_m(i);
    for (int k = 0; k < 3; k++) sym_assert(p[k] == 0 && g.GetClock_s(i) == 0, "no position without data");
  }
  sym_reach("none");
}
