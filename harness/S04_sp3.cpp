// SRC: src/math_physics/gnss/sp3_file_reader.cpp
// MODE: real
// OPT: cosim=0
// BOUNDS: one or two epochs, one, two or eighteen satellites, position and velocity files, with and without correlation records; any numbers in the fields
#include "util.hpp"
#include <math_physics/gnss/sp3_file_reader.hpp>
using namespace s2e;
using namespace s2e::gnss;
static std::string pad(const std::string& s, size_t n) { return s.size() < n ? s + std::string(n - s.size(), ' ') : s; }
static std::string satid(int i) { return std::string(i < 10 ? "G0" : "R0") + char('0' + i % 10); }
static std::string fld(int v) { std::string s = std::to_string(v); return std::string(3 - s.size(), ' ') + s; }
struct Rec {
  double p[3], c, v[3], cr;
  double sp[3], sc, sv[3], scr;
  int64_t ep[10], ev[10];
};
static double g_tol = sym_symbolic() ? 1e-9 : 0.51;  // numbers are rounded to the width of the field outside the symbolic run
static Rec R[18][2];
static const int kW[10] = {4, 4, 4, 7, 8, 8, 8, 8, 8, 8};
static std::string corr(const char* tag, int64_t* e, bool few) {
  std::string l = std::string(tag) + "  ";
  for (int i = 0; i < 10; i++) { e[i] = few ? i + 3 : sym_int("correlation", i < 3 ? 0 : -999, i < 3 ? 9999 : 9999999); l += sym_texti(e[i], kW[i]) + " "; }
  return l + "\n";
}
static std::string trim(std::string l) { while (!l.empty() && l.back() == ' ') l.pop_back(); return l; }
static int g_tail;  // 0: full lines, 1: blank columns at the end omitted, 2: no deviations and flags, 3: deviations left blank
static std::string rec(char k, int s, const double* p, double c, const double* sp, double sc) {
  std::string l = std::string(1, k) + satid(s);
  for (int i = 0; i < 3; i++) l += sym_text(p[i], 14);
  l += sym_text(c, 14);
  if (g_tail == 2) return l;
  if (g_tail == 3) return l + std::string(13, ' ');
  for (int i = 0; i < 3; i++) l += " " + sym_text(sp[i], 2);
  return l + " " + sym_text(sc, 3);
}
static void fill(Rec& r, bool few) {
  for (int i = 0; i < 3; i++) { r.p[i] = few ? 1.5 + i : sym_double("p", -99999, 99999); r.v[i] = few ? 4.5 - i : sym_double("v", -99999, 99999); r.sp[i] = few ? i : sym_double("sp", 0, 99); r.sv[i] = few ? i + 3 : sym_double("sv", 0, 99); }
  r.c = few ? 7.5 : sym_double("c", -99999, 99999); r.cr = few ? 8.5 : sym_double("cr", -99999, 99999);
  r.sc = few ? 1 : sym_double("sc", 0, 999); r.scr = few ? 2 : sym_double("scr", 0, 999);
}
static std::string header(int epochs, int n, bool velocity, double interval, int comments) {
  std::string t = std::string("#d") + (velocity ? "V" : "P") + "2013  4  3 12  4  1.23456789 " + std::string(4, ' ') + fld(epochs) + " ORBIT WGS84 BCT MGEX\n";
  t += "## 1734 259200.00000000 " + sym_text(interval, 14) + " 56385 0.1234567891234\n";
  for (int b = 0; b < n; b += 17) { t += b ? "+        " : "+  " + fld(n) + "   "; for (int i = b; i < b + 17; i++) t += i < n ? satid(i) : "  0"; t += "\n"; }
  for (int b = 0; b < n; b += 17) { t += "++       "; for (int i = b; i < b + 17; i++) t += i < n ? fld(i + 2) : "  0"; t += "\n"; }
  t += "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n";
  t += "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n";
  t += "%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n";
  for (int i = 0; i < comments; i++) t += "/* comment\n";
  return t;
}
static void run(int epochs, int n, bool velocity, bool correlated, bool few, int comments) {
  double interval = sym_double("interval", 1, 9000);
  std::string t = header(epochs, n, velocity, interval, comments);
  g_tail = few ? 0 : (int)sym_choose("end of lines", 0, 3);
  int flags = few || g_tail == 2 ? 0 : (int)sym_choose("flags", 0, 15);
  for (int e = 0; e < epochs; e++) {
    t += std::string("*  2013  4  3 12 ") + char('1' + e) + std::string("4  1.50000000 \n");
    for (int s = 0; s < n; s++) {
      Rec& r = R[s][e];
      fill(r, few && (s < n - 1));
      int f = (s + e) & 1 ? 0 : flags;
      std::string l = std::string(" ") + (f & 1 ? "E" : " ") + (f & 2 ? "P" : " ") + "  " + (f & 4 ? "M" : " ") + (f & 8 ? "P" : " ");
      l = rec('P', s, r.p, r.c, r.sp, r.sc) + (g_tail == 2 ? "" : l);
      t += (g_tail == 1 ? trim(l) : l) + "\n";
      if (correlated && !(s & 1)) t += corr("EP", r.ep, few);
      if (velocity) { t += rec('V', s, r.v, r.cr, r.sv, r.scr) + "\n"; if (correlated && !(s & 1)) t += corr("EV", r.ev, few); }
    }
  }
  t += "EOF\n";
  Sp3FileReader f(sym_file("a.sp3", t));
  Sp3Header h = f.GetHeader();
  sym_assert((int)f.GetNumberOfEpoch() == epochs && (int)f.GetNumberOfSatellites() == n && (int)h.satellite_ids_.size() == n && (int)h.satellite_accuracy_.size() == n && (int)f.epoch_.size() == epochs, "epochs and satellites of the file");
  for (int s = 0; s < n; s++) sym_assert(h.satellite_ids_[s] == satid(s) && h.satellite_accuracy_[s] == s + 2, "satellite id and accuracy");
  sym_assert(h.mode_ == (velocity ? Sp3Mode::kVelocity : Sp3Mode::kPosition), "mode of the file");
  sym_assert(h.orbit_type_ == Sp3OrbitType::kBroadcast && h.agency_name_ == "MGEX" && h.coordinate_system_ == "WGS84" && h.used_data_ == "ORBIT" && h.time_system_ == "GPS" && h.file_type_ == "M ", "header text");
  sym_assert_close(h.epoch_interval_s_, interval, 1e-6, "epoch interval");
  sym_assert(h.base_number_position_ == 1.25 && h.base_number_clock_ == 1.025 && h.start_time_mjday_ == 56385, "header numbers");
  for (int e = 0; e < epochs; e++) {
    time_system::DateTime d = f.GetEpochData(e);
    sym_assert(d.GetYear() == 2013 && d.GetMonth() == 4 && d.GetDay() == 3 && d.GetHour() == 12 && (int)d.GetMinute() == 14 + 10 * e && d.GetSecond() == 1.5, "epoch");
    for (int s = 0; s < n; s++) {
      Rec& r = R[s][e];
      Sp3PositionClock p = f.GetPositionClock(e, s);
      for (int i = 0; i < 3; i++) { sym_assert_close(p.position_km_[i], r.p[i], g_tol, "position"); sym_assert_close(p.position_standard_deviation_[i], (g_tail > 1 ? 0 : r.sp[i]), g_tol, "position deviation"); }
      sym_assert_close(p.clock_us_, r.c, g_tol, "clock");
      sym_assert_close(p.clock_standard_deviation_, (g_tail > 1 ? 0 : r.sc), g_tol, "clock deviation");
      int fl = (s + e) & 1 ? 0 : flags;
      sym_assert(p.satellite_id_ == satid(s) && p.clock_event_flag_ == ((fl & 1) != 0) && p.clock_prediction_flag_ == ((fl & 2) != 0) && p.maneuver_flag_ == ((fl & 4) != 0) && p.orbit_prediction_flag_ == ((fl & 8) != 0), "flags");
      if (velocity) {
        sym_assert((int)f.velocity_clock_rate_[s].size() == epochs, "velocity of every epoch");
        Sp3VelocityClockRate v = f.velocity_clock_rate_[s][e];
        for (int i = 0; i < 3; i++) { sym_assert_close(v.velocity_dm_s_[i], r.v[i], g_tol, "velocity"); sym_assert_close(v.velocity_standard_deviation_[i], (g_tail > 1 ? 0 : r.sv[i]), g_tol, "velocity deviation"); }
        sym_assert_close(v.clock_rate_, r.cr, g_tol, "clock rate");
        sym_assert_close(v.clock_rate_standard_deviation_, (g_tail > 1 ? 0 : r.scr), g_tol, "clock rate deviation");
      }
      bool c = correlated && !(s & 1);
      sym_assert((int)f.position_clock_correlation_[s].size() == (c ? epochs : 0) && (int)f.velocity_clock_rate_correlation_[s].size() == (c && velocity ? epochs : 0), "correlation records");
      if (c) {
        Sp3PositionClockCorrelation q = f.position_clock_correlation_[s][e];
        int got[10] = {q.position_x_standard_deviation_mm_, q.position_y_standard_deviation_mm_, q.position_z_standard_deviation_mm_, q.clock_standard_deviation_ps_, q.x_y_correlation_, q.x_z_correlation_, q.x_clock_correlation_, q.y_z_correlation_, q.y_clock_correlation_, q.z_clock_correlation_};
        for (int i = 0; i < 10; i++) sym_assert(got[i] == r.ep[i], "position correlation");
        if (velocity) {
          Sp3VelocityClockRateCorrelation w = f.velocity_clock_rate_correlation_[s][e];
          int gv[10] = {w.velocity_x_standard_deviation_, w.velocity_y_standard_deviation_, w.velocity_z_standard_deviation_, w.clock_rate_standard_deviation_, w.x_y_correlation_, w.x_z_correlation_, w.x_clock_correlation_, w.y_z_correlation_, w.y_clock_correlation_, w.z_clock_correlation_};
          for (int i = 0; i < 10; i++) sym_assert(gv[i] == r.ev[i], "velocity correlation");
        }
      }
    }
  }
  // outside the file: no satellite data
  Sp3PositionClock z = f.GetPositionClock(epochs, 0), y = f.GetPositionClock(0, n);
  sym_assert(z.satellite_id_.empty() && y.satellite_id_.empty() && z.clock_us_ == SP3_BAD_CLOCK_VALUE && y.clock_us_ == SP3_BAD_CLOCK_VALUE, "no data outside the file");
}
CHECK(sp3) {
  int n = (int)sym_choose("satellites", 1, 2), e = (int)sym_choose("epochs", 1, 2);
  bool v = sym_choose("velocity", 0, 1);
  run(e, n, v, n > 1 ? sym_choose("correlated", 0, 1) : v, false, 2);
}
CHECK(sp3_many) { run(2, 18, sym_choose("velocity", 0, 1), sym_choose("correlated", 0, 1), true, 4); }
