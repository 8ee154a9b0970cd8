// SRC: src/environment/global/simulation_time.cpp
// MODE: real
// BOUNDS: 9 updates; any step, start date and end time; update intervals of up to 4 steps for one of attitude, orbit, temperature, components and log, the others every step
// STUBS: calendar conversion (E02_calendar), sidereal time (M12), CSPICE ephemeris time
#include "open.hpp"
#include <environment/global/simulation_time.hpp>
using namespace s2e;
using environment::SimulationTime;
static double g_cal_jd, g_sid_jd, g_year_jd;
void invjday(double jd, int& y, int& mo, int& d, int& h, int& mi, double& s) { g_cal_jd = jd; y = 2020; mo = 3; d = 4; h = 5; mi = 6; s = 7.5; }
double gstime(double jd) { g_sid_jd = jd; return 0.25; }
void JdToDecyear(double jd, double* y) { g_year_jd = jd; *y = 2020.5; }
static const int N = 9;
struct Flags { bool a[5]; };
static Flags flags(SimulationTime& t) { return Flags{{t.GetAttitudePropagateFlag(), t.GetOrbitPropagateFlag(), t.GetThermalPropagateFlag(), t.GetCompoUpdateFlag(), t.GetState().log_output}}; }
// every process runs once per its interval, rounded up to whole steps
CHECK(flags_follow_their_intervals) {
  Raw<SimulationTime> t;
  double h = sym_double("step", 0.001, 10), iv = sym_double("interval", 0.001, 40), start = sym_double("start", 2450000, 2470000);
  int which = sym_choose("which", 0, 4);
  sym_assume(iv >= h);
  sym_assume(iv <= 4 * h);
  t->step_sec_ = h;
  t->end_sec_ = sym_double("end", 0, 100);
  t->simulation_speed_ = 0;
  t->start_jd_ = start;
  t->display_period_ = 3.0;
  t->attitude_update_interval_sec_ = which == 0 ? iv : h;
  t->orbit_update_interval_sec_ = which == 1 ? iv : h;
  t->thermal_update_interval_sec_ = which == 2 ? iv : h;
  t->component_update_interval_sec_ = which == 3 ? iv : h;
  t->log_output_interval_sec_ = which == 4 ? iv : h;
  t->InitializeState();
  t->SetParameters();
  sym_assert(t->GetElapsedTime_s() == 0, "starts at zero");
  sym_assert(t->GetState().log_output && !t->GetState().finish, "the initial state is logged");
  int m = iv <= h ? 1 : iv <= 2 * h ? 2 : iv <= 3 * h ? 3 : 4;
  int last = which == 4 ? 0 : -1;
  for (int k = 1; k <= N; k++) {
    t->UpdateTime();
    Flags f = flags(*t);
    for (int i = 0; i < 5; i++)
      if (i != which) sym_assert(f.a[i], "intervals of one step");
    if (f.a[which]) {
      if (last >= 0) sym_assert(k - last == m, "one run per interval");
      last = k;
    } else {
      sym_assert(k - (last < 0 ? 0 : last) < m, "no interval is missed");
    }
    sym_assert(t->GetState().running, "running");
    sym_assert_close(t->GetElapsedTime_s(), k * h, 1e-9, "elapsed time");
    sym_assert_close((t->GetCurrentTime_jd() - start) * 86400, k * h, 1e-4, "date");
    sym_assert(t->GetState().disp_output == (k % 3 == 0), "progress display");
    sym_assert(g_cal_jd == t->GetCurrentTime_jd() && g_sid_jd == t->GetCurrentTime_jd() && g_year_jd == t->GetCurrentTime_jd(), "calendar, sidereal time and year of the current date");
    environment::UTC u = t->GetCurrentUtc();
    sym_assert(u.year == 2020 && u.month == 3 && u.day == 4 && u.hour == 5 && u.minute == 6 && u.second == 7.5, "calendar date");
    sym_assert(t->GetCurrentSiderealTime() == 0.25 && t->GetCurrentDecimalYear() == 2020.5, "sidereal time and year");
    if (t->GetElapsedTime_s() > t->end_sec_) {
      sym_assert(t->GetState().finish, "finished behind the end time");
      return;
    }
    sym_assert(!t->GetState().finish, "not finished before the end time");
    t->start_ephemeris_time_ = 1000.0;
    sym_assert_close(t->GetCurrentEphemerisTime(), 1000.0 + k * h, 1e-9, "ephemeris time");
  }
}
