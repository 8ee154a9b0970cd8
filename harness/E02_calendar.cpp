// SRC: src/environment/global/simulation_time.cpp src/math_physics/orbit/sgp4/sgp4ext.cpp
// MODE: real
// BOUNDS: half a minute of every day of a leap and a common year, both sides of every month of four years, every second of one day (thorough: further years)
// OPT: max_paths=6000
// STUBS: sidereal time (M12), CSPICE
#include "open.hpp"
#include <environment/global/simulation_time.hpp>
using namespace s2e;
using environment::SimulationTime;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
// Julian date of 1 January
static double new_year(int y) {
  double d = 2440587.5;  // 1970
  for (int i = 1970; i < y; i++) d += leap(i) ? 366 : 365;
  return d;
}
// the instant base seconds after the start of the year plus an arbitrary number of seconds
static void date(int y, double base, double lo, double hi) {
  Raw<SimulationTime> t;
  int len = leap(y) ? 366 : 365;
  double x = base + sym_double("seconds", lo, hi);
  sym_assume(x >= 0);
  sym_assume(x < len * 86400.0 - 1e-4);
  double jd = new_year(y) + x / 86400.0;
  t->ConvJDtoCalendarDay(jd);
  environment::UTC u = t->current_utc_;
  int ml[12] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  sym_assert(u.year == (unsigned)y, "year");
  sym_assert(u.month >= 1 && u.month <= 12, "month");
  sym_assert(u.hour <= 23 && u.minute <= 59, "hour and minute");
  sym_assert(u.second >= 0 && u.second < 60, "second");
  double s = 0;
  for (int m = 0; m < 12; m++)
    if (m + 1 < (int)u.month) s += ml[m];
  for (int m = 0; m < 12; m++)
    if (m + 1 == (int)u.month) sym_assert(u.day >= 1 && (int)u.day <= ml[m], "day of the month");
  sym_assert_close((((s + u.day - 1) * 24 + u.hour) * 60 + u.minute) * 60 + u.second, x, 1e-4, "same instant");
}
static void days(int y) {
  int d = sym_choose("day", 0, 365);
  if (d > 364 && !leap(y)) { sym_reach("no such day"); return; }
  date(y, d * 86400.0, 0, 30);
}
CHECK(days_of_2020) { days(2020); }
CHECK(days_of_2022) { days(2022); }
// both sides of every month of a cycle of leap years
CHECK(months) {
  int y = sym_choose("year", 2000, 2003), m = sym_choose("month", 0, 11);
  double d = 0;
  for (int i = 0; i < m; i++) d += i == 1 ? (leap(y) ? 29 : 28) : (i == 3 || i == 5 || i == 8 || i == 10) ? 30 : 31;
  date(y, d * 86400.0, -45, 45);
}
// every minute of a day, seconds around it
CHECK(minutes_of_a_day) {
  int h = sym_choose("hour", 0, 23), q = sym_choose("quarter", 0, 3), m = sym_choose("minute", 0, 14);
  date(2021, 200 * 86400.0 + h * 3600.0 + q * 900.0 + m * 60.0, -2, 58);
}
THOROUGH(years) { date(sym_choose("year", 1970, 2059), sym_choose("half", 0, 1) * 366 * 86400.0, -45, 45); }
THOROUGH(other_days) { days(sym_choose("year", 2023, 2026)); }
