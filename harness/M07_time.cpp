// SRC: src/math_physics/time_system/date_time_format.cpp src/math_physics/time_system/epoch_time.cpp src/math_physics/time_system/gps_time.cpp
// MODE: bits
// BOUNDS: every second from 1970-01-01 to 2100-02-28 (the range in which the four-year leap cycle is the calendar), fractions in [0, 0.999999] (arbitrary doubles for round trips, multiples of 1/1024 for exact arithmetic), every valid calendar field combination, GPS weeks up to 6000
#include "util.hpp"
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>
using namespace s2e;
using time_system::DateTime;
using time_system::EpochTime;
using time_system::GpsTime;
typedef unsigned long u64;
// civil calendar, independent formula (days since 1970-01-01)
static long days_from_civil(long y, long m, long d) {
  y -= m <= 2;
  long era = y / 400, yoe = y - era * 400;
  long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
static const u64 TMAX = 4107455999ul;  // 2100-02-27 23:59:59
static int mlen(long y, int m) { static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return L[m - 1] + (m == 2 && y % 4 == 0); }

CHECK(epoch_to_date) {
  u64 t = sym_int("t", 0, TMAX);
  DateTime d(EpochTime(t, 0.0));
  long y = d.GetYear(), m = d.GetMonth(), dd = d.GetDay(), h = d.GetHour(), mi = d.GetMinute();
  sym_assert(m >= 1 && m <= 12 && dd >= 1 && h >= 0 && h < 24 && mi >= 0 && mi < 60, "fields are in range");
  sym_assert(dd <= mlen(y, m), "day exists in that month");
  double s = d.GetSecond();
  sym_assert(s >= 0 && s < 60, "second is in range");
  sym_assert((u64)(days_from_civil(y, m, dd) * 86400 + h * 3600 + mi * 60 + (long)s) == t, "the date denotes the same instant in the civil calendar");
}
// a valid calendar date (1970..2100-02)
static DateTime any_date(long& y, int& m, long& d, long& h, long& mi, double& s, long& si) {
  y = sym_int("year", 1970, 2099);
  m = (int)sym_choose("month", 1, 12);
  d = sym_int("day", 1, 31);
  sym_assume(d <= mlen(y, m));
  h = sym_int("hour", 0, 23);
  mi = sym_int("minute", 0, 59);
  si = sym_int("second", 0, 59);
  long k = sym_int("fraction_1024", 0, 1023);
  s = (double)si + (double)k / 1024.0;
  return DateTime(y, m, d, h, mi, s);
}
CHECK(date_to_epoch) {
  long y, d, h, mi, si; int m; double s;
  DateTime dt = any_date(y, m, d, h, mi, s, si);
  sym_assert((long)dt.GetYear() == y && (int)dt.GetMonth() == m && (long)dt.GetDay() == d && (long)dt.GetHour() == h && (long)dt.GetMinute() == mi && dt.GetSecond() == s, "fields are kept");
  EpochTime e(dt);
  sym_assert(e.GetTime_s() == (u64)(days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + si), "seconds since 1970 in the civil calendar");
  sym_assert(e.GetFraction_s() == s - (double)si, "fraction");
}
CHECK(fraction_round_trip) {
  u64 t = sym_int("t", 0, 1461 * 86400 - 1);
  long k = sym_int("k", 0, 1023);
  EpochTime e(t, (double)k / 1024.0);
  DateTime d(e);
  EpochTime b(d);
  sym_assert(b == e, "epoch -> date -> epoch");
  sym_assert(e.GetTimeWithFraction_s() == (double)t + (double)k / 1024.0, "time with fraction");
}
static EpochTime any_epoch(const char* n, u64& t, long& k, long tmax = 4000000000l) {
  t = sym_int((std::string(n) + "_s").c_str(), 0, tmax);
  k = sym_int((std::string(n) + "_1024").c_str(), 0, 1023);
  return EpochTime(t, (double)k / 1024.0);
}
CHECK(order) {
  u64 t1, t2; long k1, k2;
  EpochTime a = any_epoch("a", t1, k1), b = any_epoch("b", t2, k2);
  long x = (long)t1 * 1024 + k1, y = (long)t2 * 1024 + k2;
  sym_assert((a == b) == (x == y), "==");
  sym_assert((a != b) == (x != y), "!=");
  sym_assert((a < b) == (x < y), "<");
  sym_assert((a > b) == (x > y), ">");
  sym_assert((a <= b) == (x <= y), "<=");
  sym_assert((a >= b) == (x >= y), ">=");
}
CHECK(sum_difference) {
  u64 t1, t2; long k1, k2;
  EpochTime a = any_epoch("a", t1, k1), b = any_epoch("b", t2, k2);
  long x = (long)t1 * 1024 + k1, y = (long)t2 * 1024 + k2;
  EpochTime s = a + b;
  sym_assert(s.GetFraction_s() >= 0 && s.GetFraction_s() < 1, "fraction of the sum stays below one second");
  sym_assert(s.GetTime_s() == (u64)((x + y) / 1024), "sum, whole seconds");
  sym_assert(s.GetFraction_s() == (double)((x + y) % 1024) / 1024.0, "sum, fraction");
  sym_assume(x >= y);
  EpochTime d = a - b;
  sym_assert(d.GetTime_s() == (u64)((x - y) / 1024), "difference, whole seconds");
  sym_assert(d.GetFraction_s() == (double)((x - y) % 1024) / 1024.0, "difference, fraction");
}
static const u64 GPS0 = 315964800ul;  // 1980-01-06
CHECK(gps_from_epoch) {
  u64 t; long k;
  t = sym_int("t_s", GPS0, TMAX);
  k = sym_int("t_1024", 0, 1023);
  EpochTime e(t, (double)k / 1024.0);
  sym_assume(t - GPS0 < 7 * 86400 * 6000ul);
  GpsTime g(e);
  u64 w = g.GetWeek();
  double tow = g.GetElapsedTimeFromWeek_s();
  sym_assert(tow >= 0 && tow < 604800.0, "time of week is within the week");
  sym_assert(w == (t - GPS0) / 604800, "week number");
  sym_assert(tow == (double)((t - GPS0) % 604800) + (double)k / 1024.0, "time of week");
  sym_assert(g.GetEpochTime() == e, "epoch is kept");
}
CHECK(gps_from_week) {
  u64 w = sym_int("week", 0, 6000), s = sym_int("tow_s", 0, 604799);
  long k = sym_int("tow_1024", 0, 1023);
  sym_assume(w * 604800 + s + GPS0 <= TMAX);
  GpsTime g(w, (double)s + (double)k / 1024.0);
  EpochTime e = g.GetEpochTime();
  sym_assert(e.GetTime_s() == GPS0 + w * 604800 + s, "week and time of week denote that instant");
  sym_assert(e.GetFraction_s() == (double)k / 1024.0, "fraction of the instant");
  sym_reach("gps");
}
// GPS time runs 18 s ahead of UTC; date expression agrees with the instant
CHECK(gps_utc) {
  u64 t = sym_int("t_s", GPS0 + 100, GPS0 + 2 * 1461 * 86400l);
  GpsTime g(EpochTime(t, 0.25));
  DateTime u = g.GetDateTimeAsUtc(), d = g.GetDateTime();
  EpochTime ue(u), de(d);
  sym_assert(de.GetTime_s() == t && de.GetFraction_s() == 0.25, "date expression of the instant");
  sym_assert(ue.GetTime_s() == t - 18 && ue.GetFraction_s() == 0.25, "UTC is 18 s behind");
}
CHECK(string_form) {
  DateTime d("2020/02/29 12:34:56.75");
  sym_assert(d.GetYear() == 2020 && d.GetMonth() == 2 && d.GetDay() == 29 && d.GetHour() == 12 && d.GetMinute() == 34 && d.GetSecond() == 56.75, "parsed fields");
  EpochTime e(d);
  sym_assert(e.GetTime_s() == 1582979696ul, "parsed instant");
}
