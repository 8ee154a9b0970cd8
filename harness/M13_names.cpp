// SRC: src/math_physics/gnss/gnss_satellite_number.cpp
// MODE: bits
// BOUNDS: every satellite of every constellation; file names of eight days; every day of the years 1901 to 2099
#include "util.hpp"
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <math_physics/gnss/igs_product_name_handling.hpp>
using namespace s2e::gnss;
static const char kC[7] = "GRECJI";
static int count(int c) { switch (kC[c]) { case 'G': return kNumberOfGpsSatellite; case 'R': return kNumberOfGlonassSatellite; case 'E': return kNumberOfGalileoSatellite; case 'C': return kNumberOfBeidouSatellite; case 'J': return kNumberOfQzssSatellite; } return kNumberOfNavicSatellite; }
static int begin(int c) { switch (kC[c]) { case 'G': return kGpsIndexBegin; case 'R': return kGlonassIndexBegin; case 'E': return kGalileoIndexBegin; case 'C': return kBeidouIndexBegin; case 'J': return kQzssIndexBegin; } return kNavicIndexBegin; }

// every satellite has one index of its own, and the index gives back its number
CHECK(satellite_index) {
  int c = (int)sym_choose("constellation", 0, 5), n = (int)sym_choose("satellite", 1, 62);
  sym_assume(n <= count(c));
  std::string id = std::string(1, kC[c]) + (n < 10 ? "0" : "") + std::to_string(n);
  size_t i = ConvertGnssSatelliteNumberToIndex(id);
  sym_assert(i == (size_t)(begin(c) + n - 1) && i < kTotalNumberOfGnssSatellite, "index of the satellite");
  sym_assert(ConvertIndexToGnssSatelliteNumber(i) == id, "number of the index");
  int other = (int)(c == 0 ? 0 : begin(c) - 1);
  sym_assert(c == 0 || (int)i > other, "constellations do not overlap");
}
CHECK(satellite_ranges) {
  int total = 0;
  for (int c = 0; c < 6; c++) { sym_assert(begin(c) == total, "constellations follow each other"); total += count(c); }
  sym_assert((int)kTotalNumberOfGnssSatellite == total, "number of satellites");
}
CHECK(no_satellite) {
  int k = (int)sym_choose("letter", 32, 126);
  for (int c = 0; c < 6; c++) sym_assume(k != kC[c]);
  sym_assert(ConvertGnssSatelliteNumberToIndex(std::string(1, (char)k) + "01") == UINT32_MAX, "no index for other systems");
  int beyond = (int)sym_choose("beyond", 0, 3);
  sym_assert(ConvertIndexToGnssSatelliteNumber(kTotalNumberOfGnssSatellite + beyond) == "err", "no number beyond the last index");
}
static bool leap(int64_t y) { return y % 4 == 0; }
CHECK(year_doy) {
  int64_t y = sym_int("year", 1901, 2099), d = sym_int("day of year", 1, 366);
  sym_assume(d <= (leap(y) ? 366 : 365));
  size_t v = MergeYearDoy((size_t)y, (size_t)d);
  sym_assert((int64_t)v == y * 1000 + d && (int64_t)PerseYearFromYearDoy(v) == y && (int64_t)PerseDoyFromYearDoy(v) == d, "year and day of year");
  size_t w = IncrementYearDoy(v);
  int64_t ny = d == (leap(y) ? 366 : 365) ? y + 1 : y, nd = ny == y ? d + 1 : 1;
  sym_assert((int64_t)w == ny * 1000 + nd, "the next day");
  sym_reach("day");
}
CHECK(product_name) {
  static const int kDays[8] = {1980001, 1999365, 2000001, 2000366, 2009099, 2024010, 2024100, 2099365};
  int64_t v = kDays[sym_choose("day", 0, 7)];
  std::string n = GetOrbitClockFinalFileName("IGS0OPSFIN", (size_t)v), m = GetOrbitClockFinalFileName("COD0MGXFIN", (size_t)v, "05M", "CLK.CLK");
  sym_assert(n == "IGS0OPSFIN_" + std::to_string(v) + "0000_01D_15M_ORB.SP3", "orbit file of the day");
  sym_assert(m == "COD0MGXFIN_" + std::to_string(v) + "0000_01D_05M_CLK.CLK", "clock file of the day");
}
