// SRC: src/math_physics/gnss/antex_file_reader.cpp
// SRC: src/math_physics/gnss/gnss_satellite_number.cpp
// SRC: src/math_physics/time_system/date_time_format.cpp
// MODE: real
// BOUNDS: up to three antennas of two satellites and a receiver, one or two frequencies, grids of two to eighteen angles; any numbers; files cut after any line
#include "util.hpp"
#include <math_physics/gnss/antex_file_reader.hpp>
#include <vector>
using namespace s2e::gnss;
static double g_tol = sym_symbolic() ? 1e-9 : 0.51;
static std::string line(std::string s, const char* type) {
  return s + std::string(s.size() < 60 ? 60 - s.size() : 0, ' ') + type + "\n";
}
static double num(const char* n, int i) { return i % 7 == 3 ? sym_double(n, -999, 9999) : i * 0.25 - 1; }
struct Freq { double off[3]; std::vector<double> pcv; };
struct Ant { std::string sat; std::vector<Freq> f; int from[5], to[5]; double from_s, to_s, z1, z2, dz; bool until; };
static int g_id;
// numbers of a line of fixed columns, wide enough that their text keeps its value outside the symbolic run
static std::string antenna(Ant& a, const std::string& sat, int freqs, int grid, bool until) {
  a.sat = sat;
  a.until = until;
  a.z1 = 0; a.dz = grid == 18 ? 1 : 5; a.z2 = a.dz * (grid - 1);
  std::string t = line("", "START OF ANTENNA"), type = "BLOCK TYPE " + std::to_string(g_id++);
  t += line(type + std::string(20 - type.size(), ' ') + sat + std::string(17, ' ') + "G032      1992-079A", "TYPE / SERIAL NO");
  t += line(std::string(45, ' ') + "0    29-JAN-17", "METH / BY / # / DATE") + line("     0.0", "DAZI");
  t += line("     0.0  " + std::to_string((int)a.z2) + ".0   " + std::to_string((int)a.dz) + ".0", "ZEN1 / ZEN2 / DZEN");
  t += line("     " + std::to_string(freqs), "# OF FREQUENCIES");
  for (int k = 0; k < (until ? 2 : 1); k++) {
    int* d = k ? a.to : a.from;
    d[0] = 1992 + k * 16; d[1] = 11 - k; d[2] = 22 - 9 * k; d[3] = 3 + k; d[4] = 10 + 49 * k;
    (k ? a.to_s : a.from_s) = 1.25 + 30 * k;
    t += line("  " + std::to_string(d[0]) + "    " + std::to_string(d[1]) + "    " + std::to_string(d[2]) + "     " + std::to_string(d[3]) + "    " + std::to_string(d[4]) + "   " + (k ? "31.2500000" : " 1.2500000"), k ? "VALID UNTIL" : "VALID FROM");
  }
  for (int f = 0; f < freqs; f++) {
    std::string id = std::string("   ") + sat[0] + "0" + char('1' + f);
    Freq q;
    t += line(id, "START OF FREQUENCY");
    std::string o;
    for (int i = 0; i < 3; i++) o += sym_text(q.off[i] = sym_double("offset", -999, 9999), 20);
    t += o + "NORTH / EAST / UP\n";
    t += "   NOAZI";
    for (int i = 0; i < grid; i++) { double v = num("variation", i + f); q.pcv.push_back(v); t += sym_text(v, 8); }
    t += "\n" + line(id, "END OF FREQUENCY");
    a.f.push_back(q);
  }
  return t + line("", "END OF ANTENNA");
}
static std::string receiver() {
  return line("", "START OF ANTENNA") + line("AERAT1675_120   SPKE", "TYPE / SERIAL NO") + line("     0.0  90.0   5.0", "ZEN1 / ZEN2 / DZEN") + line("   G01", "START OF FREQUENCY") + line("      1.00      2.00     33.00", "NORTH / EAST / UP") +
         line("   G01", "END OF FREQUENCY") + line("", "END OF ANTENNA");
}
static void same(const AntexSatelliteData& d, const Ant& a) {
  sym_assert(d.GetSerialNumber().substr(0, 3) == a.sat, "satellite of the antenna");
  sym_assert((int)d.GetNumberOfFrequency() == (int)a.f.size(), "number of frequencies");
  s2e::time_system::DateTime w(a.from[0], a.from[1], a.from[2], a.from[3], a.from[4], a.from_s);
  sym_assert(d.GetValidStartTime().GetAsString() == w.GetAsString(), "start of validity");
  if (a.until) { s2e::time_system::DateTime u(a.to[0], a.to[1], a.to[2], a.to[3], a.to[4], a.to_s); sym_assert(d.GetValidEndTime().GetAsString() == u.GetAsString(), "end of validity"); }
  for (size_t f = 0; f < a.f.size(); f++) {
    AntexPhaseCenterData p = d.GetPhaseCenterData(f);
    sym_assert(p.GetFrequencyName() == std::string(1, a.sat[0]) + "0" + char('1' + f), "name of the frequency");
    for (int i = 0; i < 3; i++) sym_assert_close(p.GetPhaseCenterOffset_mm()[i], a.f[f].off[i], 1e-6, "offset of the phase centre");
    AntexGridDefinition g = p.GetGridInformation();
    sym_assert(g.GetZenithStartAngle_deg() == a.z1 && g.GetZenithEndAngle_deg() == a.z2 && g.GetZenithStepAngle_deg() == a.dz && g.GetNumberOfZenithGrid() == a.f[f].pcv.size(), "zenith angles");
    auto m = p.GetPhaseCenterVariationMatrix_mm();
    sym_assert(m.size() == 1 && m[0].size() == a.f[f].pcv.size(), "size of the variation");
    for (size_t i = 0; i < a.f[f].pcv.size(); i++) sym_assert_close(m[0][i], a.f[f].pcv[i], g_tol, "variation of the phase centre");
  }
}
static std::string heading() {
  return line("     1.4            M", "ANTEX VERSION / SYST") + line("A", "PCV TYPE / REFANT") + line("START OF ANTENNA in a comment", "COMMENT") + line("", "COMMENT") + line("", "END OF HEADER") + "short line\n\n";
}
// every antenna of every satellite arrives once, in the order of the file; receivers are left out
CHECK(antennas) {
  int freqs = (int)sym_choose("frequencies", 1, 2), grid = sym_choose("grid", 0, 1) ? 18 : 2 + (int)sym_choose("angles", 0, 3), order = (int)sym_choose("order", 0, 2);
  bool until = sym_choose("until", 0, 1);
  Ant a, b, c;
  std::string t = heading(), x = antenna(a, "G05", freqs, grid, true), y = antenna(b, "R02", 1, 2, until), z = antenna(c, "G05", 2, grid, false), r = receiver();
  t += order == 0 ? x + y + r + z : order == 1 ? r + x + z + y : y + x + r + z;
  AntexFileReader f(sym_file("igs.atx", t));
  sym_assert(f.GetFileReadSuccessFlag() && f.GetNumberOfSatelliteData() == 2, "satellites of the file");
  auto g = f.GetAntexSatelliteData(4), h = f.GetAntexSatelliteData(32 + 1);
  sym_assert(g.size() == 2 && h.size() == 1, "antennas of each satellite");
  same(g[0], a);
  same(g[1], c);
  same(h[0], b);
  sym_assert(g[0].GetAntennaType().substr(0, 12) != g[1].GetAntennaType().substr(0, 12), "types of the antennas");
}
CHECK(missing) {
  AntexFileReader f("/nonexistent/igs.atx");
  sym_assert(!f.GetFileReadSuccessFlag() && f.GetNumberOfSatelliteData() == 0, "no file, no antennas");
}
// a file that ends early is read up to its end
CHECK(cut) {
  Ant a, b;
  std::string t = heading() + antenna(a, "E01", 1, 3, true) + antenna(b, "E02", 1, 3, false);
  int lines = (int)sym_choose("lines", 0, 34);
  size_t e = 0;
  for (int i = 0; i < lines && e != std::string::npos; i++) { e = t.find('\n', e); if (e != std::string::npos) e++; }
  std::string u = e == std::string::npos ? t : t.substr(0, e);
  AntexFileReader f(sym_file("cut.atx", u));
  sym_assert(f.GetFileReadSuccessFlag() && f.GetNumberOfSatelliteData() <= 2, "reading ends");
  if (e == std::string::npos || e == t.size()) { sym_assert(f.GetNumberOfSatelliteData() == 2, "complete file"); same(f.GetAntexSatelliteData(58)[0], a); same(f.GetAntexSatelliteData(59)[0], b); }
}
// the nearest angle of a grid
CHECK(grid) {
  int n = (int)sym_choose("angles", 2, 6);
  double start = sym_double("start", 0, 10), step = sym_double("step", 0.5, 10), az = 15.0 * (1 << sym_choose("azimuth step", 0, 2));
  AntexGridDefinition g(start, start + (n - 0.5) * step, step, az);
  sym_assert((int)g.GetNumberOfZenithGrid() == n && g.GetZenithStartAngle_deg() == start && g.GetZenithStepAngle_deg() == step, "angles of the grid");
  sym_assert((int)g.GetNumberOfAzimuthGrid() == (int)(360 / az) + 1 && g.GetAzimuthStepAngle_deg() == az, "azimuths of the grid");
  double z = sym_double("zenith", -10, 90);
  sym_assume(z < start + (n - 0.75) * step);
  int i = (int)g.CalcClosestZenithIndex(z), want = 0;
  for (int k = 1; k < n; k++) if (z >= start + (k - 0.5) * step) want = k;
  sym_assert(i == want, "nearest zenith angle");
  double a = sym_double("azimuth", -10, 400);
  int j = (int)g.CalcClosestAzimuthIndex(a), w = 0, m = (int)(360 / az);
  for (int k = 1; k <= m; k++) if (a >= (k - 0.5) * az) w = k;
  sym_assert(j == w, "nearest azimuth");
}
CHECK(no_grid) {
  double s = -5.0 * (int)sym_choose("step", 0, 1);
  AntexGridDefinition g(0, 90, s, s);
  sym_assert(g.GetNumberOfZenithGrid() == 0 && g.GetNumberOfAzimuthGrid() == 0, "no angles without a step");
}
