// SRC: src/disturbances/geopotential.cpp
// SRC: src/disturbances/lunar_gravity_field.cpp
// MODE: real
// BOUNDS: degree 0 to 4; any coefficients; files of every shorter length
// STUBS: setting file access
// DELETE: _ZN3s2e12disturbances(17LunarGravityField|12Geopotential)6Update
#include "ini.hpp"
#include "util.hpp"
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
using namespace s2e;
using namespace s2e::disturbances;
static double g_c[5][5], g_s[5][5];
static bool g_read[5][5];
static void coefficients() {
  for (int n = 0; n < 5; n++) for (int m = 0; m < 5; m++) { g_read[n][m] = false; g_c[n][m] = sym_double("c", -1, 1); g_s[n][m] = sym_double("s", -1, 1); }
}
static void table(const std::vector<std::vector<double>>& c, const std::vector<std::vector<double>>& s, int degree) {
  sym_assert((int)c.size() == degree + 1 && (int)s.size() == degree + 1, "size of the table");
  for (int n = 0; n <= degree; n++) {
    sym_assert((int)c[n].size() == degree + 1 && (int)s[n].size() == degree + 1, "size of the table");
    for (int m = 0; m <= degree; m++) { sym_assert_close(c[n][m], g_read[n][m] ? g_c[n][m] : 0, 1e-12, "cosine coefficient"); sym_assert_close(s[n][m], g_read[n][m] ? g_s[n][m] : 0, 1e-12, "sine coefficient"); }
  }
}
// the file lists degree by degree, each with its orders; more than needed is ignored, a file with less is not used
CHECK(egm96) {
  coefficients();
  int degree = (int)sym_choose("degree", 0, 4), lines = (int)sym_choose("lines", 0, 12), need = degree < 2 ? 0 : (degree + 1) * (degree + 2) / 2 - 3, k = 0;
  std::string t;
  for (int n = 2; n < 5; n++) for (int m = 0; m <= n; m++, k++) if (k < lines) {
    t += "   " + std::to_string(n) + "   " + std::to_string(m) + " " + sym_text(g_c[n][m]) + "  " + sym_text(g_s[n][m]) + "   0.35610635E-10   0.0\n";
    g_read[n][m] = k < need;
  }
  Geopotential g(degree, sym_file("egm", t), true);
  if (need && lines < need) sym_assert(g.degree_ == 0 && g.geopotential_.degree_ == 0, "incomplete file not used");
  else {
    sym_assert((int)g.degree_ == (degree < 2 ? 0 : degree) && (int)g.geopotential_.degree_ == (degree < 2 ? 0 : degree), "degree");
    table(g.c_, g.s_, degree < 2 ? 0 : degree);
    table(g.geopotential_.c_, g.geopotential_.s_, degree < 2 ? 0 : degree);
  }
}
CHECK(egm96_missing) {
  int degree = (int)sym_choose("degree", 2, 4);
  Geopotential g(degree, "/nonexistent/egm96", true);
  sym_assert(g.degree_ == 0 && g.geopotential_.degree_ == 0, "no file, no perturbation");
}
CHECK(grgm1200a) {
  coefficients();
  int degree = (int)sym_choose("degree", 0, 4), extra = (int)sym_choose("extra", 0, 1);
  double radius = sym_double("radius", 1000, 2000), mu = sym_double("mu", 4000, 6000);
  std::string t = sym_text(radius) + ", " + sym_text(mu) + ",  0.0, 1200, 1200, 1, 0.0, 0.0\n";
  for (int n = 1; n < 5; n++) for (int m = 0; m <= n; m++) if (n <= degree || extra) {
    t += std::to_string(n) + ",    " + std::to_string(m) + ", " + sym_text(g_c[n][m]) + ", " + sym_text(g_s[n][m]) + ", 1.0e-9, 2.0e-9\n";
    g_read[n][m] = n <= degree && degree > 1;
  }
  LunarGravityField g(degree, sym_file("grgm", t), true);
  int d = degree < 2 ? 0 : degree;
  sym_assert((int)g.degree_ == d && (int)g.lunar_potential_.degree_ == d, "degree");
  table(g.c_, g.s_, d);
  table(g.lunar_potential_.c_, g.lunar_potential_.s_, d);
  if (d) {
    sym_assert_close(g.lunar_potential_.center_body_radius_m_, radius * 1e3, 1e-6, "reference radius in metres");
    sym_assert_close(g.lunar_potential_.gravity_constants_m3_s2_, mu * 1e9, 10, "gravity constant in SI");
  }
}
CHECK(grgm1200a_missing) {
  int degree = (int)sym_choose("degree", 2, 4);
  LunarGravityField g(degree, "/nonexistent/grgm", true);
  sym_assert(g.degree_ == 0 && g.lunar_potential_.degree_ == 0, "no file, no perturbation");
}
