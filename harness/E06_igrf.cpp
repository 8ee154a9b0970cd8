// SRC: src/math_physics/geomagnetic/igrf.cpp
// SRC: src/math_physics/orbit/sgp4/sgp4ext.cpp
// MODE: real
// BOUNDS: one term of the expansion at a time up to degree 4, sums of all terms up to degree 4 at twelve places, two calls after each other; any coefficients, rates, dates and positions more than 1e-6 rad away from the poles; coefficient files of degree 8 with one to five columns; the inertial frame at twelve places
#include "util.hpp"
#include <cmath>
#include <cstring>
#include <math_physics/geomagnetic/igrf.h>
typedef double Coef[20][20];
void tcoef(Coef agh, Coef aght, double atzero, int kexta, double aext[3]);
static const double kDeg = 180. / 3.14159265359;
static Coef G, D;
static double g_ext[3];
static void clear() { memset(G, 0, sizeof(G)); memset(D, 0, sizeof(D)); }
// Schmidt quasi-normalized Legendre functions: k sin^m times the m-th derivative of the Legendre polynomial
static double pw(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); }
static double norm(int n, int m) { return sqrt((m ? 2 : 1) * fact(n - m) / fact(n + m)); }
static double poly(int n, int m, double c) {
  double v = 0;
  for (int k = 0; 2 * k <= n - m; k++) v += (k % 2 ? -1 : 1) * fact(2 * n - 2 * k) / (pw(2, n) * fact(k) * fact(n - k) * fact(n - m - 2 * k)) * pw(c, n - m - 2 * k);
  return v;
}
static double value(int n, int m, double c, double s, int less = 0) { return norm(n, m) * pw(s, m - less) * poly(n, m, c); }
static double slope(int n, int m, double c, double s) { return norm(n, m) * ((m ? m * pw(s, m - 1) * c * poly(n, m, c) : 0) - pw(s, m + 1) * poly(n, m + 1, c)); }
struct F { double x = 0, y = 0, z = 0; };
// field of g cos(m phi) + h sin(m phi) times P(n,m), north, east and down
static void add(F& f, int n, int m, double g, double h, double q, double c, double s, double cp, double sp) {
  double cm = 1, sm = 0;
  for (int i = 0; i < m; i++) { double t = cm * cp - sm * sp; sm = sm * cp + cm * sp; cm = t; }
  double k = pw(q, n + 2), a = g * cm + h * sm;
  f.x += k * a * slope(n, m, c, s);
  if (m) f.y += k * m * (g * sm - h * cm) * value(n, m, c, s, 1);
  f.z -= k * (n + 1) * a * value(n, m, c, s);
}
static void put(Coef t, int n, int m, bool h, double v) { if (h) t[n][m - 1] = v; else t[m][n] = v; }
static void term(int lo, int hi, bool all) {
  clear();
  int n = (int)sym_choose("degree", lo, hi), m = (int)sym_choose("order", 0, hi), h = (int)sym_choose("sine", 0, 1);
  sym_assume(m <= n && (m > 0 || !h));
  double g = all ? sym_double("g", -4e4, 4e4) : 16384, d = all ? sym_double("rate", -200, 200) : 64, t0 = all ? sym_double("epoch", 1900, 2025) : 2020, t = all ? sym_double("date", 1900, 2030) : 2022;
  double ra = 6371.2, r = all ? sym_double("radius", 6000, 50000) : 6800, the = sym_double("colatitude", 0, 180), lon = sym_double("longitude", -360, 360);
  double th = the / kDeg, ph = lon / kDeg, c = cos(th), s = sin(th);
  sym_assume(s > 1e-6);
  put(G, n, m, h, g);
  put(D, n, m, h, d);
  field(6378.137, 298.25722, ra, n);
  tcoef(G, D, t0, 0, g_ext);
  tyear(t);
  double x, y, z, f;
  mfldc(the, lon, r, &x, &y, &z, &f);
  double k = g + d * (t - t0);
  F w;
  add(w, n, m, h ? 0 : k, h ? k : 0, ra / r, c, s, cos(ph), sin(ph));
  sym_assert_close(x, w.x, 1e-6, "north component");
  sym_assert_close(y, w.y, 1e-6, "east component");
  sym_assert_close(z, w.z, 1e-6, "downward component");
  sym_reach("field");
}
CHECK(term) { term(1, 2, true); }
CHECK(shape) { term(3, 4, false); }

static double g_g[5][5], g_h[5][5];
static void all_terms(int n) {
  clear();
  for (int i = 1; i <= n; i++) for (int m = 0; m <= i; m++) {
    put(G, i, m, false, g_g[i][m] = sym_double("g", -4e4, 4e4));
    if (m) put(G, i, m, true, g_h[i][m] = sym_double("h", -4e4, 4e4));
  }
  field(6378.137, 298.25722, 6371.2, n);
  tcoef(G, D, 2020, 0, g_ext);
  tyear(2020);
}
static F total(int n, double q, double c, double s, double cp, double sp) {
  F w;
  for (int i = 1; i <= n; i++) for (int m = 0; m <= i; m++) add(w, i, m, g_g[i][m], m ? g_h[i][m] : 0, q, c, s, cp, sp);
  return w;
}
// the field is the sum of its terms
CHECK(sum) {
  static const double kThe[4] = {5, 60, 90, 172}, kLon[3] = {-120, 0, 75};
  int n = (int)sym_choose("degree", 1, 4);
  double r = 6800, the = kThe[sym_choose("colatitude", 0, 3)], lon = kLon[sym_choose("longitude", 0, 2)], x, y, z, f;
  all_terms(n);
  mfldc(the, lon, r, &x, &y, &z, &f);
  F w = total(n, 6371.2 / r, cos(the / kDeg), sin(the / kDeg), cos(lon / kDeg), sin(lon / kDeg));
  sym_assert_close(x, w.x, 1e-6, "north component");
  sym_assert_close(y, w.y, 1e-6, "east component");
  sym_assert_close(z, w.z, 1e-6, "downward component");
  sym_assert_close(f * f, x * x + y * y + z * z, 1e-3, "total force");
}
// the field at a place does not depend on the places asked for before
CHECK(history) {
  all_terms(1);
  int same = (int)sym_choose("same coordinates", 0, 7), geodetic = (int)sym_choose("geodetic", 0, 1);
  double a[3], b[3], x, y, z, f;
  for (int k = 0; k < 2; k++) {
    double* v = k ? b : a;
    v[0] = k && (same & 1) ? a[0] : sym_double("colatitude", 1, 179);
    v[1] = k && (same & 2) ? a[1] : sym_double("longitude", -360, 360);
    v[2] = k && (same & 4) ? a[2] : sym_double("radius", 6000, 50000);
    sym_assume(sin(v[0] / kDeg) > 1e-6);
    sym_assume(v[1] != 90);
    for (int i = 0; i < 3; i++) sym_assume(!k || (same >> i & 1) || a[i] != b[i]);
  }
  mfldc(a[0], a[1], a[2], &x, &y, &z, &f);
  if (geodetic) mfldg(45, 90, 500, &x, &y, &z, &f);
  mfldc(b[0], b[1], b[2], &x, &y, &z, &f);
  F w = total(1, 6371.2 / b[2], cos(b[0] / kDeg), sin(b[0] / kDeg), cos(b[1] / kDeg), sin(b[1] / kDeg));
  sym_assert_close(x, w.x, 1e-6, "north component");
  sym_assert_close(y, w.y, 1e-6, "east component");
  sym_assert_close(z, w.z, 1e-6, "downward component");
}
// geodetic places: the geocentric radius and colatitude of the ellipsoid
CHECK(geodetic) {
  clear();
  int m = (int)sym_choose("order", 0, 1), before = (int)sym_choose("before", 0, 2);
  double g = 16384;
  put(G, 1, m, false, g);
  double a = 6378.137, b = a * (1 - 1 / 298.25722), ra = 6371.2;
  field(a, 298.25722, ra, 1);
  tcoef(G, D, 2020, 0, g_ext);
  tyear(2020);
  double lat = before == 2 ? 45 : sym_double("latitude", -89.9, 89.9), h = sym_double("height", -10, 40000), x, y, z, f;
  double sl = sin(lat / kDeg), s2 = sl * sl, c2 = 1 - s2, a2 = a * a, b2 = b * b, a4 = a2 * a2, b4 = b2 * b2;
  double e2 = a2 * c2 + b2 * s2, e = sqrt(e2), r2 = (a4 * c2 + b4 * s2) / e2 + 2 * h * e + h * h, r = sqrt(r2), c = sl * (h + b2 / e) / r, s = sqrt(1 - c * c), q = ra / r, k = q * q * q;
  sym_assume(s > 1e-6);
  if (before) mfldg(lat, 10, before == 2 ? 100 : h, &x, &y, &z, &f);
  mfldg(lat, 0, h, &x, &y, &z, &f);
  // a dipole along the axis or toward the meridian of Greenwich
  sym_assert_close(x, m ? g * k * c : -g * k * s, 1e-3, "north component");
  sym_assert_close(z, m ? -2 * g * k * s : -2 * g * k * c, 1e-3, "downward component");
  sym_assert_close(y, 0, 1e-6, "no component to the east on the meridian of the pole");
}

// a coefficient file of degree 8 with `columns` values and a rate; the first terms and the highest are any numbers
static const int kNs = 5;
static double g_t[6][kNs + 1];
static std::string table(int columns, int last) {
  std::string t = "    8 " + std::to_string(columns + 1) + " 2000 " + std::to_string(2000 + 5 * columns) + "\n" + "y  0  0";
  for (int k = 0; k < columns; k++) t += " " + std::to_string(2000 + 5 * k) + ".0";
  t += " rate\n";
  int used = 0, k8 = 0;
  for (int n = 1; n <= 8; n++) for (int m = 0; m <= n; m++) for (int h = 0; h < (m ? 2 : 1); h++) {
    t += std::string(h ? "h  " : "g  ") + std::to_string(n) + "  " + std::to_string(m);
    bool top = n == 8 && k8++ == last;
    int i = n == 1 ? used++ : n == 2 && m == 1 ? used++ : -1;
    for (int k = 0; k <= columns; k++) {
      if (i >= 0) t += " " + sym_text(g_t[i][k] = k == columns ? sym_double("rate", -200, 200) : i == 0 || i == 4 ? sym_double("coefficient", -40000, -1) : sym_double("coefficient", 1, 40000));
      else t += top ? "  0.5" : "  0";
    }
    t += "\n";
  }
  return t;
}
// the coefficient of a date: the straight line between the columns, and beyond the last column its rate
static double at(int i, double t, int columns) {
  int k = 0;
  while (k < columns - 2 && t >= 2000 + 5 * (k + 1)) k++;
  if (t >= 2000 + 5 * (columns - 1)) return g_t[i][columns - 1] + g_t[i][columns] * (t - (2000 + 5 * (columns - 1)));
  return g_t[i][k] + (g_t[i][k + 1] - g_t[i][k]) * (t - (2000 + 5 * k)) / 5;
}
static double g_date;
static int g_col;
static F file_field(double t, double q, double c, double s, double cp, double sp) {
  F w;
  for (int m = 0; m <= 1; m++) add(w, 1, m, at(m, t, g_col), m ? at(2, t, g_col) : 0, q, c, s, cp, sp);
  add(w, 2, 1, at(3, t, g_col), at(4, t, g_col), q, c, s, cp, sp);
  add(w, 1, 0, 0, 0, q, c, s, cp, sp);
  return w;
}
CHECK(file) {
  g_col = (int)sym_choose("columns", 1, 5);
  int last = g_col == 3 ? (int)sym_choose("term of the highest degree", 0, 16) : 16;
  double t = sym_double("date", 2000, 2029);
  std::string p = sym_file("igrf13.coef", table(g_col, last));
  set_file_path(p.c_str());
  gigrf(13, t);
  static const double kThe[3] = {60, 90, 120}, kLon[3] = {-120, 0, 75};
  int place = last % 3;
  double the = kThe[place], lon = kLon[place], r = 6371.2, x, y, z, f;
  mfldc(the, lon, r, &x, &y, &z, &f);
  F w = file_field(t, 6371.2 / r, cos(the / kDeg), sin(the / kDeg), cos(lon / kDeg), sin(lon / kDeg));
  double rest = t >= 2000 + 5 * (g_col - 1) ? 0.5 + 0.5 * (t - (2000 + 5 * (g_col - 1))) : 0.5;
  add(w, 8, (last + 1) / 2, last == 0 || last % 2 ? rest : 0, last && last % 2 == 0 ? rest : 0, 1, cos(the / kDeg), sin(the / kDeg), cos(lon / kDeg), sin(lon / kDeg));
  sym_assert_close(x, w.x, 1e-6, "north component");
  sym_assert_close(y, w.y, 1e-6, "east component");
  sym_assert_close(z, w.z, 1e-6, "downward component");
}
// the field in the inertial frame: the coefficients of the date, the place, and the turn of the Earth by the sidereal angle
static void inertial(int dates, int columns, double first) {
  g_col = columns;
  std::string p = sym_file("igrf13.coef", table(g_col, 16));
  set_file_path(p.c_str());
  static const double kLat[4] = {0.75, -1.25, 0, 1.5}, kLon[3] = {-2.5, 0.5, 3}, kAlt[2] = {500e3, 36000e3};
  double a = 6378.137, b = a * (1 - 1 / 298.25722);
  for (int k = 0; k < dates; k++) {
    double t = !k && first > 0 ? first : sym_double("date", first > 0 ? first : 2000, first > 0 ? first + 4.9 : 2004.9), side = sym_double("sidereal angle", 0, 6.2832), lon = kLon[sym_choose("longitude", 0, 2)], m[3];
    double lat = kLat[k ? 3 : sym_choose("latitude", 0, 3)], h = kAlt[k];
    IgrfCalc(t, lat, lon, h, side, m);
    double sl = sin(lat), cl = cos(lat), e = sqrt(a * a * cl * cl + b * b * sl * sl), hk = h / 1000, x = (a * a / e + hk) * cl, z = (b * b / e + hk) * sl, r = sqrt(x * x + z * z), c = z / r, s = x / r;
    double ph = lon * (180 / 3.14159265358979323846) / kDeg, cl1 = cos(ph), sl1 = sin(ph);
    F w = file_field(t, 6371.2 / r, c, s, cl1, sl1);
    double rest = 0.5;
    add(w, 8, 8, 0, rest, 6371.2 / r, c, s, cl1, sl1);
    // north, east and down to the Earth-fixed frame, and by the sidereal angle to the inertial frame
    double ho = -c * w.x - s * w.z, up = s * w.x - c * w.z, co = cos(lon), so = sin(lon), ex = co * ho - so * w.y, ey = so * ho + co * w.y;
    sym_assert_close(m[0], cos(side) * ex - sin(side) * ey, 1e-3, "x of the inertial frame");
    sym_assert_close(m[1], sin(side) * ex + cos(side) * ey, 1e-3, "y of the inertial frame");
    sym_assert_close(m[2], up, 1e-3, "z of the inertial frame");
  }
}
CHECK(inertial) { inertial(2, 2, 0); }
// a simulation that starts exactly on the date of a column
CHECK(boundary) { inertial(2, 3, 2005); }
