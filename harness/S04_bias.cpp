// SRC: src/math_physics/gnss/bias_sinex_file_reader.cpp
// MODE: real
// BOUNDS: up to three biases of every kind, signal pair and unit, with and without slopes; any numbers; files cut after any line
#include "util.hpp"
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
using namespace s2e::gnss;
static double g_tol = sym_symbolic() ? 1e-9 : 1e-3;
static const char* kKind[4] = {"DSB ", "ISB ", "OSB ", "XSB "};
static const char* kUnit[3] = {"ns  ", "cyc ", "m   "};
static const char* kSig[8][2] = {{"C1W ", "C2W "}, {"C1P ", "C2P "}, {"C1P ", "C1C "}, {"C2P ", "C2C "}, {"C1W ", "C2P "}, {"C1X ", "C5X "}, {"C2W ", "C1W "}, {"C1C ", "C1P "}};
static const BiasTargetSignal kWant[8] = {BiasTargetSignal::kP1P2, BiasTargetSignal::kP1P2, BiasTargetSignal::kP1C1, BiasTargetSignal::kP2C2, BiasTargetSignal::kError, BiasTargetSignal::kError, BiasTargetSignal::kError, BiasTargetSignal::kError};
struct Rec { int kind, unit, sig; double b, sb, s, ss; int slope; };
static std::string record(Rec& r, int i) {
  r.b = sym_double("bias", -999, 999);
  r.sb = sym_double("deviation", 0, 99);
  std::string t = std::string(" ") + kKind[r.kind] + " G06" + char('0' + i) + " G0" + char('1' + i) + " STATION0" + char('0' + i) + " " + kSig[r.sig][0] + " " + kSig[r.sig][1] + " 2023:091:00000 2023:091:86399 " + kUnit[r.unit] + " " + sym_text(r.b, 21) + " " + sym_text(r.sb, 12);
  r.s = r.ss = 0;
  if (r.slope > 0) t += " " + sym_text(r.s = sym_double("slope", -99, 99), 21);
  if (r.slope > 1) t += " " + sym_text(r.ss = sym_double("slope deviation", 0, 99), 12);
  return t + (r.slope == 3 ? " \n" : "\n");
}
static void same(BiasSolutionData d, const Rec& r, int i) {
  sym_assert((int)d.GetIdentifier() == r.kind, "kind of bias");
  sym_assert((int)d.GetUnit() == r.unit, "unit");
  sym_assert(d.GetTargetSignal() == kWant[r.sig], "pair of signals");
  sym_assert(d.GetSatelliteSvnCode() == std::string("G06") + char('0' + i) && d.satellite_number_ == std::string("G0") + char('1' + i) && d.GetStationName() == std::string("STATION0") + char('0' + i), "satellite and station");
  sym_assert_close(d.GetBias(), r.b, g_tol, "bias");
  sym_assert_close(d.GetBiasStandardDeviation(), r.sb, g_tol, "deviation of the bias");
  sym_assert_close(d.GetSlope(), r.s, g_tol, "slope");
  sym_assert_close(d.GetSlopeStandardDeviation(), r.ss, g_tol, "deviation of the slope");
}
static std::string head() {
  return "%=BIA 1.00 GFZ 2023:092:50740 IGS 2023:091:00000 2023:091:86399 R 00003234\n*---\n+FILE/REFERENCE\n REFERENCE FRAME    IGS20\n+BIAS/SOLUTION in a reference\n-FILE/REFERENCE\n+FILE/COMMENT\n a comment\n-FILE/COMMENT\n"
         "+INPUT/ACKNOWLEDGMENTS\n GFZ x\n-INPUT/ACKNOWLEDGMENTS\n+BIAS/DESCRIPTION\n*KEYWORD\n BIAS_MODE RELATIVE\n-BIAS/DESCRIPTION\n+BIAS/RECEIVER_INFORMATION\n ABCD\n-BIAS/RECEIVER_INFORMATION\n*---\n";
}
CHECK(biases) {
  int n = (int)sym_choose("biases", 0, 3), v = (int)sym_choose("variant", 0, 23);
  Rec r[3];
  std::string t = head() + "+BIAS/SOLUTION\n*BIAS SVN_ PRN\n";
  for (int i = 0; i < n; i++) {
    r[i].kind = (v + i) % 4;
    r[i].unit = (v + i) % 3;
    r[i].sig = (v + 3 * i) % 8;
    r[i].slope = (v / 6 + i) % 4;
    t += record(r[i], i) + (i == 1 ? "* DSB  G063 G01 a comment between the records\n" : "");
  }
  t += "-BIAS/SOLUTION\n%=ENDBIA\n+BIAS/SOLUTION\n DSB  after the end\n";
  BiasSinexFileReader f(sym_file("x.BSX", t));
  sym_assert(f.GetFileReadSuccessFlag() && (int)f.GetNumberOfBiasData() == n, "number of biases");
  for (int i = 0; i < n; i++) same(f.GetBiasData(i), r[i], i);
}
CHECK(missing) {
  BiasSinexFileReader f("/nonexistent/x.BSX");
  sym_assert(!f.GetFileReadSuccessFlag() && f.GetNumberOfBiasData() == 0, "no file, no biases");
}
// a file that ends early is read up to its end
CHECK(cut) {
  Rec r[2] = {};
  std::string t = head() + "+BIAS/SOLUTION\n" + record(r[0], 0) + record(r[1], 1) + "-BIAS/SOLUTION\n%=ENDBIA\n";
  int lines = (int)sym_choose("lines", 0, 25), all = 20;
  size_t e = 0;
  for (int i = 0; i < lines && e != std::string::npos; i++) { e = t.find('\n', e); if (e != std::string::npos) e++; }
  BiasSinexFileReader f(sym_file("cut.BSX", e == std::string::npos ? t : t.substr(0, e)));
  int want = lines <= all + 1 ? 0 : lines == all + 2 ? 1 : 2;
  sym_assert(f.GetFileReadSuccessFlag() && (int)f.GetNumberOfBiasData() == want, "biases of the lines that are there");
  for (int i = 0; i < want; i++) same(f.GetBiasData(i), r[i], i);
}
