// SRC: src/setting_file_reader/initialize_file_access.cpp
// MODE: real
// BOUNDS: vectors of up to three elements, tables of up to three rows; any numbers
// STUBS: the ini reader (a map from section and key to the value)
// OVERRIDE: IniAccess::ReadString without its regular expressions
#include "util.hpp"
#include <setting_file_reader/initialize_file_access.hpp>
#include <map>
using namespace s2e;
using setting_file_reader::IniAccess;
static std::map<std::string, double> g_num;
static std::map<std::string, long> g_int;
static std::map<std::string, std::string> g_str;
static bool g_other;
INIReader::INIReader(const std::string&) { _error = 0; }
int INIReader::ParseError() const { return 0; }
static std::string key(const std::string& s, const std::string& n) { if (s != "SECTION") g_other = true; return n; }
double INIReader::GetReal(const std::string& s, const std::string& n, double d) const { auto i = g_num.find(key(s, n)); return i == g_num.end() ? d : i->second; }
long INIReader::GetInteger(const std::string& s, const std::string& n, long d) const { auto i = g_int.find(key(s, n)); return i == g_int.end() ? d : i->second; }
bool INIReader::GetBoolean(const std::string& s, const std::string& n, bool d) const { auto i = g_int.find(key(s, n)); return i == g_int.end() ? d : i->second != 0; }
std::string INIReader::GetString(const std::string& s, const std::string& n, const std::string& d) const { auto i = g_str.find(key(s, n)); return i == g_str.end() ? d : i->second; }
namespace s2e::setting_file_reader {
std::string IniAccess::ReadString(const char* s, const char* k) { return ini_reader_.GetString(s, k, "NULL"); }
}  // namespace s2e::setting_file_reader
static std::string ix(const std::string& k, int i) { return k + "(" + std::to_string(i) + ")"; }
CHECK(numbers) {
  IniAccess a("/vsym/a.ini");
  double v[4];
  int64_t n[4];
  for (int i = 0; i < 4; i++) { v[i] = sym_double("v", -100, 100); n[i] = sym_int("n", -2147483648LL, 2147483647LL); }
  int k = (int)sym_choose("given", 0, 3), want = (int)sym_choose("wanted", 0, 3);
  for (int i = 0; i < k; i++) { g_num[ix("vec", i)] = v[i]; g_num[ix("arr7", i)] = v[i] * 2; g_int[ix("vec", i)] = n[i]; g_str[ix("vec", i)] = "text" + std::to_string(i); }
  g_num["one"] = v[3]; g_int["one"] = n[3]; g_int["flag"] = 1;
  sym_assert_close(a.ReadDouble("SECTION", "one"), v[3], 0, "number");
  sym_assert(a.ReadInt("SECTION", "one") == n[3], "integer");
  sym_assert(a.ReadDouble("SECTION", "absent") == 0 && a.ReadInt("SECTION", "absent") == 0 && !a.ReadBoolean("SECTION", "absent") && a.ReadBoolean("SECTION", "flag"), "absent");
  std::vector<double> d = a.ReadVectorDouble("SECTION", "vec", want);
  std::vector<int> q = a.ReadVectorInt("SECTION", "vec", want);
  std::vector<std::string> t = a.ReadVectorString("SECTION", "vec", want), all = a.ReadStrVector("SECTION", "vec");
  sym_assert((int)d.size() == want && (int)q.size() == want && (int)t.size() == want, "number of elements");
  for (int i = 0; i < want; i++) {
    sym_assert_close(d[i], i < k ? v[i] : 0, 0, "element");
    sym_assert(q[i] == (i < k ? n[i] : 0), "integer element");
    sym_assert(t[i] == (i < k ? "text" + std::to_string(i) : "NULL"), "text element");
  }
  sym_assert((int)all.size() == k, "list up to the first missing element");
  for (int i = 0; i < k; i++) sym_assert(all[i] == "text" + std::to_string(i), "list element");
  double arr[4] = {-1, -1, -1, -1};
  a.ReadDoubleArray("SECTION", "arr", 7, want, arr);
  for (int i = 0; i < 4; i++) sym_assert_close(arr[i], i >= want ? -1 : i < k ? v[i] * 2 : 0, 0, "array element");
  sym_assert(!g_other, "section");
}
CHECK(vectors) {
  IniAccess a("/vsym/a.ini");
  double v[4], w[4];
  bool fresh = sym_choose("new keys", 0, 1), old = sym_choose("old keys", 0, 1);
  for (int i = 0; i < 4; i++) {
    v[i] = sym_double("v", -1, 1); w[i] = sym_double("w", -1, 1);
    if (fresh) g_num["q_(" + std::to_string(i) + ")"] = v[i];
    if (old) g_num[ix("q", i)] = w[i];
    g_num[ix("v", i)] = v[i];
  }
  if (fresh) sym_assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3] > 0.0);
  math::Quaternion q;
  a.ReadQuaternion("SECTION", "q", q);
  for (int i = 0; i < 4; i++) sym_assert_close(q[i], fresh ? v[i] : old ? w[i] : 0, 0, "quaternion");
  math::Vector<3> d;
  a.ReadVector<3>("SECTION", "v", d);
  for (int i = 0; i < 3; i++) sym_assert_close(d[i], v[i], 0, "vector");
}
CHECK(enable) {
  IniAccess a("/vsym/a.ini");
  static const char* kText[8] = {"ENABLE", "DISABLE", "1", "0", "enable", "ENABLED", "", "NULL"};
  int i = (int)sym_choose("text", 0, 8);
  if (i < 8) g_str["e"] = kText[i];
  sym_assert(a.ReadEnable("SECTION", "e") == (i == 0 || i == 2), "enabled");
  char out[16];
  for (char& c : out) c = 'x';
  g_str["c"] = "some text";
  a.ReadChar("SECTION", "c", 12, out);
  sym_assert(std::string(out) == "some text" && out[12] == 'x', "text");
}
CHECK(csv) {
  int rows = (int)sym_choose("rows", 0, 3), columns = (int)sym_choose("columns", 1, 3), hr = (int)sym_choose("header rows", 0, 2), hc = (int)sym_choose("header columns", 0, 1), reserve = (int)sym_choose("reserve", 0, 3);
  bool last = sym_choose("newline at the end", 0, 1);
  double v[3][3];
  std::string body, full;
  for (int i = 0; i < hr; i++) full += "name,x,y\n";
  for (int r = 0; r < rows; r++) {
    if (hc) full += "row" + std::to_string(r) + ",";
    for (int c = 0; c < columns; c++) { v[r][c] = sym_double("v", -1000, 1000); std::string t = sym_text(v[r][c]) + (c < columns - 1 ? "," : ""); body += t; full += t; }
    if (r < rows - 1 || last) { body += "\n"; full += "\n"; }
  }
  IniAccess b(sym_file("b.csv", body)), f(sym_file("f.csv", full));
  std::vector<std::vector<double>> d, e;
  std::vector<std::vector<std::string>> s;
  b.ReadCsvDouble(d, reserve);
  f.ReadCsvDoubleWithHeader(e, reserve, hr, hc);
  f.ReadCsvString(s, reserve);
  sym_assert((int)d.size() == rows && (int)e.size() == rows && (int)s.size() == rows + hr, "rows");
  for (int r = 0; r < rows; r++) {
    sym_assert((int)d[r].size() == columns && (int)e[r].size() == columns && (int)s[r + hr].size() == columns + hc, "columns");
    for (int c = 0; c < columns; c++) { sym_assert_close(d[r][c], v[r][c], 1e-9, "cell"); sym_assert_close(e[r][c], v[r][c], 1e-9, "cell with header"); }
    if (hc) sym_assert(s[r + hr][0] == "row" + std::to_string(r), "text cell");
  }
  for (int r = 0; r < hr; r++) sym_assert(s[r].size() == 3 && s[r][0] == "name" && s[r][2] == "y", "header");
}
