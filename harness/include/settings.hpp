#pragma once
// Settings files replaced by an arbitrary content: every (file, section, key) holds an independent symbolic value,
// created when it is first read; the harness refers to the same value by the same name.
#include <map>
#include <string>
#include <vector>
#include "util.hpp"
#include <setting_file_reader/initialize_file_access.hpp>
namespace st {
struct Range { double lo, hi; };
inline std::map<std::string, double>& dv() { static std::map<std::string, double> m; return m; }
inline std::map<std::string, int>& iv() { static std::map<std::string, int> m; return m; }
inline std::map<std::string, std::string>& sv() { static std::map<std::string, std::string> m; return m; }
inline std::map<std::string, Range>& rv() { static std::map<std::string, Range> m; return m; }
inline Range& dflt() { static Range r = {-64, 64}; return r; }
inline std::string id(const std::string& f, const std::string& s, const std::string& k) { return f + ":" + s + ":" + k; }
inline double D(const std::string& f, const std::string& s, const std::string& k) {
  std::string n = id(f, s, k);
  auto it = dv().find(n);
  if (it != dv().end()) return it->second;
  auto r = rv().find(n);
  Range g = r != rv().end() ? r->second : dflt();
  double v = sym_double(n.c_str(), g.lo, g.hi);
  dv()[n] = v;
  return v;
}
inline int I(const std::string& f, const std::string& s, const std::string& k) {
  std::string n = id(f, s, k);
  auto it = iv().find(n);
  if (it != iv().end()) return it->second;
  auto r = rv().find(n);
  int v = (int)(r != rv().end() ? sym_choose(n.c_str(), (int64_t)r->second.lo, (int64_t)r->second.hi) : sym_int(n.c_str(), -1000, 1000));
  iv()[n] = v;
  return v;
}
inline std::string S(const std::string& f, const std::string& s, const std::string& k) {
  auto it = sv().find(id(f, s, k));
  return it != sv().end() ? it->second : "text of " + id(f, s, k);
}
// a file being described: f("SECTION")("key")
struct Sec {
  std::string f, s;
  double d(const std::string& k) const { return D(f, s, k); }
  double d(const std::string& k, int i) const { return D(f, s, k + "(" + std::to_string(i) + ")"); }
  int i(const std::string& k) const { return I(f, s, k); }
  void text(const std::string& k, const std::string& v) const { sv()[id(f, s, k)] = v; }
  void set(const std::string& k, int v) const { iv()[id(f, s, k)] = v; }
  void range(const std::string& k, double lo, double hi) const { rv()[id(f, s, k)] = {lo, hi}; }
  void range(const std::string& k, int n, double lo, double hi) const { for (int i = 0; i < n; i++) rv()[id(f, s, k + "(" + std::to_string(i) + ")")] = {lo, hi}; }
};
inline void eq(double a, double b, const char* l) { sym_assert_close(a, b, 1e-9, l); }
inline void eqi(int64_t a, int64_t b, const char* l) { sym_assert(a == b, l); }
template <size_t N> void eqv(const s2e::math::Vector<N>& v, const Sec& s, const char* k, const char* l) { for (size_t i = 0; i < N; i++) eq(v[i], s.d(k, (int)i), l); }
template <size_t N> void eqm(const s2e::math::Matrix<N, N>& m, const Sec& s, const char* k, const char* l) { for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) eq(m[i][j], s.d(k, (int)(i * N + j)), l); }
inline void eqq(const s2e::math::Quaternion& q, const Sec& s, const char* k, const char* l) {
  // the same rotation: parallel to the four numbers of the file
  for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) sym_assert_close(q[i] * s.d(k, j), q[j] * s.d(k, i), 1e-9, l);
}
// four numbers of unit norm
inline void unit4(const Sec& s, const char* k) { double a[4]; sym_unit(id(s.f, s.s, k).c_str(), 4, a); for (int i = 0; i < 4; i++) dv()[id(s.f, s.s, std::string(k) + "(" + std::to_string(i) + ")")] = a[i]; }
inline void unit3(const Sec& s, const char* k) { double a[3]; sym_unit(id(s.f, s.s, k).c_str(), 3, a); for (int i = 0; i < 3; i++) dv()[id(s.f, s.s, std::string(k) + "(" + std::to_string(i) + ")")] = a[i]; }
}  // namespace st
INIReader::INIReader(const std::string&) { _error = 0; }
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : file_path_(f), ini_reader_(f) {}
double IniAccess::ReadDouble(const char* s, const char* k) { return st::D(file_path_, s, k); }
int IniAccess::ReadInt(const char* s, const char* k) { return st::I(file_path_, s, k); }
bool IniAccess::ReadBoolean(const char* s, const char* k) { st::rv()[st::id(file_path_, s, k)] = {0, 1}; return st::I(file_path_, s, k) != 0; }
bool IniAccess::ReadEnable(const char* s, const char* k) { return ReadBoolean(s, (std::string(k) + " ENABLE").c_str()); }  // another spelling than a boolean
std::string IniAccess::ReadString(const char* s, const char* k) { return st::S(file_path_, s, k); }
void IniAccess::ReadChar(const char* s, const char* k, const int n, char* d) {
  std::string t = st::S(file_path_, s, k);
  int i = 0;
  for (; i < n - 1 && i < (int)t.size(); i++) d[i] = t[i];
  d[i] = 0;
}
void IniAccess::ReadQuaternion(const char* s, const char* k, math::Quaternion& q) {
  for (int i = 0; i < 4; i++) q[i] = st::D(file_path_, s, std::string(k) + "(" + std::to_string(i) + ")");
}
std::vector<double> IniAccess::ReadVectorDouble(const char* s, const char* k, const size_t n) {
  std::vector<double> v;
  for (size_t i = 0; i < n; i++) v.push_back(st::D(file_path_, s, std::string(k) + "(" + std::to_string(i) + ")"));
  return v;
}
std::vector<int> IniAccess::ReadVectorInt(const char* s, const char* k, const size_t n) {
  std::vector<int> v;
  for (size_t i = 0; i < n; i++) v.push_back(st::I(file_path_, s, std::string(k) + "(" + std::to_string(i) + ")"));
  return v;
}
std::vector<std::string> IniAccess::ReadVectorString(const char* s, const char* k, const size_t n) {
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) v.push_back(st::S(file_path_, s, std::string(k) + "(" + std::to_string(i) + ")"));
  return v;
}
std::vector<std::string> IniAccess::ReadStrVector(const char* s, const char* k) { return {st::S(file_path_, s, std::string(k) + "[0]"), st::S(file_path_, s, std::string(k) + "[1]")}; }
// a table file: row i, column j
void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& o, const size_t n) {
  for (size_t i = 0; i < 2; i++) {
    std::vector<double> r;
    for (size_t j = 0; j < (n < 2 ? n : 2); j++) r.push_back(st::D(file_path_, std::to_string(i), std::to_string(j)));
    o.push_back(r);
  }
}
}  // namespace s2e::setting_file_reader
