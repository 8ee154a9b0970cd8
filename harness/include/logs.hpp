#pragma once
// the columns of one log: every name of the header with the text of its value; natively numbers are rounded to the digits of the log
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "util.hpp"
#include <math_physics/math/quaternion.hpp>
namespace lg {
inline std::vector<std::string> g_name; inline std::vector<std::string> g_value;
inline std::vector<std::string> cut(const std::string& s) {
  std::vector<std::string> r;
  std::string c;
  for (char ch : s) if (ch == ',') { r.push_back(c); c.clear(); } else c += ch;
  sym_assert(c.empty(), "every column ends with a comma");
  return r;
}
// as many values as names, and no name twice
inline void columns(const std::string& header, const std::string& value, int n) {
  g_name = cut(header);
  g_value = cut(value);
  sym_assert(g_name.size() == g_value.size(), "as many values as column names");
  sym_assert((int)g_name.size() == n, "number of columns");
  for (size_t i = 0; i < g_name.size(); i++) for (size_t j = 0; j < i; j++) sym_assert(g_name[i] != g_name[j], "different names");
}
inline std::string text(const std::string& name) {
  for (size_t i = 0; i < g_name.size() && i < g_value.size(); i++) if (g_name[i] == name) return g_value[i];
  sym_assert(false, name.c_str());
  return "0";
}
__attribute__((noinline)) inline double tolerance(double v) { return 1e-4 * std::fabs(v) + 1e-9; }
inline void is(const std::string& name, double v) { sym_assert_close(std::strtod(text(name).c_str(), nullptr), v, sym_symbolic() ? 0 : tolerance(v), name.c_str()); }
inline void isi(const std::string& name, int64_t v) { sym_assert(std::strtol(text(name).c_str(), nullptr, 10) == v, name.c_str()); }
inline void is3(const std::string& name, const std::string& unit, const s2e::math::Vector<3>& v) { for (int i = 0; i < 3; i++) is(name + "_" + "xyz"[i] + "[" + unit + "]", v[i]); }
inline void is2(const std::string& name, const std::string& unit, const s2e::math::Vector<2>& v) { for (int i = 0; i < 2; i++) is(name + "(" + char('0' + i) + ")[" + unit + "]", v[i]); }
inline void isq(const std::string& name, const s2e::math::Quaternion& q) { for (int i = 0; i < 4; i++) is(name + "_" + "xyzw"[i], q[i]); }
inline double num() { return sym_double("value", -1000, 1000); }
template <size_t N> inline s2e::math::Vector<N> vec() { s2e::math::Vector<N> v; for (size_t i = 0; i < N; i++) v[i] = num(); return v; }
inline s2e::math::Quaternion quat() { s2e::math::Quaternion q; for (int i = 0; i < 4; i++) q[i] = num(); return q; }
}  // namespace lg
#define LOG(p, T, n) lg::columns(p->T::GetLogHeader(), p->T::GetLogValue(), n)
