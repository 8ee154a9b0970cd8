// SRC:
// MODE: real
// BOUNDS: self test
// OPT: max_paths=300
#include "util.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <tuple>
#include <variant>
#include <vector>
#include <cmath>
CHECK(algo) {
  double x = sym_double("x", -3, 3), y = sym_double("y", -3, 3), z = sym_double("z", -3, 3);
  double c = std::clamp(x, -1.0, 1.0);
  sym_assert(c >= -1 && c <= 1, "clamp");
  std::array<double, 3> a{x, y, z};
  double s = std::accumulate(a.begin(), a.end(), 0.0);
  sym_assert_close(s, x + y + z, 1e-12, "acc");
  double ip = std::inner_product(a.begin(), a.end(), a.begin(), 0.0);
  sym_assert_close(ip, x * x + y * y + z * z, 1e-12, "ip");
  auto mm = std::minmax_element(a.begin(), a.end());
  sym_assert(*mm.first <= *mm.second, "mm");
  std::vector<double> v(a.begin(), a.end());
  std::sort(v.begin(), v.end());
  sym_assert(v[0] <= v[1] && v[1] <= v[2], "sort");
  std::vector<double> w(3);
  std::transform(a.begin(), a.end(), w.begin(), [](double t) { return 2 * t; });
  sym_assert_close(w[1], 2 * y, 1e-12, "tr");
  sym_assert(std::any_of(a.begin(), a.end(), [](double t) { return t <= 3; }), "any");
  sym_assert(std::all_of(a.begin(), a.end(), [](double t) { return t <= 3; }), "all");
  std::swap(v[0], v[2]);
  std::reverse(w.begin(), w.end());
  std::rotate(w.begin(), w.begin() + 1, w.end());
  std::fill_n(w.begin(), 2, 1.0);
  std::generate(w.begin(), w.end(), [&] { return x; });
  std::partial_sum(w.begin(), w.end(), w.begin());
  sym_assert_close(w[2], 3 * x, 1e-12, "ps");
}
CHECK(math) {
  double x = sym_double("x", 0.5, 3), y = sym_double("y", -3, -0.5);
  sym_assert_close(std::hypot(x, y), sqrt(x * x + y * y), 1e-9, "hypot");
  sym_assert_close(std::hypot(x, y, 1.0), sqrt(x * x + y * y + 1), 1e-9, "hypot3");
  sym_assert_close(std::pow(x, 2), x * x, 1e-9, "pow2");
  sym_assert_close(std::pow(x, 3), x * x * x, 1e-9, "pow3");
  sym_assert_close(std::copysign(2.0, x), x < 0 ? -2.0 : 2.0, 1e-9, "copysign");
  sym_assert_close(std::fma(x, y, 1.0), x * y + 1, 1e-9, "fma");
  sym_assert_close(std::abs(x), x < 0 ? -x : x, 1e-9, "abs");
  sym_assert_close(std::fmax(x, y), x > y ? x : y, 1e-9, "fmax");
  sym_assert_close(std::fmin(x, y), x < y ? x : y, 1e-9, "fmin");
  sym_assert_close(std::max({x, y, 0.5}), std::max(std::max(x, y), 0.5), 1e-9, "maxil");
  sym_assert_close(std::floor(x) , std::trunc(x) - (std::trunc(x) > x ? 1 : 0), 1e-9, "floor");
  sym_assert(std::round(x) >= x - 0.5, "round");
  sym_assert((double)std::lround(x) >= x - 0.5, "lround");
  sym_assert(std::ceil(x) >= x, "ceil");
  sym_assert(std::fmod(x, 2.0) > -2, "fmod");
  sym_assert(!std::isnan(x) && std::isfinite(x) && !std::isinf(x), "cls");
  sym_assert(std::signbit(x) == (x < 0), "signbit");
  sym_assert_close(std::sqrt(x * x), std::fabs(x), 1e-9, "sq");
  sym_assert_close(std::exp(x) * std::exp(-x), 1, 1e-6, "exp");
  sym_assert(std::remainder(x, 2.0) <= 1, "remainder");
  double ip; double fr = std::modf(x, &ip);
  sym_assert_close(fr + ip, x, 1e-9, "modf");
  double ns = std::numeric_limits<double>::quiet_NaN();
  sym_assert(std::isnan(ns), "nan");
  sym_assert_close(std::fdim(x, y), x > y ? x - y : 0, 1e-9, "fdim");
}
CHECK(containers) {
  double x = sym_double("x", -3, 3);
  std::map<std::string, double> m{{"a", x}, {"b", 2 * x}};
  for (auto& [k, v] : m) v += 1;
  sym_assert_close(m.at("b"), 2 * x + 1, 1e-9, "map");
  std::unordered_map<int, double> u;
  for (int i = 0; i < 5; i++) u[i] = i * x;
  sym_assert_close(u.at(3), 3 * x, 1e-9, "umap");
  std::unordered_map<std::string, double> us{{"q", x}};
  sym_assert(us.count("q") == 1, "usmap");
  std::deque<double> d;
  for (int i = 0; i < 5; i++) d.push_back(x * i);
  d.pop_front();
  sym_assert_close(d[0], x, 1e-9, "deque");
  std::list<double> l(d.begin(), d.end());
  l.remove_if([](double q) { return q > 100; });
  sym_assert(l.size() == 4, "list");
  std::set<int> st{3, 1, 2};
  sym_assert(*st.begin() == 1, "set");
  auto up = std::make_unique<double>(x);
  auto sp = std::make_shared<double>(*up);
  auto sp2 = sp;
  sym_assert_close(*sp2, x, 1e-9, "ptr");
  std::optional<double> o;
  if (x > 0) o = x;
  sym_assert(o.value_or(1) > 0, "opt");
  std::function<double(double)> f = [&](double q) { return q * x; };
  sym_assert_close(f(2), 2 * x, 1e-9, "fn");
  auto t = std::make_tuple(x, 1, std::string("abc"));
  auto [a, b, c] = t;
  sym_assert(b == 1 && c == "abc", "tuple");
  (void)a;
  std::ostringstream os;
  os << "abc" << 12;
  sym_assert(os.str() == "abc12", "ostringstream");
  sym_assert(std::to_string(12) == "12", "to_string");
  std::string s = "hello";
  s.insert(0, "x"); s.replace(0, 1, "yy"); s.append(3, 'c');
  sym_assert(s.find("cc") == 7 && s.substr(2, 3) == "hel", "string");
  std::stringstream ss("1,2,3");
  std::string item; int n = 0;
  while (std::getline(ss, item, ',')) n++;
  sym_assert(n == 3, "getline");
  std::variant<int, double> vv = x;
  sym_assert(std::holds_alternative<double>(vv), "variant");
  static int calls = 0;
  static const std::vector<int> table = [] { calls++; return std::vector<int>{1, 2, 3}; }();
  sym_assert(table[2] == 3 && calls == 1, "static init");
  const char* nm[] = {"a", "b"};
  sym_assert(std::string(nm[1]) == "b", "arr");
  std::vector<std::vector<double>> vv2(3, std::vector<double>(3, x));
  vv2.emplace_back(); vv2.back().assign(2, 1.0);
  sym_assert(vv2.size() == 4, "vv2");
  std::vector<bool> vb(10); vb[3] = true;
  sym_assert(vb[3] && !vb[4], "vb");
}
