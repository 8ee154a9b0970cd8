// Native side of the harness API: replays one recorded input assignment against the real code.
#include "sym.h"
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <map>
#include <string>
static std::map<std::string, double> D;
static std::map<std::string, long long> N;
static std::map<std::string, int> cnt;
static std::string uname_(const char* n) {
  std::string s(n);
  int k = cnt[s]++;
  if (k) s += "#" + std::to_string(k);
  for (auto& c : s) if (c == ' ') c = '_';
  return s;
}
extern "C" {
double sym_double(const char* name, double lo, double hi) {
  std::string s = uname_(name);
  auto i = D.find(s);
  if (i != D.end()) return i->second;
  if (lo == hi) return lo;
  if (std::isinf(lo) || std::isinf(hi)) return 0.5;
  return 0.5 * (lo + hi);
}
void sym_unit(const char* name, int n, double* out) {
  static std::map<std::string, int> uc;
  std::string s(name);
  int k = uc[s]++;
  if (k) s += "@" + std::to_string(k);
  double r2 = 0;
  for (int i = 0; i < n; i++) { out[i] = sym_double((s + ".u" + std::to_string(n) + "_" + std::to_string(i)).c_str(), -1, 1); r2 += out[i] * out[i]; }
  double r = std::sqrt(r2);
  if (r < 1e-12) { for (int i = 0; i < n; i++) out[i] = i == n - 1; return; }
  if (std::fabs(r - 1.0) > 4e-16) for (int i = 0; i < n; i++) out[i] /= r;
}
int64_t sym_int(const char* name, int64_t lo, int64_t hi) {
  std::string s = uname_(name);
  auto i = N.find(s);
  (void)hi;
  return i != N.end() ? i->second : lo;
}
int64_t sym_choose(const char* name, int64_t lo, int64_t hi) { return sym_int(name, lo, hi); }
static char file_dir_[200];
static void fin(int rc) {
  fflush(stdout);
  if (*file_dir_) { std::error_code e; std::filesystem::remove_all(file_dir_, e); }
  _Exit(rc);
}
void sym_assume(bool c) { if (!c) { printf("@ASSUME\t0\n"); fin(0); } }
void sym_assert(bool c, const char* label) { printf("@A\t%s\t%d\n", label, c ? 1 : 0); fflush(stdout); }
void sym_assert_close(double a, double b, double tol, const char* label) {
  bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= tol;
  printf("@C\t%s\t%a\t%a\t%d\n", label, a, b, ok ? 1 : 0); fflush(stdout);
}
void sym_assert_le(double a, double b, const char* label) {
  double eps = 1e-9 * (std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b));
  printf("@L\t%s\t%a\t%a\t%d\n", label, a, b, a <= b + eps ? 1 : 0); fflush(stdout);
}
void sym_reach(const char* label) { printf("@R\t%s\n", label); fflush(stdout); }
bool sym_symbolic() { return false; }
bool sym_finite(double v) { return std::isfinite(v); }
static bool exit_ok_ = false;
void sym_exit_ok() { exit_ok_ = true; }
void sym_text_i_(int64_t v, int width, char* out) { sprintf(out, "%*lld", width, (long long)v); }
void sym_text_d_(double v, int width, char* out) {
  int p = 17;
  do { sprintf(out, "%*.*g", width, p, v); } while (width && (int)strlen(out) > width && --p > 0);
}
void sym_file_(const char* name, const char* text, uint64_t n, char* path) {
  if (!*file_dir_) { strcpy(file_dir_, "/tmp/vsymfXXXXXX"); if (!mkdtemp(file_dir_)) abort(); }
  sprintf(path, "%s/%s", file_dir_, name);
  FILE* f = fopen(path, "wb");
  fwrite(text, 1, n, f);
  fclose(f);
}
void sym_end() { printf("@END\n"); fin(0); }
}
static bool ended = false;
static void at_exit_() { if (!ended) { printf(exit_ok_ ? "@END\n" : "@EXIT\n"); fflush(stdout); } }
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char k, name[512], val[512];
  while (fscanf(f, " %c %511s %511s", &k, name, val) == 3) {
    if (k == 'd') D[name] = strtod(val, nullptr);
    else N[name] = strtoll(val, nullptr, 10);
  }
  fclose(f);
  void* h = dlopen(nullptr, RTLD_NOW);
  void (*fn)() = (void (*)())dlsym(h, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  atexit(at_exit_);
  try {
    fn();
    ended = true;
    printf("@END\n");
  } catch (std::exception& e) {
    ended = true;
    printf("@THROW\t%s\n", e.what());
  } catch (...) {
    ended = true;
    printf("@THROW\t?\n");
  }
  fin(0);
}
// std::random_device gives the same fixed value as in the symbolic build
extern "C" {
void vu_rd_init(void*, const std::string&) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void vu_rd_init(void*, const std::string&) {}
void vu_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
void vu_rd_fini(void*) {}
unsigned vu_rd_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned vu_rd_get(void*) { return 20210507u; }
}
