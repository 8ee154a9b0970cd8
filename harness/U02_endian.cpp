// SRC: src/utilities/endian.cpp src/setting_file_reader/c2a_command_database.cpp
// MODE: bits
// BOUNDS: every byte string of up to 9 bytes; every value of each C2A argument type, the text-to-number conversion of the C++ library replaced by the symbolic number
// STUBS: std::stoul, std::stoi, std::stol, std::stof and std::stod return the symbolic number
// OVERRIDE: C++ library text-to-number conversions
#include "util.hpp"
#include <setting_file_reader/c2a_command_database.hpp>
#include <utilities/endian.hpp>
#include <cstring>
#include <string>
using namespace s2e;
using setting_file_reader::C2aArgumentType;
static unsigned long g_u; static long g_i; static double g_d; static float g_f;
extern "C" {
#define STR "RKNS_12basic_stringIcSt11char_traitsIcESaIcEEE"
unsigned long vu_stoul(const std::string& s, size_t*, int) __asm__("_ZNSt7__cxx115stoulE" STR "Pmi");
unsigned long vu_stoul(const std::string& s, size_t*, int) { return g_u; }
int vu_stoi(const std::string& s, size_t*, int) __asm__("_ZNSt7__cxx114stoiE" STR "Pmi");
int vu_stoi(const std::string& s, size_t*, int) { return (int)g_i; }
long vu_stol(const std::string& s, size_t*, int) __asm__("_ZNSt7__cxx114stolE" STR "Pmi");
long vu_stol(const std::string& s, size_t*, int) { return g_i; }
float vu_stof(const std::string& s, size_t*) __asm__("_ZNSt7__cxx114stofE" STR "Pm");
float vu_stof(const std::string& s, size_t*) { return g_f; }
double vu_stod(const std::string& s, size_t*) __asm__("_ZNSt7__cxx114stodE" STR "Pm");
double vu_stod(const std::string& s, size_t*) { return g_d; }
}
CHECK(endian_copy) {
  uint8_t s[12], d[12];
  for (int i = 0; i < 12; i++) { s[i] = (uint8_t)sym_int("byte", 0, 255); d[i] = 0xa5; }
  int n = (int)sym_choose("size", 0, 9);
  void* r = utilities::endian_memcpy(d + 1, s, n);
  sym_assert(r == d + 1, "returns the destination");
  for (int i = 0; i < n; i++) sym_assert(d[1 + i] == s[n - 1 - i], "bytes are copied in big-endian order");
  sym_assert(d[0] == 0xa5, "byte before the destination is untouched");
  for (int i = n + 1; i < 12; i++) sym_assert(d[i] == 0xa5, "bytes after the destination are untouched");
}
// big-endian value of the decoded bytes
static unsigned long be(const uint8_t* p, int n) { unsigned long v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static void decode(C2aArgumentType t, int size, uint8_t* p) {
  for (int i = 0; i < 16; i++) p[i] = 0x5a;
  size_t n = 99;
  setting_file_reader::DecodeC2aCommandArgument(t, "1", p, n);
  sym_assert(n == (size_t)size, "argument size");
  for (int i = size; i < 16; i++) sym_assert(p[i] == 0x5a, "nothing beyond the argument is written");
}
CHECK(arguments_unsigned) {
  uint8_t p[16];
  int k = (int)sym_choose("type", 0, 3);
  int n = 1 << k;
  C2aArgumentType t[4] = {C2aArgumentType::kUint8t, C2aArgumentType::kUint16t, C2aArgumentType::kUint32t, C2aArgumentType::kUint64t};
  g_u = (unsigned long)sym_int("value", INT64_MIN, INT64_MAX);
  if (k < 3) sym_assume(g_u < (1ul << (8 * n)));
  decode(t[k], n, p);
  sym_assert(be(p, n) == g_u, "unsigned argument in big-endian order");
}
CHECK(arguments_signed) {
  uint8_t p[16];
  int k = (int)sym_choose("type", 0, 3);
  int n = 1 << k;
  C2aArgumentType t[4] = {C2aArgumentType::kInt8t, C2aArgumentType::kInt16t, C2aArgumentType::kInt32t, C2aArgumentType::kInt64t};
  long lim = k < 3 ? 1l << (8 * n - 1) : 0;
  g_i = k < 3 ? sym_int("value", -lim, lim - 1) : sym_int("value64", INT64_MIN, INT64_MAX);
  decode(t[k], n, p);
  long v = (long)(be(p, n) << (64 - 8 * n)) >> (64 - 8 * n);
  sym_assert(v == g_i, "signed argument in big-endian two's complement");
}
CHECK(arguments_float) {
  uint8_t p[16];
  uint32_t w = (uint32_t)sym_int("float_bits", 0, 0xffffffffl);
  sym_assume((w & 0x7f800000u) != 0x7f800000u);
  memcpy(&g_f, &w, 4);
  decode(C2aArgumentType::kFloat, 4, p);
  sym_assert(be(p, 4) == w, "float argument in big-endian order");
  g_d = sym_double("double", -1e300, 1e300);
  unsigned long b;
  memcpy(&b, &g_d, 8);
  decode(C2aArgumentType::kDouble, 8, p);
  sym_assert(be(p, 8) == b, "double argument in big-endian order");
}
