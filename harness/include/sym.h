// Harness API. Under the symbolic engine these are intrinsics; natively (sym_native.cpp) they read recorded inputs.
#pragma once
#include <stdint.h>
extern "C" {
double sym_double(const char* name, double lo, double hi);            // arbitrary double in [lo,hi]
void sym_unit(const char* name, int n, double* out);                   // arbitrary unit n-vector
int64_t sym_int(const char* name, int64_t lo, int64_t hi);            // arbitrary integer in [lo,hi]
int64_t sym_choose(const char* name, int64_t lo, int64_t hi);         // all integers in [lo,hi], one path each
void sym_assume(bool c);
void sym_assert(bool c, const char* label);
void sym_assert_close(double a, double b, double tol, const char* label);  // |a-b| <= tol
void sym_assert_le(double a, double b, const char* label);            // a <= b
void sym_reach(const char* label);                                    // vacuity witness
bool sym_symbolic();
bool sym_finite(double v);
void sym_exit_ok();                                                    // the program may exit() from here on
void sym_end();
void sym_file_(const char* name, const char* text, uint64_t n, char* path);
void sym_text_d_(double v, int width, char* out);
void sym_text_i_(int64_t v, int width, char* out);
}
#ifdef __cplusplus
#include <string>
// a readable file with this text; returns its path
inline std::string sym_file(const char* name, const std::string& text) { char p[256]; sym_file_(name, text.data(), text.size(), p); return p; }
// a number as text, right-aligned to the width (natively with as many digits as fit, at least 1)
inline std::string sym_text(double v, int width = 0) { char p[64]; sym_text_d_(v, width, p); return p; }
inline std::string sym_texti(int64_t v, int width = 0) { char p[64]; sym_text_i_(v, width, p); return p; }
#endif
#define CHECK(name) extern "C" void chk_##name()
#define THOROUGH(name) extern "C" void thr_##name()
