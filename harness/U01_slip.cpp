// SRC: src/utilities/slip.cpp
// MODE: bits
// BOUNDS: every payload of up to 5 bytes and every received byte string of up to 5 bytes (thorough: 7)
#include "util.hpp"
#include <utilities/slip.hpp>
#include <vector>
using namespace s2e::utilities;
typedef std::vector<uint8_t> Bytes;
static uint8_t any_byte(const char* n) { return (uint8_t)sym_int(n, 0, 255); }
static Bytes any_bytes(int nmax) {
  int n = (int)sym_choose("length", 0, nmax);
  Bytes b;
  for (int i = 0; i < n; i++) b.push_back(any_byte("byte"));
  return b;
}
// reference encoder (RFC 1055)
static Bytes ref_encode(const Bytes& in) {
  Bytes r;
  for (size_t i = 0; i < in.size(); i++) {
    if (in[i] == 0xc0) { r.push_back(0xdb); r.push_back(0xdc); }
    else if (in[i] == 0xdb) { r.push_back(0xdb); r.push_back(0xdd); }
    else r.push_back(in[i]);
  }
  return r;
}
static bool same(const Bytes& a, const Bytes& b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
  return ok;
}
static void round_trip(int n) {
  Bytes p = any_bytes(n);
  Bytes e = encode_slip(p);
  Bytes r = ref_encode(p);
  r.push_back(0xc0);
  sym_assert(same(e, r), "encoded frame is the escaped payload followed by one FEND");
  sym_assert(same(decode_slip(e), p), "decoding an encoded payload gives it back");
  Bytes h = encode_slip_with_header(p);
  sym_assert(h.size() == e.size() + 1 && h[0] == 0xc0, "header variant starts with FEND");
  h.erase(h.begin());
  sym_assert(same(h, e), "header variant continues with the plain frame");
}
static void round_trip_header(int n) {
  Bytes p = any_bytes(n);
  sym_assert(same(decode_slip_with_header(encode_slip_with_header(p)), p), "decoding a frame with header gives the payload back");
}
// frames followed by other data: only the first frame is decoded
static void trailing(int n, int m) {
  Bytes p = any_bytes(n);
  Bytes e = encode_slip(p);
  int k = (int)sym_choose("following", 0, m);
  for (int i = 0; i < k; i++) e.push_back(any_byte("next"));
  sym_assert(same(decode_slip(e), p), "bytes after the frame end are ignored");
}
// arbitrary received bytes: no access outside the buffers, no growth, nothing after the first FEND
static void arbitrary(int n) {
  Bytes in = any_bytes(n);
  Bytes d = decode_slip(in);
  size_t end = 0;
  while (end < in.size() && in[end] != 0xc0) end++;
  sym_assert(d.size() <= end, "decoded data is no longer than the frame body");
  Bytes esc(in.begin(), in.begin() + end);
  bool has_esc = false;
  for (size_t i = 0; i < end; i++) has_esc |= in[i] == 0xdb;
  if (!has_esc) sym_assert(same(d, esc), "a body without escapes is returned as it is");
  // decoding with a header drops exactly the first byte
  Bytes h = decode_slip_with_header(in);
  Bytes tail;
  if (in.size() > 0) tail.assign(in.begin() + 1, in.end());
  sym_assert(same(h, decode_slip(tail)), "header variant drops one byte");
}
CHECK(encode_decode) { round_trip(5); }
CHECK(encode_decode_header) { round_trip_header(4); }
CHECK(frame_with_following_data) { trailing(2, 2); }
CHECK(decode_arbitrary) { arbitrary(4); }
THOROUGH(encode_decode_t) { round_trip(7); }
THOROUGH(decode_arbitrary_t) { arbitrary(6); }
