// SRC: src/setting_file_reader/c2a_command_database.cpp
// SRC: src/utilities/endian.cpp
// MODE: bits
// BOUNDS: every argument type, any value of the argument; databases of up to three lines with up to three arguments
#include "sym.h"
#include <cstring>
#include <setting_file_reader/c2a_command_database.hpp>
using namespace s2e::setting_file_reader;
static const char* kNames[12] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double", "raw", "other"};
static const int kSize[12] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 0, 0};
// the number is written in the size of its type, most significant byte first, and nothing else is written
CHECK(argument) {
  int t = (int)sym_choose("type", 0, 11);
  uint8_t out[10];
  memset(out, 0xa5, 10);
  size_t n = 0;
  uint64_t want = 0;
  std::string text;
  if (t < 8) {
    int bits = kSize[t] * 8;
    int64_t v = t < 4 ? sym_int("value", 0, bits == 64 ? INT64_MAX : (int64_t)((1ULL << bits) - 1)) : sym_int("value", bits == 64 ? INT64_MIN : -(1LL << (bits - 1)), bits == 64 ? INT64_MAX : (1LL << (bits - 1)) - 1);
    want = (uint64_t)v;
    text = sym_texti(v);
  } else if (t == 9) {
    double v = sym_double("value", -1e6, 1e6);
    memcpy(&want, &v, 8);
    text = sym_text(v);
  } else text = t == 8 ? "-2.5" : "1";
  if (t == 8) { float f = -2.5f; uint32_t w; memcpy(&w, &f, 4); want = w; }
  DecodeC2aCommandArgument((C2aArgumentType)t, text, out + 1, n);
  sym_assert((int)n == kSize[t], "size of the argument");
  for (int i = 0; i < 10; i++) {
    int k = i - 1;
    uint8_t w = k >= 0 && k < kSize[t] ? (uint8_t)(want >> (8 * (kSize[t] - 1 - k))) : 0xa5;
    sym_assert(out[i] == w, "big-endian bytes");
  }
}
// one command per line that has a name; comments and headings are left out
CHECK(database) {
  int64_t code = sym_int("code", 0, 65535);
  int first = (int)sym_choose("type of the first argument", 0, 11), n = (int)sym_choose("arguments", 0, 3), before = (int)sym_choose("heading", 0, 3);
  std::string t;
  if (before & 1) t += "Component,Name,Target,Code,Params,,\nMOBC,,,,Num Params,Param1\n";
  if (before & 2) t += "* comment,HIDDEN,OBC,0x0001,0,,\n,,,,,\n";
  t += ",NOP,OBC," + sym_texti(code) + "," + std::to_string(n) + ",";
  for (int i = 0; i < n; i++) t += std::string(kNames[(first + i) % 12]) + ",name" + std::to_string(i) + ",";
  t += ",,\n,OTHER,OBC,0x00F3,1,double,x,,\n";
  C2aCommandDatabase d(sym_file("db.csv", t));
  C2aCommandInformation c = d.GetCommandInformation("NOP"), o = d.GetCommandInformation("OTHER"), e = d.GetCommandInformation("HIDDEN");
  sym_assert(c.GetCommandName() == "NOP" && (int64_t)c.GetCommandId() == code && (int)c.GetNumberOfArgument() == n, "command of the line");
  for (int i = 0; i < 4; i++) sym_assert((int)c.GetArgumentType(i) == (i < n ? (first + i) % 12 : 11), "argument type");
  sym_assert(o.GetCommandName() == "OTHER" && o.GetCommandId() == 0xf3 && o.GetNumberOfArgument() == 1 && o.GetArgumentType(0) == C2aArgumentType::kDouble, "the next command");
  sym_assert(e.GetCommandName() == "Error" && d.GetCommandInformation("Error").GetCommandName() == "Error", "no command from comments");
}
