// SRC: src/components/real/communication/wings_command_sender_to_c2a.cpp
// SRC: src/setting_file_reader/wings_operation_file.cpp
// MODE: real
// OPT: max_paths=6000
// BOUNDS: operation files of four lines, each of eleven kinds; one wait of any length up to four steps
// STUBS: setting file access; the analysed command is recorded instead of being sent to C2A
// OVERRIDE: WingsCommandSenderToC2a::AnalyzeC2aCommand records its tokens (without C2A it does nothing)
#include "ini.hpp"
#include "util.hpp"
#include "open.hpp"
#include <components/real/communication/wings_command_sender_to_c2a.hpp>
using namespace s2e;
using namespace s2e::components;
static std::vector<std::vector<std::string>> g_sent;
namespace s2e::components {
void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> tokens) { g_sent.push_back(tokens); }
}  // namespace s2e::components
static const char* kLines[] = {"", "# comment", ".#", ".    # comment", ".MOBC_RT.NOP", " MOBC_RT.SET 1 0x2", ". MOBC_TL.SET 5 7 # now", "let x = 3", "check_value a", "    ", ".wait_sec 0"};
static const std::vector<std::vector<std::string>> kSent[] = {{}, {}, {}, {}, {{"MOBC_RT.NOP"}}, {{"MOBC_RT.SET", "1", "0x2"}}, {{"MOBC_TL.SET", "5", "7"}}, {}, {}, {}, {}};
static WingsCommandSenderToC2a* make(const std::string& text, bool on, double step) {
  return new WingsCommandSenderToC2a(1, new environment::ClockGenerator(), step, sym_file("db.csv", ""), sym_file("a.ops", text), on);
}
// every command of the file is sent once, in the order of the file, whatever else the file contains
CHECK(commands) {
  std::string t;
  std::vector<std::vector<std::string>> want;
  bool on = sym_choose("enabled", 0, 1);
  for (int i = 0; i < 3; i++) {
    int k = (int)sym_choose("line", 0, 10);
    t += std::string(kLines[k]) + (i < 2 ? "\n" : "");
    for (auto& s : kSent[k]) if (on) want.push_back(s);
  }
  WingsCommandSenderToC2a* w = make(t, on, 1.0);
  for (int i = 0; i < 8; i++) { size_t before = g_sent.size(); w->MainRoutine(i); sym_assert(g_sent.size() <= before + 1, "one line at a time"); }
  sym_assert(g_sent == want, "commands in the order of the file");
}
// the command after a wait is sent when the time has passed: not before, and within two steps
CHECK(wait) {
  double step = 0.25, wait = sym_double("wait", 0, 1);
  WingsCommandSenderToC2a* w = make(".wait_sec " + sym_text(wait) + "\n.MOBC_RT.NOP\n", true, step);
  int sent = -1;
  for (int i = 0; i < 9; i++) { w->MainRoutine(i); if (sent < 0 && !g_sent.empty()) sent = i; }
  sym_assert(g_sent.size() == 1 && sent > 0, "sent once");
  sym_assert(sent * step >= wait - 1e-9 && (sent - 2) * step <= wait + 1e-9, "waits for the time");
}
