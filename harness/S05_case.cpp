// SRC: src/simulation/case/simulation_case.cpp
// SRC: src/environment/global/global_environment.cpp
// SRC: src/logger/logger.cpp
// MODE: real
// BOUNDS: up to four steps with any pattern of log output, three loggables with any of them enabled; any number of spacecraft and ground stations
// STUBS: setting file access, initialisation and update of simulation time, celestial information and GNSS satellites (recorded)
// DELETE: _ZN3s2e6logger6LoggerC[12] _ZN3s2e6logger6Logger(15CreateDirectory|22CopyFileToLogDirectory)
#include "ini.hpp"
#include "util.hpp"
#include "open.hpp"
#include <cstring>
#include <fstream>
#include <sstream>
#include <logger/initialize_log.hpp>
#include <simulation/case/simulation_case.hpp>
using namespace s2e;
using namespace s2e::environment;
static std::vector<std::string> g_ev;
static std::string g_log;
static int g_step, g_steps, g_n[2], g_bad;
static bool g_out[6];
static SimulationTime* g_time;
static CelestialInformation* g_cel;
static GnssSatellites* g_gnss;
static void note(const std::string& s) { g_ev.push_back(s); }
namespace s2e::setting_file_reader {
static void sec(const char* s) { if (strcmp(s, "SIMULATION_SETTINGS")) g_bad = 1; }
int IniAccess::ReadInt(const char* s, const char* k) { sec(s); if (!strcmp(k, "number_of_simulated_spacecraft")) return g_n[0]; if (!strcmp(k, "number_of_simulated_ground_station")) return g_n[1]; g_bad = 2; return 0; }
std::vector<std::string> IniAccess::ReadStrVector(const char* s, const char* k) { sec(s); if (!strcmp(k, "spacecraft_file")) return {"sat0.ini", "sat1.ini"}; if (!strcmp(k, "ground_station_file")) return {"gs0.ini"}; g_bad = 3; return {}; }
std::string IniAccess::ReadString(const char* s, const char* k) { sec(s); if (!strcmp(k, "inter_sat_comm_file")) return "isc.ini"; if (!strcmp(k, "gnss_file")) return "gnss.ini"; g_bad = 4; return ""; }
bool IniAccess::ReadEnable(const char*, const char*) { return false; }
}  // namespace s2e::setting_file_reader
namespace s2e::logger {
Logger* InitLog(std::string f) {
  if (f != "base.ini") g_bad = 5;
  Logger* l = (Logger*)calloc(1, sizeof(Logger));
  new (&l->csv_file_) std::ofstream(g_log.c_str());
  new (&l->log_list_) std::vector<ILoggable*>();
  new (&l->directory_path_) std::filesystem::path();
  l->is_enabled_ = l->is_file_opened_ = true;
  return l;
}
}  // namespace s2e::logger
static void state() {
  g_time->state_.finish = g_step >= g_steps;
  g_time->state_.log_output = g_out[g_step];
  g_time->state_.disp_output = false;
}
namespace s2e::environment {
static Raw<SimulationTime> s_time;
static Raw<CelestialInformation> s_cel;
SimulationTime* InitSimulationTime(std::string f) { if (f != "base.ini") g_bad = 6; note("init time"); g_time = s_time.get(); state(); return g_time; }
CelestialInformation* InitCelestialInformation(std::string f) { if (f != "base.ini") g_bad = 7; note("init celestial"); g_cel = s_cel.get(); return g_cel; }
HipparcosCatalogue* InitHipparcosCatalogue(std::string f) { if (f != "base.ini") g_bad = 8; note("init stars"); return nullptr; }
GnssSatellites* InitGnssSatellites(const std::string f, const EarthRotation& e, const SimulationTime& t) {
  if (f != "gnss.ini" || &t != g_time || &e != g_cel->earth_rotation_) g_bad = 9;
  note("init gnss");
  g_gnss = (GnssSatellites*)calloc(1, sizeof(GnssSatellites));
  return g_gnss;
}
SimulationTime::~SimulationTime() {}
CelestialInformation::~CelestialInformation() {}
std::string SimulationTime::GetLogHeader() const { return "t,"; }
std::string SimulationTime::GetLogValue() const { return "T,"; }
std::string CelestialInformation::GetLogHeader() const { return "c,"; }
std::string CelestialInformation::GetLogValue() const { return "C,"; }
std::string GnssSatellites::GetLogHeader() const { return "g,"; }
std::string GnssSatellites::GetLogValue() const { return "G,"; }
void SimulationTime::UpdateTime() { note("time"); g_step++; state(); }
void SimulationTime::ResetClock() { note("reset"); }
void SimulationTime::PrintStartDateTime() const {}
void CelestialInformation::UpdateAllObjectsInformation(const SimulationTime& t) { if (&t != g_time) g_bad = 10; note("celestial"); }
void GnssSatellites::Update(const SimulationTime& t) { if (&t != g_time) g_bad = 11; note("gnss"); }
}  // namespace s2e::environment
struct Log : logger::ILoggable {
  std::string n;
  Log(std::string m, bool on) : n(m) { is_log_enabled_ = on; }
  std::string GetLogHeader() const override { return "h" + n + ","; }
  std::string GetLogValue() const override { return n + ",,"; }
};
struct Case : simulation::SimulationCase {
  std::vector<Log*> l;
  Case() : SimulationCase("base.ini") {}
  void InitializeTargetObjects() override { note("init targets"); for (Log* i : l) simulation_configuration_.main_logger_->AddLogList(i); }
  void UpdateTargetObjects() override { note("targets"); }
};
static std::string file() {
  std::ifstream f(g_log);
  std::string all, line;
  while (std::getline(f, line)) all += line + "\n";
  return all;
}
static Case* make() {
  g_log = sym_file("log.csv", "");
  g_n[0] = (int)sym_int("spacecraft", 0, 1000); g_n[1] = (int)sym_int("stations", 0, 1000);
  return new Case();
}
CHECK(configuration) {
  Case* c = make();
  simulation::SimulationConfiguration& s = c->GetSimulationConfiguration();
  sym_assert(!g_bad, "files and objects");
  sym_assert((int)s.number_of_simulated_spacecraft_ == g_n[0] && (int)s.number_of_simulated_ground_station_ == g_n[1] && s.spacecraft_file_list_.size() == 2 && s.spacecraft_file_list_[1] == "sat1.ini" && s.ground_station_file_list_.size() == 1 && s.inter_sc_communication_file_ == "isc.ini" && s.gnss_file_ == "gnss.ini" && s.initialize_base_file_name_ == "base.ini", "settings");
  sym_assert(c->global_environment_->simulation_time_ == g_time && c->global_environment_->celestial_information_ == g_cel && c->global_environment_->gnss_satellites_ == g_gnss, "environment");
  sym_assert(g_ev.back() == "celestial" && g_ev.size() == 5, "initial celestial state");
  std::vector<logger::ILoggable*>& l = s.main_logger_->log_list_;
  sym_assert(l.size() == 3 && l[0] == g_time && l[1] == g_cel && l[2] == g_gnss, "environment is logged");
}
// each step: log when flagged, then time, celestial bodies, GNSS satellites, and the targets last; until the end of the simulation
CHECK(run) {
  Case* c = make();
  c->simulation_configuration_.main_logger_->ClearLogList();  // the environment has no table of virtual functions here
  g_steps = (int)sym_choose("steps", 0, 4);
  bool on[3];
  for (int i = 0; i < 3; i++) { on[i] = sym_int("enabled", 0, 1) != 0; c->l.push_back(new Log(std::string(1, (char)('a' + i)), on[i])); }
  for (int i = 0; i < g_steps; i++) g_out[i] = sym_int("log output", 0, 1) != 0;
  g_out[g_steps] = true;
  state();
  g_ev.clear();
  c->Initialize();
  sym_assert(g_ev.size() == 1 && g_ev[0] == "init targets", "targets are initialised");
  g_ev.clear();
  c->Main();
  std::vector<std::string> want{"reset"};
  std::string text, row;
  for (int i = 0; i < 3; i++) if (on[i]) text += std::string("h") + (char)('a' + i) + ",";
  text += "\n";
  for (int k = 0; k < g_steps; k++) {
    for (const char* e : {"time", "celestial", "gnss", "targets"}) want.push_back(e);
    if (g_out[k]) { for (int i = 0; i < 3; i++) if (on[i]) text += std::string(1, (char)('a' + i)) + ",,"; text += "\n"; }
  }
  sym_assert(g_ev == want, "order of the updates");
  c->simulation_configuration_.main_logger_->csv_file_.close();
  sym_assert(file() == text, "log file");
}
// the values are those before the step: a row is written before the time moves on
struct Step : logger::ILoggable {
  Step() { is_log_enabled_ = true; }
  std::string GetLogHeader() const override { return "step,"; }
  std::string GetLogValue() const override { return std::to_string(g_step) + ","; }
};
CHECK(rows) {
  Case* c = make();
  logger::Logger* l = c->simulation_configuration_.main_logger_;
  l->ClearLogList();
  l->AddLogList(new Step());
  g_steps = (int)sym_choose("steps", 0, 4);
  bool enabled = sym_int("logger enabled", 0, 1) != 0;
  l->Enable(enabled);
  std::string text = enabled ? "step,\n" : "";
  for (int i = 0; i < g_steps; i++) { g_out[i] = sym_int("log output", 0, 1) != 0; if (g_out[i] && enabled) text += std::to_string(i) + ",\n"; }
  state();
  c->Initialize();
  c->Main();
  l->csv_file_.close();
  sym_assert(file() == text, "rows of the log");
}
