// SRC: src/simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.cpp
// MODE: real
// BOUNDS: any numbers in the settings; every randomization type; two parameters
// STUBS: setting file access
// OVERRIDE: seeding of the standard library's generator
#include <random>
template <>
void std::mt19937::seed(result_type) {}
#include "ini.hpp"
#include "util.hpp"
#include <cstring>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
using namespace s2e;
using namespace s2e::simulation;
using math::Vector;
using P = InitializedMonteCarloParameters;
static const char* kNames[11] = {"NoRandomization", "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform", "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal", "NULL", "cartesianuniform"};
static const P::RandomizationType kTypes[11] = {P::kNoRandomization, P::kCartesianUniform, P::kCartesianNormal, P::kCircularNormalUniform, P::kCircularNormalNormal, P::kSphericalNormalUniformUniform, P::kSphericalNormalNormal, P::kQuaternionUniform, P::kQuaternionNormal, P::kNoRandomization, P::kNoRandomization};
static int g_type, g_n, g_bad;
static bool g_on, g_log;
static double g_v[12];
namespace s2e::setting_file_reader {
double IniAccess::ReadDouble(const char* s, const char* k) {
  if (strcmp(s, "MONTE_CARLO_RANDOMIZATION")) g_bad = 1;
  for (int p = 0; p < 2; p++) for (int w = 0; w < 2; w++) for (int i = 0; i < 3; i++)
    if (std::string(k) == std::string(p ? "two.initial.value" : "one.rate") + (w ? ".sigma_or_max(" : ".mean_or_min(") + std::to_string(i) + ")") return g_v[p * 6 + w * 3 + i];
  g_bad = 2;
  return 0;
}
int IniAccess::ReadInt(const char* s, const char* k) { if (strcmp(s, "MONTE_CARLO_EXECUTION") || strcmp(k, "number_of_executions")) g_bad = 3; return g_n; }
bool IniAccess::ReadEnable(const char* s, const char* k) {
  if (strcmp(s, "MONTE_CARLO_EXECUTION")) g_bad = 4;
  return strcmp(k, "log_enable") ? g_on : g_log;
}
void IniAccess::ReadChar(const char* s, const char* k, const int n, char* d) {
  bool first = !strcmp(k, "one.rate.randomization_type");
  if (!first && strcmp(k, "two.initial.value.randomization_type")) g_bad = 5;
  strncpy(d, first ? kNames[g_type] : "QuaternionNormal", n);
}
std::vector<std::string> IniAccess::ReadStrVector(const char* s, const char* k) { if (strcmp(k, "parameter")) g_bad = 6; return {"one.rate", "two.initial.value"}; }
}  // namespace s2e::setting_file_reader
CHECK(settings) {
  g_n = (int)sym_int("executions", 0, 2147483647);
  g_on = sym_choose("enable", 0, 1);
  g_log = sym_choose("log", 0, 1);
  g_type = (int)sym_choose("type", 0, 10);
  for (double& v : g_v) v = sym_double("value", -10, 10);
  MonteCarloSimulationExecutor* e = InitMonteCarloSimulation("mc.ini");
  sym_assert(!g_bad, "keys of the settings");
  sym_assert(e->IsEnabled() == g_on && (long)e->GetTotalNumberOfExecutions() == g_n && e->GetNumberOfExecutionsDone() == 0 && e->GetSaveLogHistoryFlag() == (!g_on || g_log), "execution settings");
  sym_assert(e->init_parameter_list_.size() == 2, "every parameter");
  P* p[2] = {e->init_parameter_list_.at("one.rate"), e->init_parameter_list_.at("two.initial")};
  sym_assert(p[0]->randomization_type_ == kTypes[g_type] && p[1]->randomization_type_ == P::kQuaternionNormal, "type");
  for (int q = 0; q < 2; q++) {
    sym_assert(p[q]->mean_or_min_.size() == 3 && p[q]->sigma_or_max_.size() == 3, "three values");
    for (int i = 0; i < 3; i++) { sym_assert_close(p[q]->mean_or_min_[i], g_v[q * 6 + i], 0, "mean or minimum"); sym_assert_close(p[q]->sigma_or_max_[i], g_v[q * 6 + 3 + i], 0, "deviation or maximum"); }
  }
}
