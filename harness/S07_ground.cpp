// SRC: src/simulation/ground_station/ground_station.cpp src/math_physics/geodesy/geodetic_position.cpp src/dynamics/thermal/temperature.cpp src/dynamics/thermal/node.cpp src/dynamics/thermal/heater.cpp src/dynamics/thermal/heater_controller.cpp src/dynamics/thermal/heatload.cpp
// MODE: real
// BOUNDS: every value of every number in the settings of a ground station (stations 0 to 2 with one file each) and in the tables of a thermal model with two nodes, two heaters and heat loads at three times
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04); rows of the thermal tables are given as texts; the logger records copied files
// ASSUME: emissivities and absorptivities in [0, 1], positive capacities, temperatures, areas, ratings; increasing thresholds (other values are replaced by the code); table rows have the documented number of columns
#include "settings.hpp"
#include "open.hpp"
#include <cstring>
#include <dynamics/thermal/temperature.hpp>
#include <logger/logger.hpp>
#include <simulation/ground_station/ground_station.hpp>
using namespace s2e;
using st::Sec;
static std::string g_copied;
static std::vector<std::vector<std::string>> t_node, t_heater, t_load;
static double t_cij[2][2], t_rij[2][2];
namespace s2e::logger {
void Logger::CopyFileToLogDirectory(const std::filesystem::path& p) { g_copied += p.string() + ";"; }
}
namespace s2e::setting_file_reader {
void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>& o, const size_t) {
  o = file_path_ == "dir/node.csv" ? t_node : file_path_ == "dir/heaters.csv" ? t_heater : file_path_ == "dir/heatload.csv" ? t_load : std::vector<std::vector<std::string>>();
}
void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& o, const size_t n, const size_t rows, const size_t columns) {
  sym_assert(n == 2 && rows == 1 && columns == 1, "a label row and a label column");
  if (file_path_ == "dir/cij.csv") o = {{t_cij[0][0], t_cij[0][1]}, {t_cij[1][0], t_cij[1][1]}};
  if (file_path_ == "dir/rij.csv") o = {{t_rij[0][0], t_rij[0][1]}, {t_rij[1][0], t_rij[1][1]}};
}
}
CHECK(ground_station) {
  Raw<simulation::SimulationConfiguration> c;
  Raw<logger::Logger> log;
  new (&c->ground_station_file_list_) std::vector<std::string>{"a.ini", "b.ini", "c.ini"};
  c->main_logger_ = log.get();
  c->number_of_simulated_spacecraft_ = 2;
  unsigned id = (unsigned)sym_choose("station", 0, 2);
  std::string file = c->ground_station_file_list_[id];
  Sec s{file, "GROUND_STATION_" + std::to_string(id)};
  // the angle on a grid, so that sines are numbers; the height arbitrary
  s.range("height_m", -100.0, 5000.0);
  int la = (int)sym_choose("latitude", 0, 2), lo = (int)sym_choose("longitude", 0, 2);
  const double lat[] = {35.7125, -88.0, 0.0}, lon[] = {139.75, -12.5, 181.0};
  st::dv()[st::id(file, s.s, "latitude_deg")] = lat[la];
  st::dv()[st::id(file, s.s, "longitude_deg")] = lon[lo];
  ground_station::GroundStation g(&*c, id);
  const double kDeg = 3.14159265358979323846 / 180.0;
  st::eq(g.geodetic_position_.GetLatitude_rad(), lat[la] * kDeg, "latitude in radians");
  double d = (g.geodetic_position_.GetLongitude_rad() - lon[lo] * kDeg) / (2 * 3.14159265358979323846);
  sym_assert(d > -1e-9 ? (d < 1e-9 || (d > 1 - 1e-9 && d < 1 + 1e-9)) : (d > -1 - 1e-9 && d < -1 + 1e-9), "longitude in radians");
  st::eq(g.geodetic_position_.GetAltitude_m(), s.d("height_m"), "height");
  st::eq(g.GetElevationLimitAngle_deg(), s.d("elevation_limit_angle_deg"), "elevation limit");
  // position on the WGS84 ellipsoid (its constants to a few centimetres)
  double sl = std::sin(lat[la] * kDeg), cl = std::cos(lat[la] * kDeg), e2 = 2.0 / 298.257223563 - 1.0 / (298.257223563 * 298.257223563);
  double n = 6378137.0 / std::sqrt(1 - e2 * sl * sl), h = s.d("height_m");
  sym_assert_close(g.GetPosition_ecef_m()[0], (n + h) * cl * std::cos(lon[lo] * kDeg), 0.5, "position X");
  sym_assert_close(g.GetPosition_ecef_m()[1], (n + h) * cl * std::sin(lon[lo] * kDeg), 0.5, "position Y");
  sym_assert_close(g.GetPosition_ecef_m()[2], (n * (1 - e2) + h) * sl, 0.5, "position Z");
  sym_assert(!g.IsVisible(0) && !g.IsVisible(1), "nothing visible before the first update");
  sym_assert(g_copied == file + ";", "its settings are kept with the logs");
}
static double num(const char* n, double lo, double hi, std::vector<std::string>& row) { double v = sym_double(n, lo, hi); row.push_back(sym_text(v, 20)); return v; }
CHECK(thermal_model) {
  using namespace s2e::dynamics::thermal;
  const char* F = "thermal.ini";
  Sec s{F, "THERMAL"};
  s.text("thermal_file_directory", "dir/");
  double cap[2], al[2], ep[2], ar[2], nv[2][3], te[2], pw[2], lo[2], up[2], ti[3], hl[2][3];
  int type[2], heater[2] = {(int)sym_choose("heater_of_node", 0, 2), 1};
  const double normals[2][3] = {{0, 0, 2}, {-0.6, 0.8, 0}};
  t_node = {{"header"}};
  t_heater = {{"header"}};
  t_load = {{"time"}};
  for (int i = 0; i < 2; i++) {
    type[i] = (int)sym_choose("node_type", 0, 2);
    std::vector<std::string> r = {std::to_string(i), i ? "PANEL" : "BUS", std::to_string(type[i]), std::to_string(heater[i])};
    cap[i] = num("capacity", 0, 900, r); al[i] = num("alpha", 0, 1, r); ep[i] = num("epsilon", 0, 1, r); ar[i] = num("area", 0, 4, r);
    for (int j = 0; j < 3; j++) { nv[i][j] = normals[i][j]; r.push_back(i ? (j == 0 ? "-0.6" : j == 1 ? "0.8" : "0") : (j == 2 ? "2" : "0")); }
    te[i] = num("temperature", 1, 900, r);
    t_node.push_back(r);
    std::vector<std::string> q = {std::to_string(i + 1)};
    pw[i] = num("power", 0, 90, q); lo[i] = num("lower", -90, 90, q); up[i] = lo[i] + sym_double("band", 0.5, 90);
    q.push_back(sym_text(up[i], 20));
    t_heater.push_back(q);
    for (int j = 0; j < 2; j++) { t_cij[i][j] = sym_double("cij", 0, 9); t_rij[i][j] = sym_double("rij", 0, 9); }
  }
  double at = 0;
  for (int j = 0; j < 3; j++) { if (j) at += sym_double("interval", 1, 9); ti[j] = at; t_load[0].push_back(sym_text(at, 20)); }
  for (int i = 0; i < 2; i++) {
    std::vector<std::string> r = {std::to_string(i)};
    for (int j = 0; j < 3; j++) hl[i][j] = num("load", -9, 9, r);
    t_load.push_back(r);
  }
  s.set("debug ENABLE", 0);
  double step = sym_double("step", 0.0, 8.0);
  auto* srp = (environment::SolarRadiationPressureEnvironment*)0x1000;
  auto* alb = (environment::EarthAlbedo*)0x2000;
  auto* ir = (environment::EarthInfrared*)0x3000;
  Temperature* t = InitTemperature(F, step, srp, alb, ir);
  bool on = s.i("calculation ENABLE") != 0;
  sym_assert(t->is_calc_enabled_ == on, "calculated if the file says so");
  if (!on) { sym_assert(t->node_num_ == 0 && t->nodes_.empty(), "no nodes when it is not calculated"); return; }
  sym_assert((t->solar_calc_setting_ == SolarCalcSetting::kEnable) == (s.i("solar_calc_setting ENABLE") != 0), "sunlight if the file says so");
  sym_assert(t->node_num_ == 2 && t->nodes_.size() == 2 && t->heaters_.size() == 2 && t->heater_controllers_.size() == 2 && t->heatloads_.size() == 2, "a row each");
  st::eq(t->propagation_step_s_, step, "step");
  st::eq(t->propagation_time_s_, 0, "starts at zero");
  sym_assert(t->srp_environment_ == srp && t->earth_albedo_ == alb && t->earth_infrared_ == ir, "environment");
  for (int i = 0; i < 2; i++) {
    const Node& n = t->nodes_[i];
    st::eqi((int64_t)n.node_id_, i, "node identifier");
    sym_assert(n.node_name_ == (i ? "PANEL" : "BUS"), "node name");
    sym_assert(n.node_type_ == (type[i] == 0 ? NodeType::kDiffusive : type[i] == 1 ? NodeType::kBoundary : NodeType::kArithmetic), "node type");
    st::eqi((int64_t)n.heater_id_, heater[i], "heater of the node");
    st::eq(n.capacity_J_K_, cap[i], "capacity");
    st::eq(n.alpha_, al[i], "absorptivity");
    st::eq(n.epsilon_, ep[i], "emissivity");
    st::eq(n.area_m2_, ar[i], "area");
    st::eq(n.temperature_K_, te[i], "initial temperature");
    double k = type[i] == 0 && i == 0 ? 0.5 : 1.0;  // the normal of a diffusive node is brought to unit length
    for (int j = 0; j < 3; j++) st::eq(n.normal_vector_b_[j], k * nv[i][j], "normal");
    const Heater& h = t->heaters_[i];
    st::eqi((int64_t)h.heater_id_, i + 1, "heater identifier");
    st::eq(h.power_rating_W_, pw[i], "heater power");
    sym_assert(h.heater_status_ == HeaterStatus::kOff, "heaters start switched off");
    const HeaterController& c = t->heater_controllers_[i];
    st::eq(c.lower_threshold_degC_, lo[i], "lower threshold");
    st::eq(c.upper_threshold_degC_, up[i], "upper threshold");
    const Heatload& l = t->heatloads_[i];
    st::eqi(l.node_id_, i, "node of the heat load");
    sym_assert(l.time_table_s_.size() == 3 && l.internal_heatload_table_W_.size() == 3, "three times");
    for (int j = 0; j < 3; j++) { st::eq(l.time_table_s_[j], ti[j], "times of the heat loads"); st::eq(l.internal_heatload_table_W_[j], hl[i][j], "heat loads"); }
    st::eq(l.time_table_period_s_, ti[2], "period of the table");
    for (int j = 0; j < 2; j++) { st::eq(t->conductance_matrix_W_K_[i][j], t_cij[i][j], "conductances"); st::eq(t->radiation_matrix_m2_[i][j], t_rij[i][j], "radiative couplings"); }
  }
}
