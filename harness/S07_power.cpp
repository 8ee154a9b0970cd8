// SRC: src/components/real/power/solar_array_panel.cpp src/components/real/power/battery.cpp src/components/real/power/pcu_initial_study.cpp src/components/real/power/csv_scenario_interface.cpp src/components/real/mission/telescope.cpp src/components/real/communication/antenna.cpp src/components/real/communication/antenna_radiation_pattern.cpp src/components/real/communication/ground_station_calculator.cpp src/components/base/component.cpp
// MODE: real
// BOUNDS: every value of every number in the settings section; prescalers 0 to 3; identifiers 0 and 12; discharge curves of order 0 to 2; gain tables of 2 x 2 values; a power scenario of up to three lines
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04)
// ASSUME: quaternions and the panel normal in the settings have unit norm; field of view below 90 degrees (asserted by the constructor)
#include "settings.hpp"
#include "open.hpp"
#include <environment/global/clock_generator.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/communication/antenna.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <simulation/ground_station/ground_station.hpp>
using namespace s2e;
using namespace s2e::components;
using st::Sec;
static const char* F = "component.ini";
static const double kDeg = 3.14159265358979323846 / 180.0;
static int any_id() { return sym_choose("identifier", 0, 1) ? 12 : 0; }
static int presc(const Sec& s) { int p = s.i("prescaler"); return p <= 1 ? 1 : p; }
static Sec sec(const char* name, int id) { Sec s{F, name + std::to_string(id)}; s.range("prescaler", 0, 3); return s; }

CHECK(solar_array_panel) {
  environment::ClockGenerator clk;
  int id = any_id();
  bool celes = sym_choose("with_celestial_information", 0, 1) != 0;
  Sec s = sec("SOLAR_ARRAY_PANEL_", id);
  st::unit3(s, "normal_vector_b");
  auto* srp = (environment::SolarRadiationPressureEnvironment*)0x1000;
  auto* lc = (environment::LocalCelestialInformation*)0x2000;
  double step = sym_double("component_step", 0.0, 1.0);
  SolarArrayPanel c = celes ? InitSAP(&clk, id, F, srp, lc, step) : InitSAP(&clk, id, F, srp, step);
  sym_assert(c.prescaler_ == (unsigned)presc(s) && c.clock_generator_ == &clk, "update period");
  st::eqi(c.component_id_, id, "identifier");
  st::eqi(c.number_of_series_, s.i("number_of_series"), "cells in series");
  st::eqi(c.number_of_parallel_, s.i("number_of_parallel"), "cells in parallel");
  st::eq(c.cell_area_m2_, s.d("cell_area_m2"), "cell area");
  st::eqv(c.normal_vector_, s, "normal_vector_b", "panel normal");
  st::eq(c.cell_efficiency_, s.d("cell_efficiency"), "cell efficiency");
  st::eq(c.transmission_efficiency_, s.d("transmission_efficiency"), "transmission efficiency");
  st::eq(c.compo_step_time_s_, step, "component step");
  sym_assert(c.srp_environment_ == srp, "radiation environment");
  if (celes) sym_assert(c.local_celestial_information_ == lc, "celestial information");
}
CHECK(battery) {
  environment::ClockGenerator clk;
  int id = any_id(), order = (int)sym_choose("order", 0, 2);
  Sec s = sec("BATTERY_", id);
  s.set("approximation_order", order);
  s.set("number_of_series", (int)sym_choose("series", 1, 3));
  s.set("number_of_parallel", (int)sym_choose("parallel", 1, 3));
  s.range("cell_capacity_Ah", 0.5, 8.0);
  double step = sym_double("component_step", 0.0, 1.0);
  Battery c = InitBAT(&clk, id, F, step);
  sym_assert(c.prescaler_ == (unsigned)presc(s) && c.clock_generator_ == &clk, "update period");
  st::eqi(c.number_of_series_, s.i("number_of_series"), "cells in series");
  st::eqi(c.number_of_parallel_, s.i("number_of_parallel"), "cells in parallel");
  st::eq(c.cell_capacity_Ah_, s.d("cell_capacity_Ah"), "cell capacity");
  st::eqi((int64_t)c.cell_discharge_curve_coefficients_.size(), order + 1, "terms of the discharge curve");
  double dod = s.d("initial_dod"), ah = dod / 100.0 * s.d("cell_capacity_Ah"), v = 0, p = 1;
  for (int i = 0; i <= order; i++) {
    st::eq(c.cell_discharge_curve_coefficients_[i], s.d("cell_discharge_curve_coefficients", i), "discharge curve");
    v += p * s.d("cell_discharge_curve_coefficients", i);
    p *= ah;
  }
  st::eq(c.depth_of_discharge_percent_, dod, "initial depth of discharge");
  st::eq(c.GetCcChargeCurrent_C(), s.d("constant_charge_current_rate_C") * s.d("cell_capacity_Ah") * s.i("number_of_parallel"), "constant charging current");
  st::eq(c.GetCvChargeVoltage_V(), s.d("constant_voltage_charge_voltage_V"), "constant charging voltage");
  st::eq(c.GetResistance_Ohm(), s.d("battery_resistance_Ohm"), "resistance");
  st::eq(c.compo_step_time_s_, step, "component step");
  sym_assert_close(c.GetVoltage_V(), v * s.i("number_of_series"), 1e-6, "initial voltage of the whole battery");
}
CHECK(power_control_unit_of_the_initial_study) {
  environment::ClockGenerator clk;
  int id = any_id();
  Sec s = sec("PCU_INITIAL_STUDY_", id);
  Raw<Battery> b;
  std::vector<SolarArrayPanel*> saps = {(SolarArrayPanel*)0x1000, (SolarArrayPanel*)0x2000};
  double step = sym_double("component_step", 0.0, 1.0);
  PcuInitialStudy c = InitPCU_InitialStudy(&clk, id, F, saps, &*b, step);
  sym_assert(c.prescaler_ == (unsigned)presc(s) && c.clock_generator_ == &clk, "update period");
  sym_assert(c.saps_ == saps, "panels");
  sym_assert(c.battery_ == &*b, "battery");
  st::eq(c.compo_step_time_s_, step, "component step");
}
CHECK(power_scenario_file) {
  // time, sun direction (3), sun flag, consumption
  int n = (int)sym_choose("lines", 1, 3);
  double t[3], v[3][5];
  std::string text = "time,x,y,z,flag,power\n";
  double at = 0;
  for (int i = 0; i < n; i++) {
    at += sym_double("time_step", 0.5, 10.0);
    t[i] = at;
    text += sym_text(at, 20);
    for (int j = 0; j < 5; j++) {
      v[i][j] = j == 3 ? (double)sym_choose("flag", 0, 1) : sym_double("value", -4.0, 4.0);
      text += ", " + (j == 3 ? std::string(v[i][j] != 0 ? "1" : "0") : sym_text(v[i][j], 20));
    }
    text += "\n";
  }
  Sec s{F, "SCENARIO"};
  s.text("csv_path", sym_file("scenario.csv", text.c_str()));
  CsvScenarioInterface::Initialize(F);
  sym_assert(CsvScenarioInterface::IsCsvScenarioEnabled() == (s.i("is_csv_scenario_enabled") != 0), "enabled by the setting");
  double q = sym_double("query", 0.0, 40.0);
  int k = -1;
  for (int i = 0; i < n; i++) if (t[i] <= q) k = i;  // the last line at or before the time asked for; nothing before the first
  auto d = CsvScenarioInterface::GetSunDirectionBody(q);
  for (int j = 0; j < 3; j++) st::eq(d[j], k < 0 ? 0 : v[k][j], "sun direction");
  sym_assert(CsvScenarioInterface::GetSunFlag(q) == (k >= 0 && v[k][3] != 0), "sun flag");
  st::eq(CsvScenarioInterface::GetPowerConsumption(q), k < 0 ? 0 : v[k][4], "consumption");
}
CHECK(telescope) {
  environment::ClockGenerator clk;
  int id = any_id(), n = (int)sym_choose("stars", 0, 3);
  Sec s{F, "TELESCOPE_" + std::to_string(id)};
  st::unit4(s, "quaternion_b2c");
  s.set("number_of_stars_for_log", n);
  s.range("x_number_of_pixel", 3, 4);
  s.range("y_number_of_pixel", 5, 6);
  s.range("x_fov_deg_per_pixel", 0.0, 10.0);
  s.range("y_fov_deg_per_pixel", 0.0, 10.0);
  auto* att = (dynamics::attitude::Attitude*)0x1000;
  auto* hip = (environment::HipparcosCatalogue*)0x2000;
  auto* lc = (environment::LocalCelestialInformation*)0x3000;
  Telescope c = InitTelescope(&clk, id, F, att, hip, lc, nullptr);
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  st::eq(c.sun_forbidden_angle_rad_, s.d("sun_exclusion_angle_deg") * kDeg, "sun exclusion");
  st::eq(c.earth_forbidden_angle_rad_, s.d("earth_exclusion_angle_deg") * kDeg, "earth exclusion");
  st::eq(c.moon_forbidden_angle_rad_, s.d("moon_exclusion_angle_deg") * kDeg, "moon exclusion");
  st::eqi(c.x_number_of_pix_, s.i("x_number_of_pixel"), "pixels along X");
  st::eqi(c.y_number_of_pix_, s.i("y_number_of_pixel"), "pixels along Y");
  st::eq(c.x_fov_per_pix_, s.d("x_fov_deg_per_pixel") * kDeg, "angle of a pixel along X");
  st::eq(c.y_fov_per_pix_, s.d("y_fov_deg_per_pixel") * kDeg, "angle of a pixel along Y");
  sym_assert_close(c.x_field_of_view_rad, s.i("x_number_of_pixel") * s.d("x_fov_deg_per_pixel") * kDeg, 1e-9, "field of view along X");
  sym_assert_close(c.y_field_of_view_rad, s.i("y_number_of_pixel") * s.d("y_fov_deg_per_pixel") * kDeg, 1e-9, "field of view along Y");
  st::eqi((int64_t)c.number_of_logged_stars_, n, "stars in the log");
  st::eqi((int64_t)c.star_list_in_sight.size(), n, "log columns of stars");
  sym_assert(c.attitude_ == att && c.hipparcos_ == hip && c.local_celestial_information_ == lc && c.orbit_ == nullptr, "environment");
}
static void pattern(const AntennaParameters& p, const Sec& s, const std::string& k, double g) {
  st::eq(p.gain_dBi_, s.d(k + "gain_dBi"), "gain");
  st::eq(p.loss_feeder_dB_, s.d(k + "loss_feeder_dB"), "feeder loss");
  st::eq(p.loss_pointing_dB_, s.d(k + "loss_pointing_dB"), "pointing loss");
  sym_assert((p.antenna_gain_model == AntennaGainModel::kRadiationPatternCsv) == (g != 0), "gain model");
  const AntennaRadiationPattern& r = p.radiation_pattern;
  st::eqi((int64_t)r.length_theta_, 2, "table length in theta");
  st::eqi((int64_t)r.length_phi_, 2, "table length in phi");
  st::eq(r.theta_max_rad_, s.d(k + "theta_max_rad"), "largest theta");
  st::eq(r.phi_max_rad_, s.d(k + "phi_max_rad"), "largest phi");
  std::string file = st::S(F, s.s, k + "antenna_radiation_pattern_file");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) st::eq(r.gain_dBi_[i][j], st::D(file, std::to_string(i), std::to_string(j)), "gain table of the file");
}
CHECK(antenna) {
  int id = any_id();
  Sec s{F, "ANTENNA_" + std::to_string(id)};
  st::unit4(s, "quaternion_b2c");
  for (const char* k : {"tx_", "rx_"}) {
    s.set(std::string(k) + "length_theta", 2);
    s.set(std::string(k) + "length_phi", 2);
  }
  s.range("tx_output_W", 0.25, 8.0);
  s.range("rx_system_noise_temperature_K", 10.0, 1000.0);
  int gt = (int)sym_choose("tx_gain_model", 0, 2), gr = (int)sym_choose("rx_gain_model", 0, 1);
  s.text("tx_antenna_gain_model", gt == 1 ? "RADIATION_PATTERN_CSV" : gt == 0 ? "ISOTROPIC" : "SOMETHING_ELSE");
  s.text("rx_antenna_gain_model", gr ? "RADIATION_PATTERN_CSV" : "ISOTROPIC");
  Antenna c = InitAntenna(id, F);
  st::eqi(c.component_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  bool tx = s.i("is_transmitter") != 0, rx = s.i("is_receiver") != 0;
  sym_assert(c.IsTransmitter() == tx && c.IsReceiver() == rx, "transmitter and receiver");
  st::eq(c.GetFrequency_MHz(), s.d("frequency_MHz"), "frequency");
  st::eq(c.GetBitrate_bps(), s.d("tx_bitrate_bps"), "bit rate");
  if (tx) {
    st::eq(c.tx_output_power_W_, s.d("tx_output_W"), "output power");
    pattern(c.tx_parameters_, s, "tx_", gt == 1);
  }
  if (rx) {
    st::eq(c.rx_system_noise_temperature_K_, s.d("rx_system_noise_temperature_K"), "noise temperature");
    pattern(c.rx_parameters_, s, "rx_", gr);
  }
}
CHECK(ground_station_calculator) {
  Sec s{F, "GROUND_STATION_CALCULATOR"};
  GroundStationCalculator c = InitGsCalculator(F);
  st::eq(c.loss_polarization_dB_, s.d("loss_polarization_dB"), "polarization loss");
  st::eq(c.loss_atmosphere_dB_, s.d("loss_atmosphere_dB"), "atmosphere loss");
  st::eq(c.loss_rainfall_dB_, s.d("loss_rainfall_dB"), "rainfall loss");
  st::eq(c.loss_others_dB_, s.d("loss_others_dB"), "other losses");
  st::eq(c.ebn0_dB_, s.d("ebn0_dB"), "Eb/N0");
  st::eq(c.hardware_deterioration_dB_, s.d("hardware_deterioration_dB"), "hardware deterioration");
  st::eq(c.coding_gain_dB_, s.d("coding_gain_dB"), "coding gain");
  st::eq(c.margin_requirement_dB_, s.d("margin_requirement_dB"), "margin");
  st::eq(c.downlink_bitrate_bps_, s.d("downlink_bitrate_bps"), "bit rate");
}
