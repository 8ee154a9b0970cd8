// SRC: src/environment/global/hipparcos_catalogue.cpp
// MODE: real
// BOUNDS: catalogues of up to four stars, with and without a newline at the end; any numbers
// STUBS: setting file access
#include "ini.hpp"
#include "util.hpp"
#include <environment/global/hipparcos_catalogue.hpp>
using namespace s2e;
using namespace s2e::environment;
static double g_max;
static std::string g_path;
static int g_bad;
namespace s2e::setting_file_reader {
double IniAccess::ReadDouble(const char* s, const char* k) { if (std::string(s) != "HIPPARCOS_CATALOGUE" || std::string(k) != "max_magnitude") g_bad++; return g_max; }
std::string IniAccess::ReadString(const char* s, const char* k) { if (std::string(s) != "HIPPARCOS_CATALOGUE" || std::string(k) != "catalogue_file_path") g_bad++; return g_path; }
static bool g_calc, g_log;
bool IniAccess::ReadEnable(const char*, const char* k) { return std::string(k) == "calculation" ? g_calc : g_log; }
}  // namespace s2e::setting_file_reader
// every star of the file, in order, down to the first one that is too dark
CHECK(stars) {
  int n = (int)sym_choose("stars", 0, 4);
  bool last = sym_choose("newline at the end", 0, 1);
  setting_file_reader::g_calc = sym_choose("calculation", 0, 1);
  setting_file_reader::g_log = sym_choose("log", 0, 1);
  g_max = sym_double("maximum magnitude", -2, 15);
  double mag[4], ra[4], de[4];
  int64_t id[4];
  std::string t = "HIP,Vmag,RAdeg,DEdeg\n";
  for (int i = 0; i < n; i++) {
    id[i] = sym_int("id", 1, 120000); mag[i] = sym_double("mag", -2, 15); ra[i] = sym_double("ra", 0, 360); de[i] = sym_double("de", -90, 90);
    t += sym_texti(id[i]) + "," + sym_text(mag[i]) + "," + sym_text(ra[i]) + "," + sym_text(de[i]) + (i < n - 1 || last ? "\n" : "");
  }
  g_path = sym_file("hip.csv", t);
  HipparcosCatalogue* h = InitHipparcosCatalogue("init.ini");
  sym_assert(!g_bad && h->IsCalcEnabled == setting_file_reader::g_calc && h->is_log_enabled_ == setting_file_reader::g_log, "settings");
  int read = 0;
  if (setting_file_reader::g_calc) while (read < n && mag[read] <= g_max) read++;
  sym_assert((int)h->GetCatalogueSize() == read, "number of stars");
  for (int i = 0; i < read; i++) {
    sym_assert(h->GetHipparcosId(i) == id[i], "id");
    sym_assert_close(h->GetVisibleMagnitude(i), mag[i], 1e-9, "magnitude");
    sym_assert_close(h->GetRightAscension_deg(i), ra[i], 1e-9, "right ascension");
    sym_assert_close(h->GetDeclination_deg(i), de[i], 1e-9, "declination");
  }
}
