#pragma once
// no file is read: members of IniAccess that a harness needs are defined by the harness
#include <setting_file_reader/initialize_file_access.hpp>
INIReader::INIReader(const std::string&) { _error = 0; }
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : file_path_(f), ini_reader_(f) {}
}  // namespace s2e::setting_file_reader
