#include <iostream>
#include <fstream>
#include "../ad/yaml.cpp"
#include <valijson/utils/yaml_cpp_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"yaml", false, VIA(D), [](const std::string &b, J &out) -> bool {
    try { D d = YAML::Load(b); out = take(d); return true; } catch (const YAML::Exception &) { return false; }
}});
