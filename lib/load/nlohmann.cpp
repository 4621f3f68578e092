#include <iostream>
#include <fstream>
#include "../ad/nlohmann.cpp"
#include <valijson/utils/nlohmann_json_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"nlohmann", true, VIA(D), [](const std::string &b, J &out) -> bool {
    std::istringstream in(b); D d = D::parse(in, nullptr, false); if (d.is_discarded()) return false; out = take(d); return true;
}});
