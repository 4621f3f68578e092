#include <iostream>
#include <fstream>
#include "../ad/picojson.cpp"
#include <valijson/utils/picojson_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"picojson", true, VIA(D), [](const std::string &b, J &out) -> bool {
    try { D d; std::string e; picojson::parse(d, b.begin(), b.end(), &e); if (!e.empty()) return false; out = take(d); return true; } catch (const std::exception &) { return false; }
}});
