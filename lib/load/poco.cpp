#include <iostream>
#include <fstream>
#include "../ad/poco.cpp"
#include <valijson/utils/poco_json_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"poco", true, VIA(D), [](const std::string &b, J &out) -> bool {
    try { Poco::JSON::Parser p; D d = p.parse(b); out = take(d); return true; } catch (const Poco::Exception &) { return false; }
}});
