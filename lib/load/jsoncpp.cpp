#include <iostream>
#include <fstream>
#include "../ad/jsoncpp.cpp"
#include <valijson/utils/jsoncpp_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"jsoncpp", true, VIA(D), [](const std::string &b, J &out) -> bool {
    std::istringstream in(b); Json::CharReaderBuilder r; D d; std::string e; try { if (!Json::parseFromStream(r, in, &d, &e)) return false; } catch (const std::exception &) { return false; } out = take(d); return true;
}});
