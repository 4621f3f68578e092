#include <iostream>
#include <fstream>
#include "../ad/rapidjson.cpp"
#include <valijson/utils/rapidjson_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"rapidjson", true, VIA(rapidjson::Document), [](const std::string &b, J &out) -> bool {
    rapidjson::Document d; d.Parse(b.c_str()); if (d.HasParseError()) return false; out = take(d); return true;
}});
