#include <iostream>
#include <fstream>
#include "../ad/boost_json.cpp"
#include <valijson/utils/boost_json_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"boost_json", true, VIA(D), [](const std::string &b, J &out) -> bool {
    boost::json::stream_parser p; boost::system::error_code e; p.write(b, e); if (e) return false; p.finish(e); if (e) return false; out = take(p.release()); return true;
}});
