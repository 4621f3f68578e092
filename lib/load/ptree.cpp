#include <iostream>
#include <fstream>
#include "../ad/ptree.cpp"
#include <valijson/utils/property_tree_utils.hpp>
#include "../loadlib.hpp"
static LoadReg lreg({"ptree", false, VIA(D), [](const std::string &b, J &out) -> bool {
    std::istringstream in(b); D d; try { boost::property_tree::read_json(in, d); } catch (const std::exception &) { return false; } out = take(d); return true;
}});
