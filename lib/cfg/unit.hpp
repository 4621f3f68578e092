// One build configuration of the library, behind an interface that names none of its types.
#pragma once
#include "../mj.hpp"
#include <functional>
struct CfgUnit {
    std::string lib, config;
    std::function<bool(const J &)> can;
    std::function<void(const std::vector<J> &)> setDocs;
    // outcome per document: verdict without results, and with: verdict and every error
    std::function<std::vector<std::string>(int draft, const J &schema, const std::vector<std::pair<std::string, J>> &remote, bool weak)> run;
};
std::vector<CfgUnit> &cfgUnits();
struct CfgReg { CfgReg(CfgUnit u) { cfgUnits().push_back(std::move(u)); } };
