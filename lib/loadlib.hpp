// loadDocument of every bundled library next to the library's own parser.
#pragma once
#include "mj.hpp"
#include <fstream>
#include <functional>
#include <sstream>
struct LoadLib {
    std::string name; bool typed;
    std::function<bool(const std::string &path, const std::string *before, J &out)> load;     // through valijson; into a document that held `before`
    std::function<bool(const std::string &bytes, J &out)> own;                                // the library itself, on the bytes
};
std::vector<LoadLib> &loadLibs();
struct LoadReg { LoadReg(LoadLib l) { loadLibs().push_back(std::move(l)); } };
template <class D, class T, class L> std::function<bool(const std::string &, const std::string *, J &)> viaLoadWith(T take, L load) {
    return [take, load](const std::string &path, const std::string *before, J &out) {
        D d; if (before && !load(*before, d)) throw std::runtime_error("harness: the first document does not load");
        bool ok = load(path, d); if (ok) out = take(d); return ok;
    };
}
#define VIA(D) viaLoadWith<D>(take, [](const std::string &p, D &d) { return valijson::utils::loadDocument(p, d); })
