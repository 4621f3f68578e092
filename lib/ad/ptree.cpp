#include <valijson/adapters/property_tree_adapter.hpp>
#include "../adimpl.hpp"
typedef boost::property_tree::ptree D; typedef valijson::adapters::PropertyTreeAdapter A;
static std::string text(const J &j) { return j.t == J::Str ? j.s : j.str(); }
static D mkv(const J &j) {
    D d;
    if (j.t == J::Arr) for (auto &x : j.a) d.push_back({"", mkv(x)});
    else if (j.t == J::Obj) for (auto &m : j.o) d.push_back({m.first, mkv(m.second)});
    else d.data() = text(j);
    return d;
}
static void put(D &d, const J &j) { d = mkv(j); }
static J take(const D &d) {   // what a property tree can say about itself
    if (!d.data().empty()) return J(d.data());
    bool arr = true; for (auto &n : d) if (!n.first.empty()) arr = false;
    if (arr) { J r = J::arr(); for (auto &n : d) r.push(take(n.second)); return r; }
    J r = J::obj(); for (auto &n : d) r.o.emplace_back(n.first, take(n.second)); return r;
}
// Property trees have no empty strings or objects, and no member named "" on its own.
static bool can(const J &j) {
    if (j.t == J::Str) return !j.s.empty();
    if (j.t == J::Arr) { for (auto &x : j.a) if (!can(x)) return false; return true; }
    if (j.t == J::Obj) { if (j.o.empty()) return false; bool named = false; for (auto &m : j.o) { if (!can(m.second)) return false; if (!m.first.empty()) named = true; } return named; }
    return true;
}
static AdReg reg(adimpl::make<A, D>("ptree", false, put, take, can));
