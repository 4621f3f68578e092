#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include "../adimpl.hpp"
typedef YAML::Node D; typedef valijson::adapters::YamlCppAdapter A;
static std::string text(const J &j) { return j.t == J::Str ? j.s : j.str(); }
static D mkv(const J &j) {
    if (j.t == J::Arr) { D d(YAML::NodeType::Sequence); for (auto &x : j.a) d.push_back(mkv(x)); return d; }
    if (j.t == J::Obj) { D d(YAML::NodeType::Map); for (auto &m : j.o) d.force_insert(m.first, mkv(m.second)); return d; }
    return D(text(j));
}
static void put(D &d, const J &j) {   // nodes are shared: change in place, then rebind
    if (d.IsSequence()) { for (auto x : d) { D y(x); if (y.IsScalar()) y = std::string("scrambled"); } d.push_back("more"); }
    if (d.IsMap()) { for (auto x : d) { D y(x.second); if (y.IsScalar()) y = std::string("scrambled"); } d.force_insert("more", "more"); }
    d.reset(mkv(j));
}
static J take(const D &d) {
    if (d.IsNull() || !d.IsDefined()) return J();
    if (d.IsScalar()) return J(d.Scalar());
    if (d.IsSequence()) { J r = J::arr(); for (auto x : d) r.push(take(x)); return r; }
    J r = J::obj(); for (auto x : d) r.o.emplace_back(x.first.Scalar(), take(x.second)); return r;
}
static AdReg reg(adimpl::make<A, D>("yaml", false, put, take, adimpl::anyJ));
