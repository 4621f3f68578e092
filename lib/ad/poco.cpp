#include <Poco/Dynamic/Var.h>
#include <Poco/JSON/Array.h>
#include <Poco/JSON/Object.h>
#include <valijson/adapters/poco_json_adapter.hpp>
#include "../adimpl.hpp"
typedef Poco::Dynamic::Var D; typedef valijson::adapters::PocoJsonAdapter A;
static D mkv(const J &j) {
    switch (j.t) {
    case J::Null: return D(); case J::Bool: return D(j.b); case J::Int: return D((Poco::Int64)j.i); case J::Dbl: return D(j.d); case J::Str: return D(j.s);
    case J::Arr: { Poco::JSON::Array::Ptr a(new Poco::JSON::Array()); for (auto &x : j.a) a->add(mkv(x)); return D(a); }
    default: { Poco::JSON::Object::Ptr o(new Poco::JSON::Object()); for (auto &m : j.o) o->set(m.first, mkv(m.second)); return D(o); }
    }
}
static void put(D &d, const J &j) {
    // scrambling must reach the shared containers, so change them in place
    if (!d.isEmpty() && d.type() == typeid(Poco::JSON::Array::Ptr)) { auto a = d.extract<Poco::JSON::Array::Ptr>(); for (size_t k = 0; k < a->size(); k++) { D c = a->get((unsigned)k); put(c, j); } a->clear(); a->add(D(1)); }
    else if (!d.isEmpty() && d.type() == typeid(Poco::JSON::Object::Ptr)) { auto o = d.extract<Poco::JSON::Object::Ptr>(); for (auto &n : o->getNames()) { D c = o->get(n); put(c, j); } o->clear(); o->set("scrambled", 1); }
    d = mkv(j);
}
static J take(const D &v) {
    if (v.isEmpty()) return J();
    if (v.type() == typeid(bool)) return J(v.extract<bool>());
    if (v.type() == typeid(Poco::Int64)) return J((long long)v.extract<Poco::Int64>());
    if (v.type() == typeid(Poco::UInt64)) { auto u = v.extract<Poco::UInt64>(); return u > INT64_MAX ? J((double)u) : J((long long)u); }
    if (v.type() == typeid(double)) return J(v.extract<double>());
    if (v.type() == typeid(std::string)) return J(v.extract<std::string>());
    if (v.type() == typeid(Poco::JSON::Array::Ptr)) { J r = J::arr(); for (auto &x : *v.extract<Poco::JSON::Array::Ptr>()) r.push(take(x)); return r; }
    J r = J::obj(); for (auto &m : *v.extract<Poco::JSON::Object::Ptr>()) r.o.emplace_back(m.first, take(m.second)); return r;
}
static AdLib mk() {
    AdLib l = adimpl::make<A, D>("poco", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, D>>(true, put, take); h->doc = D((Poco::UInt64)u); h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
