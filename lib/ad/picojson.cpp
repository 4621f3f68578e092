#define PICOJSON_USE_INT64
#include <valijson/adapters/picojson_adapter.hpp>
#include "../adimpl.hpp"
typedef picojson::value D; typedef valijson::adapters::PicoJsonAdapter A;
static void put(D &d, const J &j) {
    switch (j.t) {
    case J::Null: d = D(); break; case J::Bool: d = D(j.b); break; case J::Int: d = D((int64_t)j.i); break; case J::Dbl: d = D(j.d); break; case J::Str: d = D(j.s); break;
    case J::Arr: { picojson::array a; for (auto &x : j.a) { D c; put(c, x); a.push_back(c); } d = D(a); break; }
    case J::Obj: { picojson::object o; for (auto &m : j.o) { D c; put(c, m.second); o[m.first] = c; } d = D(o); break; }
    }
}
static J take(const D &v) {
    if (v.is<picojson::null>()) return J(); if (v.is<bool>()) return J(v.get<bool>());
    if (v.is<int64_t>()) return J((long long)v.get<int64_t>()); if (v.is<double>()) return J(v.get<double>());
    if (v.is<std::string>()) return J(v.get<std::string>());
    if (v.is<picojson::array>()) { J r = J::arr(); for (auto &x : v.get<picojson::array>()) r.push(take(x)); return r; }
    J r = J::obj(); for (auto &m : v.get<picojson::object>()) r.o.emplace_back(m.first, take(m.second)); return r;
}
static bool can(const J &j) {   // the library refuses NaN and infinities only
    return !(j.t == J::Dbl && !std::isfinite(j.d));
}
static AdReg reg(adimpl::make<A, D>("picojson", true, put, take, can));
