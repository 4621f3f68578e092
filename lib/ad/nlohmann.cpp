#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include "../adimpl.hpp"
typedef nlohmann::json D; typedef valijson::adapters::NlohmannJsonAdapter A;
static void put(D &d, const J &j) {
    switch (j.t) {
    case J::Null: d = nullptr; break; case J::Bool: d = j.b; break; case J::Int: d = j.i; break; case J::Dbl: d = j.d; break; case J::Str: d = j.s; break;
    case J::Arr: d = D::array(); for (auto &x : j.a) { D c; put(c, x); d.push_back(c); } break;
    case J::Obj: d = D::object(); for (auto &m : j.o) { D c; put(c, m.second); d[m.first] = c; } break;
    }
}
static J take(const D &v) {
    if (v.is_null()) return J(); if (v.is_boolean()) return J(v.get<bool>());
    if (v.is_number_unsigned()) { uint64_t u = v.get<uint64_t>(); return u > INT64_MAX ? J((double)u) : J((long long)u); }
    if (v.is_number_integer()) return J((long long)v.get<int64_t>()); if (v.is_number()) return J(v.get<double>());
    if (v.is_string()) return J(v.get<std::string>());
    if (v.is_array()) { J r = J::arr(); for (auto &x : v) r.push(take(x)); return r; }
    J r = J::obj(); for (auto &m : v.items()) r.o.emplace_back(m.key(), take(m.value())); return r;
}
static AdLib mk() {
    AdLib l = adimpl::make<A, D>("nlohmann", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, D>>(true, put, take); h->doc = u; h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
