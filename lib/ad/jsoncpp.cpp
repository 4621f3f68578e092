#include <valijson/adapters/jsoncpp_adapter.hpp>
#include "../adimpl.hpp"
typedef Json::Value D; typedef valijson::adapters::JsonCppAdapter A;
static void put(D &d, const J &j) {
    switch (j.t) {
    case J::Null: d = D(); break; case J::Bool: d = j.b; break; case J::Int: d = (Json::Int64)j.i; break; case J::Dbl: d = j.d; break; case J::Str: d = j.s; break;
    case J::Arr: d = D(Json::arrayValue); for (auto &x : j.a) { D c; put(c, x); d.append(c); } break;
    case J::Obj: d = D(Json::objectValue); for (auto &m : j.o) { D c; put(c, m.second); d[m.first] = c; } break;
    }
}
static J take(const D &v) {
    switch (v.type()) {
    case Json::nullValue: return J(); case Json::booleanValue: return J(v.asBool()); case Json::intValue: return J((long long)v.asInt64());
    case Json::uintValue: return v.asUInt64() > INT64_MAX ? J((double)v.asUInt64()) : J((long long)v.asUInt64());
    case Json::realValue: return J(v.asDouble()); case Json::stringValue: return J(v.asString());
    case Json::arrayValue: { J r = J::arr(); for (Json::ArrayIndex k = 0; k < v.size(); k++) r.push(take(v[k])); return r; }
    default: { J r = J::obj(); for (auto &n : v.getMemberNames()) r.o.emplace_back(n, take(v[n])); return r; }
    }
}
static AdLib mk() {
    AdLib l = adimpl::make<A, D>("jsoncpp", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, D>>(true, put, take); h->doc = (Json::UInt64)u; h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
