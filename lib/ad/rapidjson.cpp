#include <valijson/adapters/rapidjson_adapter.hpp>
#include "../adimpl.hpp"
#include "../rj.hpp"
static void put(rapidjson::Document &d, const J &j) { rj::fill(static_cast<rapidjson::Value &>(d), j, d.GetAllocator()); }
static J takeV(const rapidjson::Value &v) {
    if (v.IsNull()) return J(); if (v.IsBool()) return J(v.GetBool());
    if (v.IsInt64()) return J((long long)v.GetInt64()); if (v.IsNumber()) return J(v.GetDouble());
    if (v.IsString()) return J(std::string(v.GetString(), v.GetStringLength()));
    if (v.IsArray()) { J r = J::arr(); for (auto &x : v.GetArray()) r.push(takeV(x)); return r; }
    J r = J::obj(); for (auto &m : v.GetObject()) r.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), takeV(m.value)); return r;
}
static J take(const rapidjson::Document &d) { return takeV(d); }
typedef valijson::adapters::RapidJsonAdapter A;
static AdLib mk() {
    AdLib l = adimpl::make<A, rapidjson::Document>("rapidjson", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, rapidjson::Document>>(true, put, take); h->doc.SetUint64(u); h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
