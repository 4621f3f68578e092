#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include "../adimpl.hpp"
typedef boost::json::value D; typedef valijson::adapters::BoostJsonAdapter A;
static void put(D &d, const J &j) {
    switch (j.t) {
    case J::Null: d = nullptr; break; case J::Bool: d = j.b; break; case J::Int: d = (std::int64_t)j.i; break; case J::Dbl: d = j.d; break;
    case J::Str: d = boost::json::string(j.s.data(), j.s.size()); break;
    case J::Arr: { boost::json::array a; for (auto &x : j.a) { D c; put(c, x); a.push_back(c); } d = a; break; }
    case J::Obj: { boost::json::object o; for (auto &m : j.o) { D c; put(c, m.second); o[boost::json::string_view(m.first.data(), m.first.size())] = c; } d = o; break; }
    }
}
static J take(const D &v) {
    switch (v.kind()) {
    case boost::json::kind::null: return J(); case boost::json::kind::bool_: return J(v.get_bool()); case boost::json::kind::int64: return J((long long)v.get_int64());
    case boost::json::kind::uint64: return v.get_uint64() > INT64_MAX ? J((double)v.get_uint64()) : J((long long)v.get_uint64());
    case boost::json::kind::double_: return J(v.get_double());
    case boost::json::kind::string: return J(std::string(v.get_string().data(), v.get_string().size()));
    case boost::json::kind::array: { J r = J::arr(); for (auto &x : v.get_array()) r.push(take(x)); return r; }
    default: { J r = J::obj(); for (auto &m : v.get_object()) r.o.emplace_back(std::string(m.key().data(), m.key().size()), take(m.value())); return r; }
    }
}
static AdLib mk() {
    AdLib l = adimpl::make<A, D>("boost_json", true, put, take, adimpl::anyJ);
    l.buildU64 = [](uint64_t u) { auto h = std::make_unique<adimpl::Impl<A, D>>(true, put, take); h->doc = u; h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h)); };
    return l;
}
static AdReg reg(mk());
