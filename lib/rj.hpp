// rapidjson documents from J, and the rapidjson adapter.
#pragma once
#include "mj.hpp"
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

namespace rj {
typedef valijson::adapters::RapidJsonAdapter Adapter;
template <class Alloc>
inline void fill(rapidjson::Value &v, const J &j, Alloc &al) {
    switch (j.t) {
    case J::Null: v.SetNull(); break;
    case J::Bool: v.SetBool(j.b); break;
    case J::Int: v.SetInt64(j.i); break;
    case J::Dbl: v.SetDouble(j.d); break;
    case J::Str: v.SetString(j.s.data(), (rapidjson::SizeType)j.s.size(), al); break;
    case J::Arr: v.SetArray(); for (auto &x : j.a) { rapidjson::Value c; fill(c, x, al); v.PushBack(c, al); } break;
    case J::Obj: v.SetObject(); for (auto &m : j.o) { rapidjson::Value n, c; n.SetString(m.first.data(), (rapidjson::SizeType)m.first.size(), al); fill(c, m.second, al); v.AddMember(n, c, al); } break;
    }
}
inline void doc(rapidjson::Document &d, const J &j) { fill(d, j, d.GetAllocator()); }
inline valijson::SchemaParser::Version ver(int draft) {
    return draft == 3 ? valijson::SchemaParser::kDraft3 : draft == 4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7;
}
} // namespace rj
