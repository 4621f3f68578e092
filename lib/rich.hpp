// A small set of schemas that together use every keyword of a draft, and
// documents that make each keyword accept and reject. Shared by the checks
// whose bounded dimension is something other than the schema.
#pragma once
#include "families.hpp"
namespace fam {
struct Rich { J schema; std::vector<std::pair<std::string, J>> remote; };

inline std::vector<Rich> richSchemas(int draft) {
    std::vector<Rich> out;
    auto add = [&](J s) { out.push_back({s, {}}); };
    J I = O({{"type", J("integer")}}), S = O({{"type", J("string")}});
    const char *div = draft == 3 ? "divisibleBy" : "multipleOf";
    J num = O({{"minimum", J(2)}, {"maximum", J(10)}, {div, J(3)}});
    if (draft == 7) { num.set("exclusiveMinimum", J(2)); num.set("exclusiveMaximum", J(10)); }
    else { num.set("exclusiveMinimum", J(true)); num.set("exclusiveMaximum", J(true)); }
    add(num);
    add(O({{div, J(0.5)}, {"type", J("number")}}));
    add(O({{"minLength", J(2)}, {"maxLength", J(3)}, {"pattern", J("^a[b-z]*$")}, {"type", J("string")}}));
    add(O({{"enum", A({J(1), J("ab"), A({J(1), O({{"a", J()}})}), O({{"a", J("x")}, {"b", A({J(1)})}})})}}));
    add(O({{"type", A({J("integer"), J("object"), J("null")})}}));
    J obj = O({{"properties", O({{"a", I}, {"b", O({{"properties", O({{"c", S}})}, {"additionalProperties", J(false)}})}})}, {"patternProperties", O({{"^x", S}, {"y$", O({{"minimum", J(3)}})}})}, {"additionalProperties", O({{"type", A({J("integer"), J("string"), J("array"), J("object")})}})},
        {"dependencies", O({{"a", A({J("b")})}, {"b", O({{"properties", O({{"d", I}})}})}})}});
    if (draft != 3) { obj.set("required", A({J("a")})); obj.set("minProperties", J(1)); obj.set("maxProperties", J(3)); }
    else obj.get("properties")->get("a")->set("required", J(true));
    add(obj);
    if (draft == 3) add(O({{"dependencies", O({{"a", J("b")}})}, {"disallow", J("string")}}));
    add(O({{"items", A({I, S})}, {"additionalItems", O({{"type", J("null")}})}, {"minItems", J(1)}, {"maxItems", J(4)}, {"uniqueItems", J(true)}}));
    add(O({{"items", O({{"type", J("array")}, {"items", I}})}}));
    if (draft != 3) {
        add(O({{"allOf", A({I, O({{"minimum", J(2)}})})}}));
        add(O({{"anyOf", A({I, S, O({{"required", A({J("a")})}})})}}));
        add(O({{"oneOf", A({I, O({{"minimum", J(2)}}), S})}}));
        add(O({{"not", O({{"anyOf", A({S, I})}})}}));
    } else {
        add(O({{"extends", A({I, O({{"minimum", J(2)}})})}}));
        add(O({{"extends", O({{"properties", O({{"a", S}})}})}}));
        add(O({{"type", A({J("string"), O({{"properties", O({{"a", I}})}}), O({{"type", J("array")}})})}}));
    }
    if (draft == 7) {
        add(O({{"if", O({{"type", J("object")}})}, {"then", O({{"required", A({J("a")})}})}, {"else", O({{"const", A({J(1), J("x")})}})}}));
        add(O({{"const", O({{"a", J("x")}, {"b", A({J(1)})}})}}));
        add(O({{"contains", O({{"const", J("ab")}})}, {"propertyNames", O({{"maxLength", J(1)}})}}));
        add(O({{"properties", O({{"a", J(false)}, {"b", J(true)}})}, {"propertyNames", O({{"pattern", J("^[ab]$")}})}}));
    }
    for (const char *f : {"date", "time", "date-time", "ipv4"}) add(O({{"format", J(f)}, {"title", J("t")}, {"description", J("d")}}));
    // references: recursive, by pointer (escaped), by identifier, by name
    const char *id = draft == 7 ? "$id" : "id";
    add(O({{"properties", O({{"next", O({{"$ref", J("#")}})}, {"v", O({{"$ref", J("#/definitions/a~1b")}})}})}, {"additionalProperties", J(false)}, {"definitions", O({{"a/b", I}})}}));
    add(O({{id, J("http://h/root.json")}, {"items", O({{"$ref", J("sub.json#/definitions/s")}})}, {"definitions", O({{"e", O({{id, J("sub.json")}, {"definitions", O({{"s", O({{id, J("#nm")}, {"minLength", J(2)}})}})}})}})}, {"properties", O({{"a", O({{"$ref", J("sub.json#/definitions/s")}})}})}}));
    {
        Rich r; r.schema = O({{"properties", O({{"a", O({{"$ref", J("http://r/one.json")}})}, {"b", O({{"$ref", J("http://r/two.json#/definitions/d")}})}})}, {"items", O({{"$ref", J("http://r/one.json")}})}});
        r.remote = {{"http://r/one.json", O({{"type", A({J("integer"), J("string")})}, {"minLength", J(2)}, {"enum", A({J(1), J("ab"), J("a")})}, {"pattern", J("b")}})},
                    {"http://r/two.json", O({{"definitions", O({{"d", O({{"$ref", J("one.json")}})}})}})}};
        if (draft == 3) r.remote[0].second = O({{"type", A({J("integer"), J("string")})}, {"minLength", J(2)}, {"enum", A({J(1), J("ab"), J("a")})}});
        out.push_back(r);
    }
    return out;
}
inline std::vector<J> richDocs() {
    return {J(), J(true), J(1), J(3), J(6), J(2.5), J(10), J("a"), J("ab"), J("abcd"), J("b"), J("2024-02-29"), J("23:59:60Z"), J("2024-01-01T00:00:00+01:00"), J("1.2.3.4"),
        J::arr(), A({J(1), J("x")}), A({J(1), J("x"), J(), J()}), A({J("x"), J("x")}), A({J(1), J("x"), J(), J(2), J(5)}), A({J(1), O({{"a", J()}})}), A({A({J(1)}), A({J("x")})}), A({J("ab"), J("b")}),
        J::obj(), O({{"a", J(1)}, {"b", O({{"c", J("x")}})}}), O({{"a", J("x")}, {"b", A({J(1)})}}), O({{"a", J(1)}, {"x", J(1)}, {"y", J(2)}, {"xy", J("k")}}), O({{"b", O({{"c", J(1)}, {"e", J(1)}})}, {"d", J("n")}}),
        O({{"next", O({{"next", O({{"v", J("x")}})}, {"w", J(1)}})}, {"v", J(2)}}), O({{"a", J("ab")}, {"b", J("a")}}), O({{"bb", J(1)}, {"b", J()}})};
}
} // namespace fam
