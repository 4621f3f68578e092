// Size ladders: families whose bounded dimension is how many, how long, how
// deep or how large, with a deviation at every position. Groups of schemas and
// the documents that probe them; each group is a complete cross product.
#pragma once
#include "families.hpp"
#include "patterns.hpp"
#include "ref.hpp"
namespace fam {
struct Group { std::vector<J> schemas, instances; };
typedef std::function<void(const std::function<Group()> &)> GroupSink;   // built only in the shard that owns it

inline std::vector<int> sizes(bool deep) {
    std::vector<int> v; for (int k = 0; k <= (deep ? 40 : 20); k++) v.push_back(k);
    for (int k : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}) if (k > v.back()) v.push_back(k);
    if (deep) for (int k : {511, 512, 513, 1000, 1023, 1024, 1025}) v.push_back(k);
    return v;
}
inline std::vector<int> places(int n) {
    std::vector<int> v;
    if (n <= 20) { for (int k = 0; k < n; k++) v.push_back(k); return v; }
    for (int k : {0, 1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, n / 2, n - 2, n - 1}) if (k < n && std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k);
    return v;
}
inline std::string nm(int k) { return "m" + std::to_string(k); }

// ------------------------------------------------------------------- numbers
inline std::vector<J> ladderNumbers(bool deep) {
    std::vector<J> v; auto I = [&](int64_t x) { v.push_back(J((long long)x)); if (x) v.push_back(J((long long)-x)); };
    auto D = [&](double x) { v.push_back(J(x)); v.push_back(J(-x)); };
    I(0);
    for (int k = 0; k < 63; k++) { int64_t p = (int64_t)1 << k; I(p); if (k < 53 && k > 1) { I(p - 1); I(p + 1); } D((double)p); if (k < 50) D((double)p + 0.5); }
    int64_t t = 10; for (int k = 1; k <= 18; k++, t *= 10) { I(t); if (k < 15) { I(t - 1); I(t + 1); D((double)t + 0.25); } }
    for (int k = 1; k <= (deep ? 60 : 30); k++) D(std::ldexp(1.0, -k));
    for (int k = 1; k <= 20; k++) { char b[16]; snprintf(b, sizeof b, "1e-%d", k); D(strtod(b, nullptr)); }
    for (int k = 2; k <= 8; k++) D(1 + std::pow(10.0, -k));
    for (double x : {9223372036854775808.0, 18446744073709551616.0, 1e19, 1e22, 1e100, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324}) D(x);
    v.push_back(J((long long)INT64_MIN));
    // limits and documents are compared in double precision
    std::vector<J> out; for (auto &x : v) { if (x.t == J::Int && std::fabs((double)x.i) > 9007199254740992.0 && (x.i & 1)) continue; out.push_back(x); }
    return out;
}
inline void ladderScalar(int draft, bool deep, const GroupSink &g) {
    std::vector<J> nums = ladderNumbers(deep);
    for (size_t lo = 0; lo < nums.size(); lo += 8) g([=] {
        Group r; r.instances = nums;
        for (size_t k = lo; k < nums.size() && k < lo + 8; k++) {
            const J &x = nums[k];
            r.schemas.push_back(O({{"minimum", x}})); r.schemas.push_back(O({{"maximum", x}}));
            if (draft == 7) { r.schemas.push_back(O({{"exclusiveMinimum", x}})); r.schemas.push_back(O({{"exclusiveMaximum", x}})); }
            else { r.schemas.push_back(O({{"minimum", x}, {"exclusiveMinimum", J(true)}})); r.schemas.push_back(O({{"maximum", x}, {"exclusiveMaximum", J(true)}})); }
            r.schemas.push_back(O({{"enum", A({J("x"), x})}}));
            if (draft == 7) r.schemas.push_back(O({{"const", x}}));
        }
        return r;
    });
    g([=] { Group r; r.instances = nums; for (auto t : {"integer", "number", "string", "null", "boolean", "array", "object"}) r.schemas.push_back(O({{"type", J(t)}})); return r; });
    // divisors: pairs whose answer depends on rounding are left out one by one
    std::vector<J> divs; for (auto &x : nums) if (x.num() > 0) divs.push_back(x);
    for (int k : {3, 5, 6, 7, 9, 11, 12, 25, 60, 97, 360, 1000003, 2147483647}) divs.push_back(J(k));
    for (double x : {0.3, 0.05, 0.7, 1.1, 2.5, 0.75}) divs.push_back(J(x));
    for (auto &d : divs) g([=] {
        Group r; r.schemas.push_back(O({{draft == 3 ? "divisibleBy" : "multipleOf", d}}));
        for (auto &v : nums) {
            if (ref::Eval::multipleIsOpen(v, d)) continue;
            r.instances.push_back(v);
        }
        return r;
    });
    // every set of types
    std::vector<const char *> ts = {"null", "boolean", "integer", "number", "string", "array", "object"};
    g([=] {
        Group r; r.instances = {J(), J(true), J(false), J(1), J(1.0), J(1.5), J("a"), J(""), J::arr(), A({J(1)}), J::obj(), O({{"a", J()}})};
        for (int m = 1; m < 128; m++) { J l = J::arr(), b = J::arr(); for (int k = 0; k < 7; k++) if (m >> k & 1) l.push(J(ts[k])); for (int k = 6; k >= 0; k--) if (m >> k & 1) b.push(J(ts[k])); r.schemas.push_back(O({{"type", l}})); r.schemas.push_back(O({{"type", b}})); }
        return r;
    });
    // limits no document reaches
    g([=] {
        Group r; r.instances = {J(""), J("a"), J("aa"), J::arr(), A({J(1)}), A({J(1), J(2)}), J::obj(), O({{"a", J(1)}}), O({{"a", J(1)}, {"b", J(2)}}), J(5)};
        for (int k = 2; k < 63; k++) for (int64_t d : {-1, 0, 1}) for (const char *w : {"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"}) if (draft != 3 || !strstr(w, "Prop")) r.schemas.push_back(O({{w, J((long long)(((int64_t)1 << k) + d))}}));
        return r;
    });
    // string lengths
    std::vector<int> ls; for (int k = 0; k <= 70; k++) ls.push_back(k);
    for (int k : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}) ls.push_back(k);
    if (deep) for (int k : {65535, 65536, 65537}) ls.push_back(k);
    for (int n : ls) g([=] {
        Group r; for (int k : {n - 1, n, n + 1}) if (k >= 0) { r.schemas.push_back(O({{"minLength", J(k)}})); r.schemas.push_back(O({{"maxLength", J(k)}})); }
        for (std::string u : {std::string("a"), std::string("\xc3\xa9"), std::string("\xe2\x82\xac"), std::string("\xf0\x9f\x98\x80"), std::string(1, '\0')}) {
            std::string s; for (int k = 0; k < n; k++) s += u; r.instances.push_back(J(s));
            if (u != "a") for (int k : places(n)) if (n <= 70 || k < 2 || k > n - 2) { std::string w; for (int q = 0; q < n; q++) w += q == k ? u : "a"; r.instances.push_back(J(w)); }
        }
        return r;
    });
    for (int n : ls) if (n <= 1025) g([=] {
        Group r; r.schemas = {O({{"pattern", J("x")}}), O({{"pattern", J("^x")}}), O({{"pattern", J("x$")}}), O({{"pattern", J("^a*$")}}), O({{"pattern", J("^[^x]*$")}})};
        r.instances.push_back(J(std::string(n, 'a')));
        for (int k : places(n)) { std::string w(n, 'a'); w[k] = 'x'; r.instances.push_back(J(w)); }
        return r;
    });
    // patterns of every kind (back references only to groups that took part)
    std::vector<std::string> ps; for (auto &p : patterns(false, deep ? 11 : 101)) if (p != "^(a|b)*\\1$") ps.push_back(p);
    for (size_t lo = 0; lo < ps.size(); lo += 12) if (deep || draft == 7 || lo / 12 % 4 == (size_t)draft - 3) g([=] {
        Group r; r.instances = patternDocs(deep); for (size_t k = lo; k < ps.size() && k < lo + 12; k++) r.schemas.push_back(O({{"pattern", J(ps[k])}})); return r;
    });
    // values that differ in one place
    for (int n : sizes(deep)) if (n) g([=] {
        Group r; J en = J::arr(), arr = J::arr(), ob = J::obj(), es = J::arr(); std::string st;
        for (int k = 0; k < n; k++) { en.push(J(k)); es.push(J(nm(k))); arr.push(J(k)); ob.set(nm(k), J(k)); st += (char)('a' + k % 26); }
        J back = J::obj(); for (int k = n; k--;) back.set(nm(k), J(k));
        r.schemas = {O({{"enum", en}}), O({{"enum", es}}), O({{"enum", A({arr})}}), O({{"enum", A({J(1), ob})}}), O({{"enum", A({J(st)})}})};
        if (draft == 7) for (auto &x : {arr, ob, J(st)}) r.schemas.push_back(O({{"const", x}}));
        for (auto &x : {J(n), J(n - 1), J((double)n - 1), J(nm(n)), arr, ob, back, J(st), J(st + "a")}) r.instances.push_back(x);
        for (int k : places(n)) {
            r.instances.push_back(J(k)); r.instances.push_back(J(nm(k)));
            J x = arr; x.a[k] = J(-1); r.instances.push_back(x); x = arr; x.a[k] = J((double)k); r.instances.push_back(x); x = arr; x.a.erase(x.a.begin() + k); r.instances.push_back(x);
            x = ob; x.o[k].second = J(-1); r.instances.push_back(x); x = back; x.o[k].first = "other"; r.instances.push_back(x); x = ob; x.o.erase(x.o.begin() + k); r.instances.push_back(x);
            std::string w = st; w[k] = '#'; r.instances.push_back(J(w));
        }
        return r;
    });
    for (int n : {1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}) g([=] {
        auto nest = [&](int kind, J leaf) { for (int k = 0; k < n; k++) leaf = (kind == 0 || (kind == 2 && k % 2)) ? A({leaf}) : O({{"a", leaf}}); return leaf; };
        Group r; for (int kind : {0, 1, 2}) { r.schemas.push_back(O({{"enum", A({nest(kind, J(1))})}})); for (J leaf : {J(1), J(1.0), J(2), J("1"), J::arr(), J()}) r.instances.push_back(nest(kind, leaf)); }
        return r;
    });
}
// ------------------------------------------------------------------- objects
inline void ladderObject(int draft, bool deep, const GroupSink &g) {
    J I = O({{"type", J("integer")}}), S = O({{"type", J("string")}});
    for (int n : sizes(deep)) g([=] {
        Group r; J pr = J::obj(), req = J::arr(), dep = J::obj(), pp = J::obj(), prq = J::obj(), chain = J::obj(), sd = J::obj();
        for (int k = 0; k < n; k++) {
            pr.set(nm(k), k % 2 ? S : I); req.push(J(nm(n - 1 - k))); dep.set(nm(k), A({J(nm((k + 1) % n))})); pp.set("^" + nm(k) + "$", k % 2 ? S : I);
            J q = I; q.set("required", J(true)); prq.set(nm(k), q); chain.set(nm(k), J(nm((k + 1) % n))); sd.set(nm(k), O({{"properties", O({{nm(n - 1 - k), k % 2 ? S : I}})}}));
        }
        J F(false);
        r.schemas = {O({{"properties", pr}}), O({{"properties", pr}, {"additionalProperties", F}}), O({{"patternProperties", pp}, {"additionalProperties", F}}), O({{"additionalProperties", S}, {"properties", pr}}),
                     O({{"patternProperties", O({{"^m", O({{"maximum", J(n)}})}, {"0$", O({{"maximum", J(n - 5)}})}})}}), O({{"dependencies", sd}})};
        if (draft == 3) { r.schemas.push_back(O({{"properties", prq}})); r.schemas.push_back(O({{"dependencies", chain}})); }
        else {
            if (n) { r.schemas.push_back(O({{"required", req}})); r.schemas.push_back(O({{"dependencies", dep}})); if (n > 1) { J d = J::arr(); for (int k = 1; k < n; k++) d.push(J(nm(k))); r.schemas.push_back(O({{"dependencies", O({{"m0", d}})}})); } }
            for (int k : {n - 1, n, n + 1}) if (k >= 0) { r.schemas.push_back(O({{"minProperties", J(k)}})); r.schemas.push_back(O({{"maxProperties", J(k)}})); }
        }
        if (draft == 7) { r.schemas.push_back(O({{"propertyNames", O({{"maxLength", J(n > 9 ? 3 : 2)}})}})); r.schemas.push_back(O({{"propertyNames", O({{"enum", req}})}})); }
        J good = J::obj(), ints = J::obj(); for (int k = 0; k < n; k++) { good.set(nm(k), k % 2 ? J("s") : J(k)); ints.set(nm(k), J(k)); }
        J rev = J::obj(); for (int k = n; k--;) rev.set(nm(k), k % 2 ? J("s") : J(k));
        J more = good; more.set("extra", J()); J more2 = O({{"extra", J("s")}}); for (auto &m : rev.o) more2.o.push_back(m);
        r.instances = {good, rev, ints, more, more2};
        for (int k : places(n)) {
            J x = good; x.o[k].second = J(); r.instances.push_back(x); x = rev; x.o.erase(x.o.begin() + k); r.instances.push_back(x);
            x = good; x.o[k].first = "M"; r.instances.push_back(x); x = ints; x.o[k].second = J(k + n); r.instances.push_back(x); r.instances.push_back(O({{nm(k), k % 2 ? J("s") : J(k)}}));
            x = good; x.o.resize(k); x.set("longername", J(0)); r.instances.push_back(x);
        }
        return r;
    });
    // every name over the characters that are special in pointers, side by side
    for (int part = 0; part < 5; part++) g([=] {
        std::vector<std::string> al = {"~", "/", "%", "0", "1", "2"}, ns = {""}, cur = {""}; for (int q = 0; q < 3; q++) { std::vector<std::string> nx; for (auto &c : cur) for (auto &x : al) nx.push_back(c + x); cur = nx; ns.insert(ns.end(), nx.begin(), nx.end()); }
        Group r; J pr = J::obj(), dp = J::obj(); int w = 0;
        for (auto &t : ns) { J e = O({{"enum", A({J(w)})}}); pr.set(t, e); dp.set(t, O({{"minProperties", J(2)}, {"properties", O({{"v", e}})}})); if (w % 5 == part) { r.instances.push_back(O({{t, J(w)}})); r.instances.push_back(O({{t, J(w + 1)}})); r.instances.push_back(O({{t, J()}, {"v", J(w)}})); r.instances.push_back(O({{t, J()}, {"v", J(w + 1)}})); } w++; }
        r.schemas = {O({{"properties", pr}}), O({{"additionalProperties", J(false)}, {"properties", pr}})}; if (draft == 3) for (auto &d : dp.o) d.second = O({{"properties", *d.second.get("properties")}}); r.schemas.push_back(O({{"dependencies", dp}}));
        return r;
    });
    // long names that differ in their last or first character
    for (int n : sizes(deep)) if (n) g([=] {
        std::string a(n, 'n'); Group r; J pr = O({{a + "1", I}, {a + "2", S}, {"1" + a, S}, {a, I}});
        r.schemas = {O({{"properties", pr}, {"additionalProperties", J(false)}}), O({{"properties", pr}}), O({{"patternProperties", O({{"1$", I}})}, {"properties", O({{a + "2", S}})}, {"additionalProperties", J(false)}})};
        if (draft != 3) { r.schemas.push_back(O({{"required", A({J(a + "1")})}})); r.schemas.push_back(O({{"dependencies", O({{a + "1", A({J(a + "2")})}})}})); }
        for (auto &x : {a, a + "1", a + "2", a + "3", "1" + a}) for (auto &v : {J(1), J("s")}) { r.instances.push_back(O({{x, v}})); if (x != a + "2") r.instances.push_back(O({{a + "2", J("t")}, {x, v}})); }
        return r;
    });
    std::vector<std::string> ps; for (auto &p : patterns(false, deep ? 11 : 101)) if (p != "^(a|b)*\\1$") ps.push_back(p);
    for (size_t lo = 0; lo < ps.size(); lo += 12) if (deep || lo / 12 % 3 == (size_t)(draft == 7 ? 2 : draft - 3)) g([=] {
        Group r; for (auto &x : patternDocs(deep)) { r.instances.push_back(O({{x.s, J(1)}})); if (x.s.size() < 3) r.instances.push_back(O({{"zz", J("z")}, {x.s, J("s")}})); }
        for (size_t k = lo; k < ps.size() && k < lo + 12; k++) r.schemas.push_back(O({{"additionalProperties", J(false)}, {"patternProperties", O({{ps[k], I}})}})); return r;
    });
    for (int n : {1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}) g([=] {
        Group r; J s = I, t = O({{"additionalProperties", J(false)}}), u = I, w = J::obj(); w.set("minimum", J(3));
        for (int k = 0; k < n; k++) { s = O({{"properties", O({{"a", s}})}}); t = O({{"properties", O({{"a", t}})}, {"additionalProperties", J(false)}}); u = O({{"additionalProperties", u}}); w = O({{"patternProperties", O({{k % 2 ? "a" : "b", w}})}}); }
        r.schemas = {s, t, u, w};
        for (int d : {n - 1, n, n + 1}) for (J leaf : {J(1), J("x"), J::obj(), O({{"b", J(1)}})}) { J x = leaf, y = leaf; for (int k = 0; k < d; k++) { x = O({{"a", x}}); y = O({{k % 2 ? "a" : "b", y}}); } r.instances.push_back(x); r.instances.push_back(y); }
        return r;
    });
}
// -------------------------------------------------------------------- arrays
inline void ladderArray(int draft, bool deep, const GroupSink &g) {
    J I = O({{"type", J("integer")}}), S = O({{"type", J("string")}});
    for (int n : sizes(deep)) g([=] {
        Group r; J tuple = J::arr(), full = J::arr(), alt = J::arr();
        for (int k = 0; k < n; k++) { tuple.push(k % 2 ? S : I); full.push(J(k)); alt.push(k % 2 ? J("s" + std::to_string(k)) : J(k)); }
        r.schemas = {O({{"items", I}}), O({{"items", tuple}}), O({{"items", tuple}, {"additionalItems", J(false)}}), O({{"additionalItems", S}, {"items", tuple}}), O({{"items", A({I})}, {"additionalItems", I}}), O({{"uniqueItems", J(true)}}),
                     O({{"items", A({I, S})}, {"additionalItems", O({{"maximum", J(n)}})}})};
        if (draft == 7) { r.schemas.push_back(O({{"contains", S}})); r.schemas.push_back(O({{"contains", O({{"minimum", J(n)}})}})); r.schemas.push_back(O({{"contains", O({{"type", J("null")}})}})); }
        for (int k : {n - 1, n, n + 1}) if (k >= 0) { r.schemas.push_back(O({{"minItems", J(k)}})); r.schemas.push_back(O({{"maxItems", J(k)}})); }
        J m = alt; m.push(J()); J m2 = alt; m2.push(J("s")); m2.push(J(7)); J f2 = full; f2.push(J(n)); f2.push(J("x"));
        r.instances = {full, alt, m, m2, f2}; J x;
        for (int k : places(n)) { x = full; x.a[k] = J("bad"); r.instances.push_back(x); x = alt; x.a[k] = J(); r.instances.push_back(x); x = full; x.a[k] = J(k + n); r.instances.push_back(x); x = alt; x.a.resize(k); r.instances.push_back(x); x = alt; x.a.erase(x.a.begin() + k); r.instances.push_back(x); }
        return r;
    });
    // two equal items at every pair of places, of every kind
    for (int n : sizes(deep)) if (n >= 2) g([=] {
        Group r; r.schemas = {O({{"uniqueItems", J(true)}}), O({{"uniqueItems", J(false)}}), O({{"maxItems", J(n)}, {"uniqueItems", J(true)}, {"minItems", J(n)}})};
        for (int kind = 0; kind < 6; kind++) {
            auto item = [&](int k, bool other) {
                switch (kind) {
                case 0: return other ? J((double)k) : J(k);
                case 1: return J("k" + std::to_string(k));
                case 2: return A({J(k), other ? J(0.0) : J(0)});
                case 3: return other ? O({{"b", J(0)}, {"a", J(k)}}) : O({{"a", J(k)}, {"b", J(0)}});
                case 4: return O({{nm(k), other ? J(1.0) : J(1)}});
                default: return k % 3 == 0 ? J(k) : k % 3 == 1 ? J(std::to_string(k)) : A({J(std::to_string(k))});
                }
            };
            J base = J::arr(); for (int k = 0; k < n; k++) base.push(item(k, false)); r.instances.push_back(base);
            for (int i : places(n)) for (int j : places(n)) if (i < j && (n <= 20 || i < 2 || j > n - 3 || i == j - 1)) { J x = base; x.a[j] = item(i, true); r.instances.push_back(x); }
        }
        return r;
    });
    for (int n : {1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}) g([=] {
        Group r; J s = I, t = I, u = I, c = I;
        for (int k = 0; k < n; k++) { s = O({{"items", s}}); t = O({{"items", A({J::obj(), t})}}); u = O({{"items", A({J::obj()})}, {"additionalItems", u}}); c = O({{"contains", c}}); }
        r.schemas = {s, t, u}; if (draft == 7) r.schemas.push_back(c);
        for (int d : {n - 1, n, n + 1}) for (J leaf : {J(1), J("x"), J::arr()}) { J x = leaf, y = leaf; for (int k = 0; k < d; k++) { x = A({x}); y = A({J(), y}); } r.instances.push_back(x); r.instances.push_back(y); }
        return r;
    });
}
// --------------------------------------------------------------- combinators
inline void ladderComb(int draft, bool deep, const GroupSink &g) {
    // branch i holds for the integers with bit i: the whole truth table
    for (int n = 1; n <= (deep ? 9 : 7); n++) g([=] {
        Group r; J bs = J::arr(), nots = J::arr();
        for (int i = 0; i < n; i++) { J e = J::arr(), f = J::arr(); for (int v = 0; v < 1 << n; v++) (v >> i & 1 ? e : f).push(J(v)); bs.push(O({{"enum", e}})); nots.push(O({{"enum", f}})); }
        if (draft == 3) { r.schemas = {O({{"extends", bs}}), O({{"type", bs}})}; J t = bs; t.push(J("string")); r.schemas.push_back(O({{"type", t}})); }
        else { for (auto k : {"allOf", "anyOf", "oneOf"}) { r.schemas.push_back(O({{k, bs}})); r.schemas.push_back(O({{"not", O({{k, bs}})}})); r.schemas.push_back(O({{"items", O({{k, bs}})}})); } J l = J::arr(); for (auto &x : bs.a) l.push(O({{"not", x}})); r.schemas.push_back(O({{"oneOf", l}})); r.schemas.push_back(O({{"anyOf", nots}, {"oneOf", bs}})); }
        for (int v = 0; v < 1 << n; v++) { r.instances.push_back(J(v)); if (v < 64) { J a = J::arr(); a.push(J(v)); a.push(J((v * 5 + 1) % (1 << n))); r.instances.push_back(a); } }
        r.instances.push_back(J("s")); return r;
    });
    for (int n : sizes(deep)) if (n > 7) g([=] {
        Group r; J eq = J::arr(), ne = J::arr(), two = J::arr();
        for (int i = 0; i < n; i++) { eq.push(O({{"enum", A({J(i), J("all")})}})); ne.push(O({{"enum", A({J(i)})}})); two.push(O({{"enum", A({J(i / 2), J(i == n - 1 ? -1 : -2)})}})); }
        if (draft == 3) r.schemas = {O({{"extends", eq}}), O({{"type", eq}}), O({{"type", two}})};
        else { J nn = J::arr(); for (auto &x : ne.a) nn.push(O({{"not", x}})); for (auto k : {"allOf", "anyOf", "oneOf"}) for (auto &l : {eq, two, nn}) r.schemas.push_back(O({{k, l}})); }
        r.instances = {J("all"), J(-1), J(-2), J(n), J("s")}; for (int k : places(n)) r.instances.push_back(J(k));
        return r;
    });
    for (int n : {1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}) g([=] {
        Group r; J base = O({{"minimum", J(2)}}), T = draft == 7 ? J(true) : J::obj();
        if (draft == 3) { J a = base, b = base; for (int k = 0; k < n; k++) { a = O({{"extends", a}}); b = O({{"type", A({J("string"), b})}}); } r.schemas = {a, b}; }
        else {
            J a = base, b = base, c = base, d = base, e = base, i = base, f = base;
            for (int k = 0; k < n; k++) { a = O({{"allOf", A({a, T})}}); b = O({{"anyOf", A({O({{"type", J("string")}}), b})}}); c = O({{"oneOf", A({c, O({{"type", J("string")}})})}}); d = O({{"not", d}}); e = k % 3 == 0 ? O({{"not", e}}) : k % 3 == 1 ? O({{"allOf", A({e})}}) : O({{"anyOf", A({e, O({{"type", J("null")}})})}}); i = O({{"if", T}, {"then", i}, {"else", O({{"type", J("null")}})}}); f = O({{"if", f}, {"then", O({{"type", J("integer")}})}, {"else", O({{"type", J("string")}})}}); }
            r.schemas = {a, b, c, d, e}; if (draft == 7) { r.schemas.push_back(i); r.schemas.push_back(f); }
        }
        r.instances = {J(1), J(2), J(2.5), J("s"), J()}; return r;
    });
}
inline bool ladder(const std::string &name, int draft, bool deep, const GroupSink &g) {
    if (name == "many-scalar") ladderScalar(draft, deep, g);
    else if (name == "many-object") ladderObject(draft, deep, g);
    else if (name == "many-array") ladderArray(draft, deep, g);
    else if (name == "many-comb") ladderComb(draft, deep, g);
    else return false;
    return true;
}
} // namespace fam
