// Bounded schema/instance families. Every family is a finite set that is
// enumerated completely; sizes depend only on the tier.
#pragma once
#include "mj.hpp"
#include <functional>

namespace fam {

struct Family {
    std::string name;
    int draft;
    std::vector<J> instances;
    std::function<void(const std::function<void(const J &)> &)> schemas;
};

inline J O(std::initializer_list<std::pair<std::string, J>> l) { return J::obj(l); }
inline J A(std::initializer_list<J> l) { return J::arr(l); }
inline std::string nul(const char *a, const char *b) { std::string r(a); r += '\0'; r += b; return r; }

inline bool mergeInto(J &dst, const J &src) {
    for (auto &m : src.o) if (dst.get(m.first)) return false;
    for (auto &m : src.o) dst.o.push_back(m);
    return true;
}
// All unions of 1..k atoms with pairwise disjoint keys (k <= 3).
inline void unions(const std::vector<J> &atoms, int k, const std::function<void(const J &)> &f) {
    for (size_t x = 0; x < atoms.size(); x++) {
        f(atoms[x]);
        if (k < 2) continue;
        for (size_t y = x + 1; y < atoms.size(); y++) {
            J s = atoms[x];
            if (!mergeInto(s, atoms[y])) continue;
            f(s);
            if (k < 3) continue;
            for (size_t z = y + 1; z < atoms.size(); z++) {
                J t = s;
                if (mergeInto(t, atoms[z])) f(t);
            }
        }
    }
}

// ------------------------------------------------------------------- scalars
inline std::vector<J> scalarInstances() {
    std::vector<J> v = {J(), J(true), J(false),
        J(0), J(1), J(-1), J(2), J(3), J(4), J(6), J(7), J(-3), J(10), J(100),
        J(9007199254740992LL), J(-9007199254740992LL), J(4611686018427387904LL), J((long long)INT64_MIN),
        J(0.0), J(1.0), J(1.5), J(-0.5), J(0.5), J(0.25), J(2.5), J(4.5), J(-4.5), J(7.0), J(6.0), J(2.0000000000000004),
        J(0.1), J(0.3), J(1e-8), J(1e300), J(-1e300), J(9223372036854775808.0), J(-9223372036854777856.0), J(1e19), J(9007199254740992.0), J(12391239123.0),
        J(""), J("a"), J("b"), J("ab"), J("ba"), J("abc"), J("aaaa"), J("\xc3\xa9"), J("\xe2\x82\xac"), J("\xf0\x9f\x98\x80"), J("a\xf0\x9f\x98\x80" "b"),
        J(nul("a", "b")), J(nul("", "")), J("1"), J("7"), J("1.5"), J("true"), J("null"), J(" "),
        J::arr(), A({J(1)}), A({J()}), A({J(1), J(2)}), A({J("a")}), J::obj(), O({{"a", J(1)}}), O({{"a", J(1.0)}}), O({{"", J()}}),
        O({{"a", J(1)}, {"b", J(2)}}), O({{"b", J(2)}, {"a", J(1)}})};
    return v;
}
inline std::vector<J> scalarAtoms(int draft, bool rich) {
    std::vector<J> at;
    std::vector<const char *> types = {"null", "boolean", "integer", "number", "string", "array", "object"};
    if (draft == 3) types.push_back("any");
    for (auto t : types) at.push_back(O({{"type", J(t)}}));
    for (size_t x = 0; x < types.size(); x++) for (size_t y = 0; y < types.size(); y++)
        if (x != y && (rich || x < y)) at.push_back(O({{"type", A({J(types[x]), J(types[y])})}}));
    at.push_back(O({{"type", A({J("null"), J("boolean"), J("string")})}}));
    at.push_back(O({{"type", A({J("string")})}}));
    std::vector<J> vals = {J(), J(true), J(false), J(0), J(1), J(1.0), J(-0.5), J(1.5), J(""), J("a"), J("1"), J(nul("a", "b")), J("\xc3\xa9"),
        J::arr(), A({J(1)}), J::obj(), O({{"a", J(1)}}), O({{"a", J(1)}, {"b", J(2)}}), J(9007199254740992LL), J(9223372036854775808.0)};
    for (auto &v : vals) at.push_back(O({{"enum", A({v})}}));
    for (size_t x = 0; x < vals.size(); x++) for (size_t y = x + 1; y < vals.size(); y++)
        if (rich || (x + y) % 3 == 0) at.push_back(O({{"enum", A({vals[x], vals[y]})}}));
    if (draft == 7) for (auto &v : vals) at.push_back(O({{"const", v}}));
    std::vector<J> lim = {J(0), J(1), J(-1), J(2), J(3), J(1.5), J(-0.5), J(1.0), J(9007199254740992LL), J(9223372036854775808.0), J(1e300)};
    for (const char *k : {"minimum", "maximum"}) for (auto &l : lim) {
        at.push_back(O({{k, l}}));
        std::string ex = k[1] == 'i' ? "exclusiveMinimum" : "exclusiveMaximum";
        if (draft == 7) { at.push_back(O({{ex, l}})); }
        else { at.push_back(O({{k, l}, {ex, J(true)}})); if (rich) at.push_back(O({{ex, J(false)}, {k, l}})); }
    }
    std::vector<J> div = {J(1), J(2), J(3), J(7), J(1.0), J(2.0), J(0.5), J(1.5), J(0.1), J(0.25), J(1e-8), J(4503599627370496LL), J(1e300)};
    for (auto &d : div) at.push_back(O({{draft == 3 ? "divisibleBy" : "multipleOf", d}}));
    for (int n : {0, 1, 2, 3, 4}) { at.push_back(O({{"minLength", J(n)}})); at.push_back(O({{"maxLength", J(n)}})); }
    at.push_back(O({{"maxLength", J(9007199254740992LL)}}));
    at.push_back(O({{"minLength", J(4294967296LL)}}));
    for (const char *p : {"a", "^a", "a$", "^a$", "^$", "", ".", "^.$", "a+b", "[ab]", "^[ab]*$", "b"}) at.push_back(O({{"pattern", J(p)}}));
    return at;
}
inline Family scalar(int draft, bool deep) {
    Family f; f.name = "scalar"; f.draft = draft; f.instances = scalarInstances();
    f.schemas = [draft, deep](const std::function<void(const J &)> &g) {
        g(J::obj());
        unions(scalarAtoms(draft, deep), 2, g);
        if (deep) unions(scalarAtoms(draft, false), 3, g);
    };
    return f;
}

// ------------------------------------------------------------------- objects
inline std::vector<std::string> names() {
    return {"a", "b", "ab", "", "a/b", "~", "a~1b", nul("a", "b"), "%25", "0"};
}
inline std::vector<J> objectInstances(bool deep) {
    std::vector<std::string> n = names();
    std::vector<J> vals = {J(1), J("s")};
    std::vector<J> out = {J(1), J("a"), J(), J::arr(), A({J("a")}), J(true), J::obj(), J("{}"), J("")};
    // texts that weak types would read as what a subschema asks for
    for (auto &x : n) { J o = J::obj(); o.set(x, J("7")); out.push_back(o); o.set(x == "b" ? "a" : "b", J(1)); out.push_back(o); }
    for (size_t x = 0; x < n.size(); x++) for (auto &vx : vals) {
        J o = J::obj(); o.set(n[x], vx); out.push_back(o);
        for (size_t y = x + 1; y < n.size(); y++) for (auto &vy : vals) {
            J p = o; p.set(n[y], vy); out.push_back(p);
            if (x < 4 && y < (deep ? 8u : 5u)) for (size_t z = y + 1; z < (deep ? n.size() : 8); z++) for (auto &vz : vals) {
                J q = p; q.o.insert(q.o.begin(), {n[z], vz}); out.push_back(q);
            }
        }
    }
    return out;
}
inline std::vector<J> objSubs(int draft) {
    std::vector<J> s = {O({{"type", J("integer")}}), J::obj(), O({{"enum", A({J("s")})}})};
    if (draft == 7) { s.push_back(J(true)); s.push_back(J(false)); }
    return s;
}
inline void objectAtoms(int draft, std::vector<J> &pr, std::vector<J> &pp, std::vector<J> &ap, std::vector<J> &rest) {
    auto subs = objSubs(draft); J I = subs[0], S = subs[2];
    auto nm = names();
    pr.push_back(O({{"properties", J::obj()}}));
    for (auto &n : nm) for (auto &s : subs) pr.push_back(O({{"properties", O({{n, s}})}}));
    for (size_t x = 0; x < nm.size(); x++) for (size_t y = 0; y < nm.size(); y++) if (x != y)
        pr.push_back(O({{"properties", O({{nm[x], I}, {nm[y], S}})}}));
    // names that collide when one is not escaped, with nested properties beneath
    pr.push_back(O({{"properties", O({{"a/properties/b", I}, {"a", O({{"properties", O({{"b", S}})}})}})}}));
    pr.push_back(O({{"properties", O({{"a", O({{"properties", O({{"b", S}})}})}, {"a/properties/b", I}})}}));
    pr.push_back(O({{"properties", O({{"b", O({{"type", A({J("integer"), J("string")})}})}, {"a", I}})}}));
    std::vector<std::string> pats = {"a", "^a$", "b$", "^$", "/", "~", ".", "", "^%25$", "^.b"};
    pp.push_back(O({{"patternProperties", J::obj()}}));
    for (auto &p : pats) for (auto &s : subs) pp.push_back(O({{"patternProperties", O({{p, s}})}}));
    for (size_t x = 0; x < pats.size(); x++) for (size_t y = 0; y < pats.size(); y++) if (x != y)
        pp.push_back(O({{"patternProperties", O({{pats[x], I}, {pats[y], S}})}}));
    ap.push_back(O({{"additionalProperties", J(true)}}));
    ap.push_back(O({{"additionalProperties", J(false)}}));
    for (auto &s : {subs[0], subs[1], subs[2]}) ap.push_back(O({{"additionalProperties", s}}));
    if (draft >= 4) {
        for (int n = 0; n <= 3; n++) { rest.push_back(O({{"minProperties", J(n)}})); rest.push_back(O({{"maxProperties", J(n)}})); }
        rest.push_back(O({{"maxProperties", J(4294967296LL)}}));
        rest.push_back(O({{"minProperties", J(4294967296LL)}}));
        for (auto &n : nm) rest.push_back(O({{"required", A({J(n)})}}));
        for (size_t x = 0; x < nm.size(); x++) for (size_t y = x + 1; y < nm.size(); y++)
            rest.push_back(O({{"required", A({J(nm[x]), J(nm[y])})}}));
        rest.push_back(O({{"required", A({J("a"), J("b"), J("")})}}));
        if (draft == 7) rest.push_back(O({{"required", J::arr()}}));
    } else {
        for (auto &n : nm) {
            rest.push_back(O({{"properties", O({{n, O({{"required", J(true)}})}})}}));
            rest.push_back(O({{"properties", O({{n, O({{"required", J(false)}, {"type", J("integer")}})}})}}));
            rest.push_back(O({{"properties", O({{n, O({{"type", J("integer")}, {"required", J(true)}})}, {"zz", J::obj()}})}}));
        }
        for (auto &n : nm) for (auto &q : nm) rest.push_back(O({{"dependencies", O({{n, J(q)}})}}));
    }
    for (size_t x = 0; x < nm.size(); x++) for (size_t y = 0; y < nm.size(); y++) if (x != y)
        rest.push_back(O({{"dependencies", O({{nm[x], A({J(nm[y])})}})}}));
    for (auto &n : nm) rest.push_back(O({{"dependencies", O({{n, A({J("a"), J("b")})}})}}));
    for (auto &n : nm) for (auto &s : subs) {
        rest.push_back(O({{"dependencies", O({{n, s}})}}));
    }
    for (auto &n : nm) {
        rest.push_back(O({{"dependencies", O({{n, O({{"properties", O({{"a", I}})}})}})}}));
        rest.push_back(O({{"dependencies", O({{n, O({{"additionalProperties", J(false)}, {"properties", O({{n, J::obj()}})}})}})}}));
        rest.push_back(O({{"dependencies", O({{"a", A({J(n)})}, {"b", O({{"properties", O({{n, S}})}})}})}}));
    }
    if (draft == 7) {
        rest.push_back(O({{"dependencies", O({{"a", J::arr()}})}}));
        for (auto &s : {O({{"maxLength", J(1)}}), O({{"minLength", J(1)}}), O({{"pattern", J("a")}}), O({{"pattern", J("^.$")}}), O({{"const", J("a")}}), O({{"enum", A({J("a"), J("a/b")})}}),
                        J(true), J(false), J::obj(), O({{"type", J("string")}}), O({{"type", J("integer")}}), O({{"minLength", J(3)}}),
                        O({{"not", O({{"const", J("b")}})}}), O({{"propertyNames", J(false)}}), O({{"const", J(nul("a", "b"))}}),
                        O({{"anyOf", A({O({{"maxLength", J(0)}}), O({{"pattern", J("b")}})})}})})
            rest.push_back(O({{"propertyNames", s}}));
    }
}
inline Family object(int draft, bool deep) {
    Family f; f.name = "object"; f.draft = draft; f.instances = objectInstances(deep);
    f.schemas = [draft, deep](const std::function<void(const J &)> &g) {
        std::vector<J> pr, pp, ap, rest;
        objectAtoms(draft, pr, pp, ap, rest);
        for (auto *l : {&pr, &pp, &ap, &rest}) for (auto &x : *l) g(x);
        // properties x patternProperties x additionalProperties, with absent
        std::vector<J> pr0 = pr, pp0 = pp, ap0 = ap;
        if (!deep) {   // two-name forms thinned deterministically in the quick tier
            std::vector<J> t; for (size_t k = 0; k < pr0.size(); k++) if (pr0[k].get("properties")->o.size() < 2 || k % 7 == 0) t.push_back(pr0[k]);
            pr0 = t; t.clear();
            for (size_t k = 0; k < pp0.size(); k++) if (pp0[k].get("patternProperties")->o.size() < 2 || k % 5 == 0) t.push_back(pp0[k]);
            pp0 = t;
        }
        for (auto &a : ap) { for (auto &p : pr0) { J s = p; mergeInto(s, a); g(s); } for (auto &p : pp0) { J s = a; mergeInto(s, p); g(s); } }
        for (size_t x = 0; x < pr0.size(); x++) for (size_t y = 0; y < pp0.size(); y++) {
            if (!deep && (x + y) % 3) continue;
            J s = pr0[x]; mergeInto(s, pp0[y]); g(s);
            for (size_t z = 0; z < ap.size(); z++) { if (!deep && z == 2 + (x + y) % 3) continue; J t = s; mergeInto(t, ap[z]); g(t); }
        }
        // every other keyword with every third object keyword form
        std::vector<J> some;
        for (size_t k = 0; k < pr.size(); k += deep ? 3 : 17) some.push_back(pr[k]);
        for (size_t k = 0; k < pp.size(); k += deep ? 3 : 17) some.push_back(pp[k]);
        for (auto &a : ap) some.push_back(a);
        for (auto &r : rest) for (auto &s : some) { J t = r; if (mergeInto(t, s)) g(t); }
        std::vector<J> rr; for (size_t k = 0; k < rest.size(); k += deep ? 2 : 6) rr.push_back(rest[k]);
        unions(rr, 2, g);
    };
    return f;
}

// -------------------------------------------------------------------- arrays
inline std::vector<J> arrayInstances(bool deep) {
    std::vector<J> el = {J(1), J("x"), J(), J(1.0)};
    std::vector<J> out = {J(1), J("x"), J(), J::obj(), O({{"0", J(1)}}), J(true), J::arr()};
    std::vector<J> level = {J::arr()};
    for (int n = 1; n <= (deep ? 5 : 4); n++) {
        std::vector<J> nx;
        for (auto &l : level) for (auto &e : el) { J a = l; a.push(e); nx.push_back(a); }
        level = nx; out.insert(out.end(), level.begin(), level.end());
    }
    for (auto &l : {A({J("7")}), A({J(1), J("7")}), A({J("7"), J(1)}), A({J(1), J("7"), J("x")}), A({J("x"), J("7")}), A({J("x"), J(1), J("7")}), A({J("")}), A({J("x"), J("")}), A({J(1), J(1), J("1")}), A({J("null")}), A({J("1"), J("7"), J("x")})}) out.push_back(l);
    std::vector<J> deepv = {J::arr(), J::obj(), A({J(1)}), A({J(1.0)}), A({J(2)}), A({J(1), J(2)}), A({J(2), J(1)}), O({{"a", J(1)}}), O({{"a", J(1)}, {"b", J(2)}}), O({{"b", J(2)}, {"a", J(1)}}),
        O({{"a", J(1)}, {"b", J(3)}}), J(false), J(true), J(0), J(0.0), J(""), J("0"), A({A({J()})}), A({J::arr()}), J(nul("a", "b")), J(nul("a", "c")), J("a")};
    for (auto &x : deepv) { out.push_back(A({x})); for (auto &y : deepv) { out.push_back(A({x, y})); out.push_back(A({J(5), x, y})); out.push_back(A({x, J(5), y})); } }
    return out;
}
inline void arrayAtoms(int draft, std::vector<J> &it, std::vector<J> &ad, std::vector<J> &rest) {
    std::vector<J> subs = {O({{"type", J("integer")}}), O({{"type", J("string")}}), J::obj()};
    if (draft == 7) { subs.push_back(J(true)); subs.push_back(J(false)); }
    std::vector<J> l = {J::arr()}, cur = l;
    for (int n = 1; n <= 3; n++) {
        std::vector<J> nx;
        for (auto &c : cur) for (auto &s : subs) { J a = c; a.push(s); nx.push_back(a); }
        cur = nx; l.insert(l.end(), cur.begin(), cur.end());
    }
    for (auto &s : subs) it.push_back(O({{"items", s}}));
    for (auto &a : l) it.push_back(O({{"items", a}}));
    ad.push_back(O({{"additionalItems", J(true)}}));
    ad.push_back(O({{"additionalItems", J(false)}}));
    ad.push_back(O({{"additionalItems", subs[0]}}));
    ad.push_back(O({{"additionalItems", subs[1]}}));
    ad.push_back(O({{"additionalItems", O({{"type", J("null")}})}}));
    rest.push_back(O({{"uniqueItems", J(true)}}));
    rest.push_back(O({{"uniqueItems", J(false)}}));
    for (int n = 0; n <= 4; n++) { rest.push_back(O({{"minItems", J(n)}})); rest.push_back(O({{"maxItems", J(n)}})); }
    rest.push_back(O({{"maxItems", J(4294967296LL)}}));
    rest.push_back(O({{"minItems", J(4294967296LL)}}));
    if (draft == 7) {
        for (auto &s : subs) rest.push_back(O({{"contains", s}}));
        rest.push_back(O({{"contains", O({{"type", J("null")}})}}));
        rest.push_back(O({{"contains", O({{"const", J(1)}})}}));
        rest.push_back(O({{"contains", O({{"not", O({{"const", J(1)}})}})}}));
        rest.push_back(O({{"contains", O({{"contains", J(true)}})}}));
        rest.push_back(O({{"contains", O({{"items", O({{"type", J("integer")}})}, {"minItems", J(1)}, {"type", J("array")}})}}));
    }
}
inline Family array(int draft, bool deep) {
    Family f; f.name = "array"; f.draft = draft; f.instances = arrayInstances(deep);
    f.schemas = [draft, deep](const std::function<void(const J &)> &g) {
        std::vector<J> it, ad, rest;
        arrayAtoms(draft, it, ad, rest);
        for (auto *l : {&it, &ad, &rest}) for (auto &x : *l) g(x);
        size_t n = 0;
        for (auto &i : it) for (auto &a : ad) {
            J s = i; mergeInto(s, a); g(s);
            J r = a; mergeInto(r, i); if (deep || ++n % 5 == 0) g(r);
            if (deep || n % 7 == 0) for (auto &x : rest) { J t = s; mergeInto(t, x); g(t); }
        }
        n = 0;
        for (auto &x : rest) for (auto &i : it) if (deep || ++n % 3 == 0) { J s = x; mergeInto(s, i); g(s); }
        unions(rest, deep ? 3 : 2, g);
        J I = O({{"type", J("integer")}});
        g(O({{"items", O({{"items", I}})}}));
        g(O({{"items", A({O({{"items", A({I})}, {"additionalItems", J(false)}}), I})}, {"additionalItems", O({{"items", I}})}}));
        g(O({{"items", O({{"uniqueItems", J(true)}, {"minItems", J(1)}})}, {"uniqueItems", J(true)}}));
    };
    return f;
}

// --------------------------------------------------------------- combinators
inline std::vector<J> combInstances() {
    return {J(1), J(2), J(3), J(2.5), J("a"), J("b"), J(), J(true), A({J(1)}), A({J("a"), J(1)}), O({{"a", J(1)}}), O({{"a", J("a")}, {"b", J(3)}}),
        J("2"), J("1"), J(false), J("null"), O({{"a", J("1")}}), A({J("3")})};
}
inline std::vector<J> combOver(int draft, const std::vector<J> &b, bool full) {
    std::vector<J> out;
    std::vector<J> lists;
    for (auto &x : b) { lists.push_back(A({x})); for (auto &y : b) lists.push_back(A({x, y})); }
    if (draft == 3) {
        for (auto &x : b) { out.push_back(O({{"extends", x}})); out.push_back(O({{"type", x}})); }
        for (auto &l : lists) {
            out.push_back(O({{"extends", l}}));
            J t = l; out.push_back(O({{"type", t}}));
            t.a.insert(t.a.begin() + 1, J("string")); out.push_back(O({{"type", t}}));
        }
        return out;
    }
    for (auto &l : lists) for (const char *k : {"allOf", "anyOf", "oneOf"}) out.push_back(O({{k, l}}));
    if (full) for (auto &x : b) for (auto &y : b) for (auto &z : b) for (const char *k : {"allOf", "anyOf", "oneOf"}) out.push_back(O({{k, A({x, y, z})}}));
    for (auto &x : b) out.push_back(O({{"not", x}}));
    if (draft == 7) {
        for (auto &x : b) {
            out.push_back(O({{"if", x}}));
            out.push_back(O({{"then", x}}));
            out.push_back(O({{"else", x}}));
            for (auto &y : b) {
                out.push_back(O({{"if", x}, {"then", y}}));
                out.push_back(O({{"else", y}, {"if", x}}));
                if (full) out.push_back(O({{"then", x}, {"else", y}}));
                if (full) for (auto &z : b) out.push_back(O({{"if", x}, {"then", y}, {"else", z}}));
            }
        }
    }
    return out;
}
inline Family comb(int draft, bool deep) {
    Family f; f.name = "comb"; f.draft = draft; f.instances = combInstances();
    f.schemas = [draft, deep](const std::function<void(const J &)> &g) {
        std::vector<J> b = {O({{"type", J("integer")}}), O({{"minimum", J(2)}}), O({{"type", J("string")}}), J::obj()};
        if (draft == 7) { b.push_back(J(true)); b.push_back(J(false)); }
        std::vector<J> wide = b;
        wide.push_back(O({{"enum", A({J(1), J("a")})}}));
        wide.push_back(O({{"type", A({J("null"), J("array")})}}));
        wide.push_back(O({{"maximum", J(2)}}));
        std::vector<J> l1 = combOver(draft, wide, true);
        for (auto &s : wide) g(s);
        for (auto &s : l1) g(s);
        // next to another keyword, either side
        for (auto &s : l1) { J t = s; if (mergeInto(t, O({{"enum", A({J(1), J(3), J("b")})}}))) g(t); J u = O({{"maximum", J(2)}}); if (mergeInto(u, s)) g(u); }
        // depth 2: every shape over basis plus every depth-1 schema of the small basis
        std::vector<J> small = draft == 7 ? std::vector<J>{b[0], b[1], J(false)} : std::vector<J>{b[0], b[1]};
        std::vector<J> inner = combOver(draft, small, false);
        for (auto &s : small) inner.push_back(s);
        for (auto &s : combOver(draft, inner, deep && inner.size() < 30)) g(s);
        // under items / properties / additionalProperties / dependencies
        for (auto &s : inner) {
            g(O({{"items", s}})); g(O({{"items", A({s})}})); g(O({{"properties", O({{"a", s}})}}));
            g(O({{"patternProperties", O({{"a", s}})}}));
            if (s.t == J::Obj) { g(O({{"additionalProperties", s}})); g(O({{"dependencies", O({{"a", s}})}})); g(O({{"items", A({J::obj()})}, {"additionalItems", s}})); }
            if (draft == 7) { g(O({{"contains", s}})); g(O({{"propertyNames", s}})); }
        }
        if (draft != 3) {
            // two different combinators side by side, all pairs of depth-1 schemas over the small basis
            unions(combOver(draft, small, false), 2, g);
        }
        // depth 3 chains over a two-element basis
        std::vector<J> d1 = combOver(draft, {b[0], b[1]}, false);
        std::vector<J> d2;
        for (auto &x : d1) {
            if (draft == 3) { d2.push_back(O({{"extends", x}})); d2.push_back(O({{"type", A({x})}})); continue; }
            for (const char *k : {"allOf", "anyOf", "oneOf"}) d2.push_back(O({{k, A({x})}}));
            d2.push_back(O({{"not", x}}));
            if (draft == 7) d2.push_back(O({{"if", x}, {"then", b[1]}, {"else", b[0]}}));
        }
        for (auto &s : combOver(draft, d2, false)) { if (deep || s.o[0].second.t != J::Arr || s.o[0].second.a.size() < 2) g(s); }
        if (draft == 3) {
            g(O({{"type", A({J("integer"), O({{"properties", O({{"a", O({{"type", J("string")}})}})}, {"type", J("object")}}), O({{"type", J("array")}})})}}));
            g(O({{"type", A({O({{"minimum", J(2)}}), J("string")})}}));
        }
    };
    return f;
}

inline Family make(const std::string &name, int draft, bool deep) {
    if (name == "scalar") return scalar(draft, deep);
    if (name == "object") return object(draft, deep);
    if (name == "array") return array(draft, deep);
    return comb(draft, deep);
}

} // namespace fam
