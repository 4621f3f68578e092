// C22: user-defined constraints and regular-expression engines, under every
// placement, answer and failure within the bounds.
#include "../lib/rj.hpp"
#include "../lib/adlib.hpp"
#include "../lib/ref.hpp"
#include "../lib/harness.hpp"
#include <valijson/constraints/concrete_constraints.hpp>
using namespace valijson;

// ---- values and model ----
static J O(std::initializer_list<std::pair<std::string, J>> l) { J o = J::obj(); for (auto &m : l) o.set(m.first, m.second); return o; }
static J A(std::initializer_list<J> l) { J a = J::arr(); for (auto &x : l) a.push(x); return a; }
static std::string tok(const std::string &s) { std::string r; for (char c : s) r += c == '~' ? "~0" : c == '/' ? "~1" : std::string(1, c); return r; }
static std::string text(const J &v) {      // members in order of their names
    if (v.t == J::Arr) { std::string r = "["; for (auto &x : v.a) r += text(x) + ","; return r + "]"; }
    if (v.t != J::Obj) return v.str();
    std::map<std::string, std::string> m; for (auto &x : v.o) m[x.first] = text(x.second);
    std::string r = "{"; for (auto &x : m) r += J(x.first).str() + ":" + x.second + ","; return r + "}";
}
typedef std::map<std::pair<std::string, std::string>, bool> Answers;     // (pattern, string) to answer
struct Ctx {
    int draft; const J *root = nullptr; bool all = false;
    std::set<std::pair<int, std::string>> mayVal, mustVal, mayLoc, mustLoc, failLoc, mustFail;   // (tag, value) and (tag, location)
    Answers ans; std::set<std::pair<std::string, std::string>> asked;
    bool rx(const std::string &p, const std::string &s) { asked.insert({p, s}); auto it = ans.find({p, s}); return it != ans.end() ? it->second : false; }
};
static bool isType(const std::string &t, const J &v) { return t == "integer" ? v.t == J::Int : t == "string" ? v.t == J::Str : t == "object" ? v.t == J::Obj : v.t == J::Arr; }
static bool plainRx(const std::string &p, const std::string &s) { return p == "^a" ? !s.empty() && s[0] == 'a' : true; }
static bool g_controlled = false;                                      // patterns are answered by the controlled engine
static bool match(Ctx &c, const std::string &p, const std::string &s) { return g_controlled ? c.rx(p, s) : plainRx(p, s); }
// direct: with results, this application is one the outcome rests on, so it must be made
static bool ev(const J &s, const J &v, const std::string &loc, bool direct, Ctx &c) {
    if (s.t == J::Bool) return s.b;
    if (const J *r = s.get("$ref")) { const J *t = r->s == "#" ? c.root : c.root->get("definitions")->get(r->s.substr(14)); return ev(*t, v, loc, direct, c); }
    bool ok = true;
    auto sub = [&](const J &x, const J &y, const std::string &l, bool d) { return ev(x, y, l, d, c); };
    if (const J *k = s.get("x-c")) {
        int tag = (int)k->get("n")->i; bool o = isType(k->get("t")->s, v); std::string vs = text(v);
        c.mayVal.insert({tag, vs}); c.mayLoc.insert({tag, loc}); if (!o) c.failLoc.insert({tag, loc});
        if (direct) { c.mustVal.insert({tag, vs}); c.mustLoc.insert({tag, loc}); if (!o) c.mustFail.insert({tag, loc}); }
        ok = o && ok;
    }
    if (const J *k = s.get("type")) {
        if (k->t == J::Str) ok = isType(k->s, v) && ok;
        else { bool any = false; for (auto &e : k->a) { if (e.t == J::Str) any = (e.s == "null" ? v.t == J::Null : isType(e.s, v)) || any; else any = sub(e, v, loc, false) || any; } ok = any && ok; }
    }
    if (const J *k = s.get("pattern")) if (v.t == J::Str) ok = match(c, k->s, v.s) && ok;
    for (const char *kw : {"allOf", "extends"}) if (const J *k = s.get(kw)) { if (k->t == J::Arr) { for (auto &e : k->a) ok = sub(e, v, loc, direct) && ok; } else ok = sub(*k, v, loc, direct) && ok; }
    if (const J *k = s.get("anyOf")) { bool any = false; for (auto &e : k->a) any = sub(e, v, loc, false) || any; ok = any && ok; }
    if (const J *k = s.get("oneOf")) { int n = 0; for (auto &e : k->a) n += sub(e, v, loc, false); ok = n == 1 && ok; }
    if (const J *k = s.get("not")) ok = !sub(*k, v, loc, false) && ok;
    if (const J *k = s.get("if")) {
        bool y = sub(*k, v, loc, false);
        const J *t = s.get("then"), *e = s.get("else");
        if (c.all) { if (t) sub(*t, v, loc, false); if (e) sub(*e, v, loc, false); }
        if (y && t) ok = sub(*t, v, loc, direct) && ok;
        if (!y && e) ok = sub(*e, v, loc, direct) && ok;
    }
    if (v.t == J::Arr) {
        const J *k = s.get("items"), *ad = s.get("additionalItems");
        if (k) for (size_t q = 0; q < v.a.size(); q++) {
            std::string l = loc + "/" + std::to_string(q);
            if (k->t != J::Arr) ok = sub(*k, v.a[q], l, direct) && ok;
            else if (q < k->a.size()) ok = sub(k->a[q], v.a[q], l, direct) && ok;
            else if (ad) ok = sub(*ad, v.a[q], l, direct) && ok;
        }
        if (const J *x = s.get("contains")) { bool any = false; for (size_t q = 0; q < v.a.size(); q++) any = sub(*x, v.a[q], loc + "/" + std::to_string(q), false) || any; ok = any && ok; }
    }
    if (v.t == J::Obj) {
        const J *pr = s.get("properties"), *pp = s.get("patternProperties"), *ap = s.get("additionalProperties");
        for (auto &m : v.o) {
            std::string l = loc + "/" + tok(m.first); bool hit = false;
            if (pr) if (const J *x = pr->get(m.first)) { hit = true; ok = sub(*x, m.second, l, direct) && ok; }
            if (pp) for (auto &q : pp->o) { bool y = match(c, q.first, m.first); if (c.all) sub(q.second, m.second, l, false); if (y) { hit = true; ok = sub(q.second, m.second, l, direct) && ok; } }
            if (ap && (!hit || c.all)) { bool o = sub(*ap, m.second, l, direct && !hit); if (!hit) ok = o && ok; }
        }
        if (const J *x = s.get("propertyNames")) for (auto &m : v.o) ok = sub(*x, J(m.first), loc, false) && ok;
        if (const J *x = s.get("dependencies")) for (auto &m : x->o) if (v.get(m.first)) ok = sub(m.second, v, loc, direct) && ok;
    }
    return ok;
}
// occurrences of the keyword in schema positions that are reached while populating
static void occ(const J &s, const J &root, std::vector<int> &out, std::set<const J *> &refs, bool &hasRef) {
    if (s.t != J::Obj) return;
    if (const J *r = s.get("$ref")) {
        hasRef = true; const J *t = r->s == "#" ? &root : root.get("definitions")->get(r->s.substr(14));
        if (refs.insert(t).second) occ(*t, root, out, refs, hasRef);
        return;
    }
    if (const J *k = s.get("x-c")) out.push_back((int)k->get("n")->i);
    auto one = [&](const J &x) { occ(x, root, out, refs, hasRef); };
    for (const char *k : {"not", "if", "then", "else", "contains", "propertyNames", "additionalItems", "additionalProperties"}) if (const J *x = s.get(k)) { if ((k == std::string("then") || k == std::string("else")) && !s.get("if")) continue; one(*x); }
    for (const char *k : {"allOf", "anyOf", "oneOf", "items", "extends", "type"}) if (const J *x = s.get(k)) { if (x->t == J::Arr) for (auto &e : x->a) one(e); else one(*x); }
    for (const char *k : {"properties", "patternProperties", "dependencies"}) if (const J *x = s.get(k)) for (auto &m : x->o) one(m.second);
}

// ---- what the library is given ----
static J fromAdapter(const adapters::Adapter &a) {
    if (a.isNull()) return J();
    if (a.isBool()) return J(a.asBool());
    if (a.isInteger()) return J((long long)a.asInteger());
    if (a.isNumber()) return J(a.asDouble());
    if (a.isString()) return J(a.asString());
    if (a.isArray()) { J r = J::arr(); a.applyToArray([&](const adapters::Adapter &e) { r.push(fromAdapter(e)); return true; }); return r; }
    J r = J::obj(); a.applyToObject([&](const std::string &n, const adapters::Adapter &e) { r.set(n, fromAdapter(e)); return true; }); return r;
}
static std::string pointerOf(const ValidationResults::Path &p) { ValidationResults r; r.pushError(p, ""); ValidationResults::Error e; r.popError(e); return e.jsonPointer; }
struct Call { int tag; std::string value, loc; bool res; };
static struct Log {
    std::vector<Call> calls; std::vector<int> made; std::vector<std::string> madeText;
    std::set<const void *> live; int maxLive = 0; long builders = 0; int makes = 0, copies = 0, throwMake = -1, throwCopy = -1, throwKind = 0; std::string err;
    void fail(const std::string &m) { if (err.empty()) err = m; }
    void reset() { calls.clear(); made.clear(); madeText.clear(); makes = copies = 0; throwMake = throwCopy = -1; err.clear(); }
} g;
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
static void boom() { if (g.throwKind == 0) throw Boom("user"); if (g.throwKind == 1) throw 42; throw std::bad_alloc(); }
struct Custom : constraints::PolyConstraint {
    int tag; std::string type; long pad[7] = {1, 2, 3, 4, 5, 6, 7};
    Custom(int t, std::string y) : tag(t), type(std::move(y)) { g.live.insert(this); }
    Custom(const Custom &o) : constraints::PolyConstraint(o), tag(o.tag), type(o.type) { if (g.copies++ == g.throwCopy) boom(); g.live.insert(this); }
    ~Custom() override { if (!g.live.erase(this)) g.fail("a constraint was released twice"); tag = -7; for (long p : pad) if (p < 1 || p > 7) g.fail("a constraint was overwritten"); }
    Constraint *cloneInto(void *p) const override { return new (p) Custom(*this); }
    size_t sizeOf() const override { return sizeof(Custom); }
    bool validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const override {
        if (!g.live.count(this)) { g.fail("a constraint was called after its release"); return true; }
        J v = fromAdapter(a);
        g.calls.push_back({tag, text(v), r ? pointerOf(path) : "", r != nullptr});
        bool ok = isType(type, v);
        if (!ok && r) r->pushError(path, "custom " + std::to_string(tag));
        return ok;
    }
};
struct Build : ConstraintBuilder {
    Build() { g.builders++; } ~Build() override { g.builders--; }
    constraints::Constraint *make(const adapters::Adapter &a) const override {
        J v = fromAdapter(a); g.madeText.push_back(v.str());
        if (g.makes++ == g.throwMake) boom();
        g.made.push_back((int)v.get("n")->i); return new Custom((int)v.get("n")->i, v.get("t")->s);
    }
};

// ---- placements ----
typedef std::function<J(int)> Leaf;                                    // a fresh leaf
struct Comb { const char *name; int slots; std::function<J(std::vector<J>)> make; int drafts; };   // bit 0: 3, 1: 4, 2: 7
static std::vector<Comb> combs() {
    return {
        {"properties", 2, [](std::vector<J> h) { return O({{"properties", O({{"a", h[0]}, {"b", h[1]}})}}); }, 7},
        {"patternProperties", 1, [](std::vector<J> h) { return O({{"patternProperties", O({{"^a", h[0]}})}}); }, 7},
        {"additionalProperties", 1, [](std::vector<J> h) { return O({{"additionalProperties", h[0]}}); }, 7},
        {"propertiesAdditional", 2, [](std::vector<J> h) { return O({{"properties", O({{"a", h[0]}})}, {"additionalProperties", h[1]}}); }, 7},
        {"propertiesPattern", 2, [](std::vector<J> h) { return O({{"properties", O({{"a", h[0]}})}, {"patternProperties", O({{"^a", h[1]}})}}); }, 7},
        {"items", 1, [](std::vector<J> h) { return O({{"items", h[0]}}); }, 7},
        {"tuple", 2, [](std::vector<J> h) { return O({{"items", A({h[0], h[1]})}}); }, 7},
        {"additionalItems", 2, [](std::vector<J> h) { return O({{"items", A({h[0]})}, {"additionalItems", h[1]}}); }, 7},
        {"dependencies", 1, [](std::vector<J> h) { return O({{"dependencies", O({{"a", h[0]}})}}); }, 7},
        {"allOf", 2, [](std::vector<J> h) { return O({{"allOf", A({h[0], h[1]})}}); }, 6},
        {"anyOf", 2, [](std::vector<J> h) { return O({{"anyOf", A({h[0], h[1]})}}); }, 6},
        {"oneOf", 2, [](std::vector<J> h) { return O({{"oneOf", A({h[0], h[1]})}}); }, 6},
        {"not", 1, [](std::vector<J> h) { return O({{"not", h[0]}}); }, 6},
        {"extends", 1, [](std::vector<J> h) { return O({{"extends", h[0]}}); }, 1},
        {"extendsList", 2, [](std::vector<J> h) { return O({{"extends", A({h[0], h[1]})}}); }, 1},
        {"typeUnion", 2, [](std::vector<J> h) { return O({{"type", A({h[0], J("null"), h[1]})}}); }, 1},
        {"if", 3, [](std::vector<J> h) { return O({{"if", h[0]}, {"then", h[1]}, {"else", h[2]}}); }, 4},
        {"contains", 1, [](std::vector<J> h) { return O({{"contains", h[0]}}); }, 4},
        {"propertyNames", 1, [](std::vector<J> h) { return O({{"propertyNames", h[0]}}); }, 4},
        {"noise", 1, [](std::vector<J> h) { return O({{"enumx", A({h[0]})}, {"default", h[0]}, {"title", J("t")}, {"items", h[0]}}); }, 7},
    };
}
struct Tags { int n = 0; unsigned variant = 0; J leaf() { int k = n++; bool s = (variant >> (k % 8)) & 1; return O({{"x-c", O({{"n", J(k)}, {"t", J(s ? "string" : "integer")}})}}); } };
static void renumber(J &s, Tags &t) {     // leaves are numbered in document order
    if (s.t == J::Arr) { for (auto &x : s.a) renumber(x, t); return; }
    if (s.t != J::Obj) return;
    if (s.get("x-c")) { J l = t.leaf(); s.set("x-c", *l.get("x-c")); }
    for (auto &m : s.o) if (m.first != "x-c") renumber(m.second, t);
}
template <class F> static void placements(int draft, int depth, F &&f) {
    int bit = draft == 3 ? 1 : draft == 4 ? 2 : 4;
    J leaf = O({{"x-c", J(0)}});
    auto cs = combs();
    std::vector<J> level = {leaf}, all = {leaf};
    for (int d = 0; d < depth; d++) {
        std::vector<J> next;
        for (auto &c : cs) if (c.drafts & bit) for (int s = 0; s < c.slots; s++) for (auto &in : level) {
            std::vector<J> h(c.slots, leaf); h[s] = in; J x = c.make(h); next.push_back(x);
            if (d == 0) { J y = x; y.set("x-c", J(0)); next.push_back(y); }      // the keyword next to another
        }
        level = next; for (auto &x : next) all.push_back(x);
    }
    for (auto &x : all) f(x);
    // by reference: a schema used several times, one that is not used, one next to a reference, recursion
    std::vector<J> some(all.begin(), all.begin() + std::min<size_t>(all.size(), 60));
    for (auto &x : some) {
        J ref = O({{"$ref", J("#/definitions/d")}});
        f(O({{"properties", O({{"a", ref}, {"b", ref}})}, {"items", ref}, {"definitions", O({{"d", x}, {"unused", leaf}})}}));
        J ref2 = ref; ref2.set("x-c", J(0));
        f(O({{"properties", O({{"a", ref2}})}, {"definitions", O({{"d", x}})}}));
        if (draft != 3) { f(O({{"allOf", A({ref, x})}, {"definitions", O({{"d", x}})}})); f(O({{"not", ref}, {"definitions", O({{"d", x}})}})); f(O({{"anyOf", A({leaf, ref})}, {"definitions", O({{"d", x}})}})); }
        f(O({{"properties", O({{"a", O({{"$ref", J("#")}})}, {"x-c", x}})}, {"items", x}}));
        f(O({{"properties", O({{"x-c", leaf}, {"a", x}})}, {"enum", A({O({{"x-c", J(1)}}), J(1), J("s"), O({{"a", J(1)}})})}, {"x-c", J(0)}}));
    }
}
static std::vector<J> instances() {
    std::vector<J> v = {J(), J(1), J("s"), J::arr(), J::obj()};
    J one(1), s("s");
    for (auto &x : {one, s}) {
        v.push_back(A({x})); v.push_back(O({{"a", x}})); v.push_back(O({{"b", x}})); v.push_back(O({{"ab", x}})); v.push_back(A({A({x})})); v.push_back(A({O({{"a", x}})})); v.push_back(O({{"a", A({x})}})); v.push_back(O({{"a", O({{"a", x}})}}));
        v.push_back(O({{"x-c", x}, {"a", O({{"b", x}, {"a", O({{"a", x}})}})}})); v.push_back(O({{"b", A({x, x})}}));
        for (auto &y : {one, s}) { v.push_back(A({x, y})); v.push_back(O({{"a", x}, {"b", y}})); v.push_back(O({{"a", x}, {"ab", y}, {"c", x}})); v.push_back(A({x, y, x})); v.push_back(O({{"a", O({{"a", x}, {"b", y}})}, {"b", x}})); }
    }
    return v;
}
static J mapped(const J &s) {      // the same schema with a built-in keyword, for the reference evaluator
    if (s.t == J::Arr) { J r = J::arr(); for (auto &x : s.a) r.push(mapped(x)); return r; }
    if (s.t != J::Obj) return s;
    J r = J::obj(); for (auto &m : s.o) { if (m.first == "x-c" && m.second.get("n") && m.second.get("t")) { J t = s.get("type") ? *s.get("type") : J(); if (t.t == J::Null) r.set("type", *m.second.get("t")); } else r.set(m.first, mapped(m.second)); }
    return r;
}
static bool hasBoth(const J &s) { if (s.t == J::Arr) { for (auto &x : s.a) if (hasBoth(x)) return true; return false; } if (s.t != J::Obj) return false; if (s.get("x-c") && s.get("type")) return true; for (auto &m : s.o) if (hasBoth(m.second)) return true; return false; }

static std::string populateCase(int draft, const J &schema, const AdLib &l, Schema &s) {
    g.reset();
    auto h = l.build(schema);
    size_t live0 = g.live.size();
    {
        SchemaParser p(rj::ver(draft)); p.addConstraintBuilder("x-c", new Build()); p.addConstraintBuilder("x-absent", new Build());
        try { h->populate(p, s); } catch (const std::exception &e) { return std::string("schema rejected: ") + e.what(); }
    }
    if (g.builders) return "a builder was not released with the parser";
    std::vector<int> want; std::set<const J *> refs; bool hasRef = false; occ(schema, schema, want, refs, hasRef);
    if (hasRef) { std::set<int> a(want.begin(), want.end()), b(g.made.begin(), g.made.end()); if (a != b) return "the builder was not given exactly the occurrences in schema positions"; }
    else { auto a = want, b = g.made; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) return "the builder was given " + std::to_string(b.size()) + " occurrences instead of " + std::to_string(a.size()); }
    if (g.live.size() - live0 != g.made.size()) return std::to_string(g.live.size() - live0) + " constraints live after populating, made " + std::to_string(g.made.size());
    return g.err;
}
static std::string validateCase(int draft, const J &schema, const J &inst, const Handle &h, const Schema &s, bool results, bool crossCheck) {
    Ctx c; c.draft = draft; c.root = &schema;
    bool want = ev(schema, inst, "", true, c);
    if (crossCheck) { ref::Eval e(draft); J m = mapped(schema); e.index(m, ""); if (e.valid(m, inst) != want) throw std::runtime_error("models disagree on " + schema.str() + " and " + inst.str()); }
    g.calls.clear(); g.err.clear();
    Validator v; ValidationResults r; bool got;
    try { got = h.validate(v, s, results ? &r : nullptr); } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
    if (got != want) return std::string("verdict ") + (got ? "valid" : "invalid");
    std::set<std::pair<int, std::string>> vals, locs, errs;
    for (auto &k : g.calls) {
        if (!c.mayVal.count({k.tag, k.value})) return "constraint " + std::to_string(k.tag) + " was called for " + k.value + ", to which its schema does not apply";
        vals.insert({k.tag, k.value});
        if (k.res) { if (!c.mayLoc.count({k.tag, k.loc})) return "constraint " + std::to_string(k.tag) + " was called with the location " + J(k.loc).str(); locs.insert({k.tag, k.loc}); }
    }
    if (results || want) for (auto &m : c.mustVal) if (!vals.count(m)) return "constraint " + std::to_string(m.first) + " was not called for " + m.second;
    if (results) {
        for (auto &m : c.mustLoc) if (!locs.count(m)) return "constraint " + std::to_string(m.first) + " was not called at " + J(m.second).str();
        for (auto &e : r) if (e.description.compare(0, 7, "custom ") == 0) { std::pair<int, std::string> k(atoi(e.description.c_str() + 7), e.jsonPointer); errs.insert(k); if (!c.failLoc.count(k)) return "an error of constraint " + std::to_string(k.first) + " at " + J(k.second).str() + ", where it does not fail"; }
        for (auto &m : c.mustFail) if (!errs.count(m)) return "the error of constraint " + std::to_string(m.first) + " at " + J(m.second).str() + " is missing";
        if (want && r.numErrors()) return "errors of a valid document";
    }
    return g.err;
}
static J placeJ(int draft, const std::string &lib, const J &s, const J *i, bool res) { return J::obj({{"draft", J(draft)}, {"lib", J(lib)}, {"schema", s}, {"instance", i ? A({*i}) : J::arr()}, {"results", J(res)}}); }

// ---- failures of user code while populating ----
static std::string lifeCase(Run &run, int draft, const J &schema, const AdLib &l, int mode, int at, int kind, bool twoBuilders, bool &hit) {
    g.reset(); run.c("fault_runs")++;
    size_t live0 = g.live.size(); std::string m;
    auto h = l.build(schema);
    {
        SchemaParser p(rj::ver(draft)); p.addConstraintBuilder("x-c", new Build());
        if (twoBuilders) p.addConstraintBuilder("x-c", new Build());
        { Schema s; bool threw = false;
          (mode == 0 ? g.throwMake : g.throwCopy) = at; g.throwKind = kind;
          try { h->populate(p, s); }
          catch (const Boom &) { threw = true; if (kind != 0) m = "the user's exception became another"; }
          catch (int x) { threw = true; if (kind != 1 || x != 42) m = "the user's exception became another"; }
          catch (const std::bad_alloc &) { threw = true; if (kind != 2) m = "the user's exception became another"; }
          catch (const std::exception &e) { threw = true; m = std::string("populating threw ") + e.what(); }
          hit = threw;
          int n = mode == 0 ? g.makes : g.copies;
          if (!threw && n > at) m = "the user's exception was swallowed";
          if (threw && n != at + 1) m = "populating went on after the user's exception";
          g.throwMake = g.throwCopy = -1;
          if (m.empty() && threw) { g.made.clear(); Schema s2; try { h->populate(p, s2); } catch (...) { m = "the parser cannot be used again"; } }
          if (m.empty() && !threw && twoBuilders) { std::map<int, int> cnt; for (int t : g.made) cnt[t]++; for (auto &x : cnt) if (x.second % 2) m = "two builders for one keyword were not both used"; }
        }
        if (m.empty() && g.builders != (twoBuilders ? 2 : 1)) m = "a builder was released before the parser";
    }
    if (m.empty() && g.builders) m = "a builder was not released";
    g.builders = 0;
    if (m.empty() && g.live.size() != live0) m = std::to_string(g.live.size() - live0) + " constraints were never released";
    g.live.clear();
    return m.empty() ? g.err : m;
}

// ---- regular-expression engines ----
static struct RxLog { Answers ans; std::vector<std::pair<std::string, std::string>> asked; std::vector<std::string> made; const std::pair<std::string, std::string> *throwOn = nullptr; const std::string *throwMake = nullptr; } rx;
struct Engine {
    std::string p;
    explicit Engine(const std::string &x) : p(x) { rx.made.push_back(x); if (rx.throwMake && *rx.throwMake == x) throw Boom("engine"); }
    static bool search(const std::string &s, const Engine &e) {
        std::pair<std::string, std::string> k(e.p, s); rx.asked.push_back(k);
        if (rx.throwOn && *rx.throwOn == k) throw Boom("engine");
        auto it = rx.ans.find(k); return it != rx.ans.end() && it->second;
    }
};
static std::vector<J> rxSchemas(int draft, bool thorough) {
    std::vector<J> out, leaves; const std::string nul("a\0b", 3);
    std::vector<std::string> pats = {"a", "[", "(", "", "\xc3\xa9", nul, "^$"};
    for (auto &p : pats) leaves.push_back(O({{"pattern", J(p)}}));
    for (auto &l : leaves) out.push_back(l);
    std::vector<J> cores = {leaves[0], leaves[1]};
    J T = O({{"type", J("integer")}});
    for (auto &p : pats) for (auto &q : thorough ? pats : std::vector<std::string>{"[", "a"}) {
        if (p != q) out.push_back(O({{"patternProperties", O({{p, T}, {q, leaves[0]}})}, {"additionalProperties", leaves[1]}}));
        out.push_back(O({{"patternProperties", O({{p, leaves[0]}})}, {"additionalProperties", J(false)}, {"properties", O({{"b", O({{"pattern", J(q)}})}})}}));
    }
    cores.push_back(out.back()); cores.push_back(O({{"patternProperties", O({{"[", T}})}}));
    int bit = draft == 3 ? 1 : draft == 4 ? 2 : 4;
    for (auto &c : combs()) if (c.drafts & bit) for (int s = 0; s < c.slots; s++) for (auto &in : cores) { if (std::string(c.name) == "noise") continue; std::vector<J> h(c.slots, leaves[0]); h[s] = in; out.push_back(c.make(h)); if (s == 0) { std::vector<J> h2(c.slots, leaves[3]); h2[0] = in; out.push_back(c.make(h2)); } }
    return out;
}
static std::vector<J> rxDocs() {
    const std::string nul("x\0a", 3); const std::string e("\xc3\xa9");
    return {J(), J(5), J(""), J("a"), J(nul), J(e), J("line\nline"), A({J("a"), J("b")}), A({J("a"), J(1), J(nul)}), O({{"a", J("a")}}), O({{"a", J(1)}, {"b", J("a")}}), O({{"", J("")}}), O({{nul, J("b")}}), O({{e, J(1)}, {"a", J("b")}}), O({{"a", O({{"b", J("c")}})}}), A({A({J("q")})}), O({{"b", A({J("z")})}}), A({O({{"a", J("a")}})})};
}
static std::string rxCase(Run &run, int draft, const J &schema, const J &inst, const Schema &s, const rapidjson::Value &iv, bool results) {
    Ctx base; base.draft = draft; base.root = &schema; base.all = true; g_controlled = true;
    // the closure of what may be asked under any answers
    Ctx full = base; ev(schema, inst, "", true, full);
    std::vector<std::pair<std::string, std::string>> pairs(full.asked.begin(), full.asked.end());
    if (pairs.size() > 7) { run.c("skipped_too_many_pairs")++; return ""; }
    std::set<std::string> pats; for (auto &p : pairs) pats.insert(p.first);
    rj::Adapter ad(iv);
    ValidatorT<Engine> shared;
    for (unsigned bits = 0; bits < (1u << pairs.size()); bits++) {
        Answers a; for (size_t k = 0; k < pairs.size(); k++) a[pairs[k]] = (bits >> k) & 1;
        Ctx c = base; c.all = false; c.ans = a;
        bool want = ev(schema, inst, "", true, c);
        std::set<std::pair<std::string, std::string>> askedFirst;
        for (int pass = 0; pass < 2; pass++) {               // a new validator, then one that has a history
            rx = RxLog(); rx.ans = a; run.c("rx_runs")++;
            ValidatorT<Engine> own; ValidationResults r; bool got;
            try { got = (pass ? shared : own).validate(s, ad, results ? &r : nullptr); } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
            if (got != want) return std::string("verdict ") + (got ? "valid" : "invalid") + " against the engine's answers";
            for (auto &k : rx.asked) { if (!c.asked.count(k)) return "the engine was asked about " + J(k.second).str() + " with the pattern " + J(k.first).str(); if (!pass) askedFirst.insert(k); }
            for (auto &p : rx.made) if (!pats.count(p)) return "the engine was given the pattern " + J(p).str();
        }
        // exceptions of the engine reach the caller
        for (auto &k : askedFirst) {
            rx = RxLog(); rx.ans = a; rx.throwOn = &k; run.c("rx_runs")++;
            ValidatorT<Engine> own; ValidationResults r; bool threw = false;
            try { own.validate(s, ad, results ? &r : nullptr); } catch (const Boom &) { threw = true; } catch (const std::exception &e) { return std::string("another exception: ") + e.what(); }
            if (!threw) return "an exception of the engine was swallowed";
            rx = RxLog(); rx.ans = a; ValidationResults r2; if (own.validate(s, ad, results ? &r2 : nullptr) != want) return "another verdict after the engine threw";
            rx = RxLog(); rx.ans = a; rx.throwMake = &k.first; threw = false; ValidatorT<Engine> own2; ValidationResults r3;
            try { own2.validate(s, ad, results ? &r3 : nullptr); } catch (const Boom &) { threw = true; }
            if (!threw) return "an exception of the engine's construction was swallowed";
            rx = RxLog(); rx.ans = a; ValidationResults r4; if (own2.validate(s, ad, results ? &r4 : nullptr) != want) return "another verdict after the engine's construction threw";
        }
    }
    run.distinct["cases"].insert(Run::hash(schema.str() + inst.str() + std::to_string(results)));
    return "";
}

std::string replayCase(Run &run, const J &c) {
    int draft = (int)c.get("draft")->i; const J &schema = *c.get("schema");
    if (run.part == "place") {
        const AdLib &l = adLib(c.get("lib")->s); Schema s; std::string m = populateCase(draft, schema, l, s);
        if (!m.empty() || c.get("instance")->a.empty()) return m;
        auto h = l.build(c.get("instance")->a[0]); return validateCase(draft, schema, c.get("instance")->a[0], *h, s, c.get("results")->b, false);
    }
    if (run.part == "life") { bool hit; return lifeCase(run, draft, schema, adLib(c.get("lib")->s), (int)c.get("mode")->i, (int)c.get("at")->i, (int)c.get("kind")->i, c.get("two")->b, hit); }
    rapidjson::Document sd, id; rj::doc(sd, schema); rj::doc(id, *c.get("instance"));
    Schema s; SchemaParser p(rj::ver(draft));
    try { p.populateSchema(rj::Adapter(sd), s); } catch (const std::exception &e) { return std::string("schema rejected: ") + e.what(); }
    return rxCase(run, draft, schema, *c.get("instance"), s, id, c.get("results")->b);
}
void explore(Run &run) {
    uint64_t idx = 0;
    auto insts = instances();
    for (int draft : {3, 4, 7}) {
        if (run.part == "place") for (auto &l : adLibs()) {
            std::vector<std::unique_ptr<Handle>> hs; for (auto &i : insts) hs.push_back(l.build(i));
            placements(draft, l.name == "rapidjson" ? (run.thorough() ? 4 : 3) : (run.thorough() ? 3 : 2), [&](const J &raw) {
                if (!run.mine(idx++) || run.full()) return;
                for (unsigned variant : {0x00u, 0xAAu, 0x66u, 0xFFu}) {
                    if (variant >= 0x66u && l.name != "rapidjson") continue;
                    J schema = raw; Tags t; t.variant = variant; renumber(schema, t);
                    run.slot(0, "{\"draft\":" + std::to_string(draft) + ",\"lib\":\"" + l.name + "\",\"schema\":" + schema.str()); run.slot(1, ",\"instance\":[],\"results\":false}");
                    Schema s; std::string m = populateCase(draft, schema, l, s);
                    run.c("schemas")++;
                    if (!m.empty()) { run.violation(placeJ(draft, l.name, schema, nullptr, false), m); continue; }
                    bool cross = !hasBoth(schema) && idx % 7 == 0;
                    for (size_t k = 0; k < insts.size() && !run.full(); k++) for (bool res : {false, true}) {
                        run.slot(1, ",\"instance\":[" + insts[k].str() + "],\"results\":" + (res ? "true}" : "false}"));
                        m = validateCase(draft, schema, insts[k], *hs[k], s, res, cross && !res);
                        run.c("runs")++; run.c("calls") += g.calls.size();
                        if (!g.calls.empty() && !res) run.c("runs_with_calls")++;
                        if (!m.empty()) run.violation(placeJ(draft, l.name, schema, &insts[k], res), m);
                    }
                    if (idx % 997 == 0) run.sample(placeJ(draft, l.name, schema, &insts[idx % insts.size()], true));
                }
                if (!g.live.empty()) { run.violation(placeJ(draft, l.name, raw, nullptr, false), "constraints outlive the schema"); g.live.clear(); }
            });
        }
        if (run.part == "life") for (auto &l : adLibs()) placements(draft, run.thorough() ? 2 : 1, [&](const J &raw) {
            if (!run.mine(idx++) || run.full()) return;
            J schema = raw; Tags t; renumber(schema, t);
            for (int mode : {0, 1}) for (int kind : {0, 1, 2}) for (bool two : {false, true}) for (int at = 0; !run.full(); at++) {
                bool hit = false; J c = J::obj({{"draft", J(draft)}, {"lib", J(l.name)}, {"schema", schema}, {"mode", J(mode)}, {"at", J(at)}, {"kind", J(kind)}, {"two", J(two)}});
                run.slot(0, c.str()); std::string m = lifeCase(run, draft, schema, l, mode, at, kind, two, hit); run.c("runs")++;
                if (!m.empty()) { run.violation(c, m); break; }
                if (!hit) break;
                run.c("faults")++;
            }
        });
        if (run.part == "regex") {
            auto docs = rxDocs(); std::vector<std::unique_ptr<rapidjson::Document>> ds; for (auto &d : docs) { ds.push_back(std::make_unique<rapidjson::Document>()); rj::doc(*ds.back(), d); }
            for (auto &schema : rxSchemas(draft, run.thorough())) {
                if (!run.mine(idx++) || run.full()) continue;
                rapidjson::Document sd; rj::doc(sd, schema); Schema s; SchemaParser p(rj::ver(draft));
                try { p.populateSchema(rj::Adapter(sd), s); } catch (const std::exception &e) { run.violation(J::obj({{"draft", J(draft)}, {"schema", schema}, {"instance", J()}, {"results", J(false)}}), std::string("schema rejected: ") + e.what()); continue; }
                run.c("schemas")++;
                for (size_t k = 0; k < docs.size() && !run.full(); k++) for (bool res : {false, true}) {
                    J c = J::obj({{"draft", J(draft)}, {"schema", schema}, {"instance", docs[k]}, {"results", J(res)}}); run.slot(0, c.str());
                    std::string m = rxCase(run, draft, schema, docs[k], s, *ds[k], res); run.c("runs")++;
                    if (!m.empty()) run.violation(c, m);
                }
            }
        }
    }
}
