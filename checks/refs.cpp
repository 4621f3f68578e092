// C10 (references), C11 (remote documents), C12 (arbitrary documents as schemas).
#include "../lib/rj.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/ladder.hpp"
#include "../lib/rich.hpp"
#include "../lib/harness.hpp"
#include <algorithm>
using namespace valijson;
using fam::O; using fam::A; using fam::nul;

// ---------------------------------------------------------------- common
static J refTo(const std::string &r) { return O({{"$ref", J(r)}}); }
// The chain of references at the very root ends in a loop of pointers within one
// document: the library's unit tests pin a crash there (issue #200).
static bool rootLoops(ref::Eval &ev, const J &s) {
    const J *t = &s; std::vector<const J *> seen; std::vector<std::string> via;
    try {
        while (t->t == J::Obj && t->get("$ref") && t->get("$ref")->t == J::Str) {
            auto it = std::find(seen.begin(), seen.end(), t);
            if (it != seen.end()) { for (size_t k = (size_t)(it - seen.begin()); k < via.size(); k++) if (via[k].compare(0, 2, "#/") != 0) return false; return true; }
            seen.push_back(t); via.push_back(t->get("$ref")->s);
            t = ev.deref(*t, t->get("$ref")->s);
        }
    } catch (const std::exception &) {}
    return false;
}
struct Model {   // what the drafts say about one schema
    bool excluded = false, rejected = false; std::string why;
    std::vector<int> want;       // per instance; -1: not defined
    std::set<std::string> entered;
};
typedef std::vector<std::pair<std::string, J>> Remotes;
static Model model(int draft, const J &schema, const Remotes &rem, const std::vector<J> &inst, uint64_t &steps, bool large = false) {
    Model m; ref::Eval ev(draft); if (large) { ev.maxDepth = 20000; ev.maxHops = 5000; }
    try {
        ev.index(schema, "");
        for (auto &r : rem) ev.index(r.second, r.first);
        if (ev.dupIds) { m.excluded = true; m.why = "duplicate identifiers"; return m; }
        if (rootLoops(ev, schema)) { m.excluded = true; m.why = "root reference loop"; return m; }
        std::set<const J *> seen; ev.entered.clear(); ev.reach(schema, seen);
        m.entered = ev.entered;
    } catch (const ref::Excluded &e) { m.excluded = true; m.why = e.what(); return m; }
    catch (const ref::Undefined &e) { m.rejected = true; m.why = e.what(); return m; }
    for (auto &i : inst) { try { m.want.push_back(ev.valid(schema, i)); } catch (const ref::Undefined &) { m.want.push_back(-1); } }
    steps += ev.steps;
    return m;
}
static const std::vector<J> &insts() {
    static std::vector<J> v;
    if (v.empty()) {
        std::vector<J> leaf = {J(1), J("s"), J()};
        v = leaf; v.push_back(J(true)); v.push_back(J("longer"));
        for (auto &l : leaf) {
            v.push_back(O({{"n", l}})); v.push_back(A({l})); v.push_back(O({{"m", l}}));
            v.push_back(O({{"n", O({{"n", l}})}})); v.push_back(A({O({{"n", l}})})); v.push_back(O({{"n", A({l})}})); v.push_back(A({A({l})}));
            v.push_back(O({{"n", O({{"n", O({{"n", l}})}})}, {"m", O({{"n", l}})}}));
        }
    }
    return v;
}
static const std::vector<std::unique_ptr<rapidjson::Document>> &idocs() {
    static std::vector<std::unique_ptr<rapidjson::Document>> d;
    if (d.empty()) for (auto &i : insts()) { d.push_back(std::make_unique<rapidjson::Document>()); rj::doc(*d.back(), i); }
    return d;
}
static std::string verdictsOn(Run &run, const Model &m, const Schema &s, const std::vector<J> &list) {
    for (size_t k = 0; k < list.size(); k++) {
        if (m.want[k] < 0) { run.c("instances_undefined")++; continue; }
        rapidjson::Document d; rj::doc(d, list[k]);
        Validator v; rj::Adapter ad(d);
        bool got;
        try { got = v.validate(s, ad, nullptr); } catch (const std::exception &e) { return list[k].str().substr(0, 200) + ": validation threw " + e.what(); }
        run.c("verdicts")++;
        if (got != (m.want[k] == 1)) return list[k].str().substr(0, 200) + (got ? " accepted" : " rejected") + ", the referenced schemas say otherwise";
    }
    return "";
}
static std::string verdicts(Run &run, const Model &m, const Schema &s) {
    for (size_t k = 0; k < insts().size(); k++) {
        if (m.want[k] < 0) { run.c("instances_undefined")++; continue; }
        Validator v; rj::Adapter ad(*idocs()[k]);
        bool got;
        try { got = v.validate(s, ad, nullptr); } catch (const std::exception &e) { return insts()[k].str() + ": validation threw " + e.what(); }
        run.c("verdicts")++;
        if (got != (m.want[k] == 1)) return insts()[k].str() + (got ? " accepted" : " rejected") + ", the referenced schemas say otherwise";
    }
    return "";
}

// ======================================================================== C10
static std::string c10one(Run &run, int draft, const J &schema, const Model &m, const std::vector<J> *list = nullptr) {
    rapidjson::Document d; rj::doc(d, schema);
    Schema s; SchemaParser p(rj::ver(draft));
    try { p.populateSchema(rj::Adapter(d), s); }
    catch (const std::exception &e) { return m.rejected ? "" : std::string("rejected: ") + e.what(); }
    if (m.rejected) return "accepted, although a reference designates nothing (" + m.why + ")";
    return list ? verdictsOn(run, m, s, *list) : verdicts(run, m, s);
}
static J permuted(const J &o, const std::vector<int> &p) { J r = J::obj(); for (int k : p) if (k < (int)o.o.size()) r.o.push_back(o.o[k]); return r; }
static std::vector<std::vector<int>> perms(int n) {
    std::vector<int> p; for (int k = 0; k < n; k++) p.push_back(k);
    std::vector<std::vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r;
}
// Size ladders: how many references, definitions and identifiers, how long their
// names, how deep pointers, bases and documents.
struct RefCase { J schema; std::vector<J> inst; };
static std::string pctEnc(const std::string &t) { std::string r; for (unsigned char c : t) { if (c == '%' || c == ' ' || c >= 0x80) { char b[8]; snprintf(b, sizeof b, "%%%02X", c); r += b; } else r += (char)c; } return r; }
static void refLadder(int draft, bool deep, const std::function<void(const std::function<RefCase()> &)> &g) {
    const char *id = draft == 7 ? "$id" : "id", *all = draft == 3 ? "extends" : "allOf";
    auto rev = [](J o) { std::reverse(o.o.begin(), o.o.end()); return o; };
    J I = O({{"type", J("integer")}}), S = O({{"type", J("string")}});
    for (int n : fam::sizes(deep)) if (n) for (int back = 0; back < 2; back++) {
        for (int end = 0; end < 4; end++) for (int at = 0; at < 2; at++) g([=] {   // a chain of references
            J defs = J::obj();
            for (int k = 0; k < n; k++) defs.set("d" + std::to_string(k), k + 1 < n ? refTo("#/definitions/d" + std::to_string(k + 1)) : end == 0 ? I : end == 1 ? refTo("#/definitions/d" + std::to_string(n / 2)) : end == 2 ? refTo("#/definitions/none") : O({{"properties", O({{"n", refTo("#/definitions/d0")}})}, {"type", A({J("object"), J("integer")})}}));
            RefCase c; if (back) defs = rev(defs);
            c.schema = at ? refTo("#/definitions/d0") : O({{"properties", O({{"n", refTo("#/definitions/d0")}})}});
            c.schema.set("definitions", defs);
            c.inst = {J(1), J("s"), O({{"n", J(1)}}), O({{"n", J("s")}}), O({{"n", O({{"n", J("s")}})}}), O({{"n", O({{"n", J(2)}})}})};
            return c;
        });
        g([=] {   // many definitions, each with its own value
            J defs = J::obj(), pr = J::obj(); RefCase c;
            for (int k = 0; k < n; k++) { defs.set("d" + std::to_string(k), O({{"enum", A({J(k)})}})); pr.set(fam::nm(k), refTo("#/definitions/d" + std::to_string(k))); }
            c.schema = O({{"properties", back ? rev(pr) : pr}, {"definitions", defs}}); if (back) c.schema = rev(c.schema);
            for (int k : fam::places(n)) { c.inst.push_back(O({{fam::nm(k), J(k)}})); c.inst.push_back(O({{fam::nm(k), J(k + 1)}})); }
            return c;
        });
        for (int plain = 0; plain < 2; plain++) g([=] {   // many identifiers
            J defs = J::obj(), pr = J::obj(); RefCase c;
            for (int k = 0; k < n; k++) { std::string u = plain ? "#a" + std::to_string(k) : "k/" + std::to_string(k) + ".json"; defs.set("d" + std::to_string(k), O({{id, J(u)}, {"enum", A({J(k)})}})); pr.set(fam::nm(k), refTo(u)); }
            c.schema = O({{id, J("http://h/r.json")}, {"properties", back ? rev(pr) : pr}, {"definitions", defs}}); if (back) c.schema = rev(c.schema);
            for (int k : fam::places(n)) { c.inst.push_back(O({{fam::nm(k), J(k)}})); c.inst.push_back(O({{fam::nm(k), J(k + 1)}})); }
            return c;
        });
        for (int target = 0; target < 3; target++) g([=] {   // many references to one place
            J pr = J::obj(); RefCase c; std::string r = target == 0 ? "#/definitions/d" : target == 1 ? "#t" : "t.json";
            for (int k = 0; k < n; k++) pr.set(fam::nm(k), refTo(r));
            J d = I; if (target) d.set(id, J(r));
            c.schema = O({{id, J("http://h/r.json")}, {"properties", pr}, {"definitions", O({{"d", d}})}}); if (back) c.schema = rev(c.schema);
            for (int k : fam::places(n)) { c.inst.push_back(O({{fam::nm(k), J(k)}})); c.inst.push_back(O({{fam::nm(k), J("s")}})); }
            return c;
        });
        if (n <= 257) g([=] {   // bases nested n deep, the same relative reference at each
            std::string ptr = "#"; J pr = J::obj(), s; RefCase c;
            for (int k = n; k--;) {
                J e = O({{id, J("d" + std::to_string(k) + "/")}, {"properties", O({{"n", refTo("t.json")}})}, {"definitions", O({{"t", O({{id, J("t.json")}, {"enum", A({J(k)})}})}})}});
                if (k + 1 < n) e.get("definitions")->set("E", s);
                s = back ? rev(e) : e;
            }
            for (int k = 0; k < n; k++) { ptr += "/definitions/E"; pr.set(fam::nm(k), refTo(ptr)); }
            c.schema = O({{id, J("http://h/r.json")}, {"definitions", O({{"E", s}})}, {"properties", pr}});
            for (int k : fam::places(n)) { c.inst.push_back(O({{fam::nm(k), O({{"n", J(k)}})}})); c.inst.push_back(O({{fam::nm(k), O({{"n", J(k + 1)}})}})); }
            return c;
        });
        g([=] {   // documents as deep as the sizes, wrong at one level
            RefCase c; c.schema = O({{"properties", O({{"n", refTo(back ? "#/definitions/d" : "#")}, {"v", I}})}});
            if (back) c.schema.set("definitions", O({{"d", O({{"items", refTo("#/definitions/d")}, {"properties", O({{"v", I}, {"n", refTo("#")}})}})}}));
            auto at = [&](int bad) { J x = O({{"v", J(1)}}); for (int k = n; k--;) { J y = O({{"n", x}, {"v", k == bad ? J("s") : J(k)}}); x = back && k % 3 == 2 ? A({J(0), y}) : y; } return x; };
            c.inst.push_back(at(-1)); for (int k : fam::places(n)) c.inst.push_back(at(k));
            return c;
        });
    }
    for (int n : fam::sizes(deep)) if (n) {
        for (std::string kw : {"definitions", "properties"}) for (int miss = 0; miss < 2; miss++) g([=] {   // deep pointers
            J s = I; std::string ptr = "#"; for (int k = 0; k < n; k++) { s = O({{kw, O({{"a", s}})}}); ptr += "/" + kw + "/a"; }
            RefCase c; c.schema = s; c.schema.set("items", refTo(ptr + (miss ? "/" + kw + "/a" : "")));
            c.inst = {A({J(1)}), A({J("s")})}; return c;
        });
        for (int k : fam::places(n)) for (int form = 0; form < 4; form++) g([=] {   // positions in a list
            J l = J::arr(); for (int q = 0; q < n; q++) l.push(O({{"enum", A({J(q)})}}));
            unsigned __int128 ix = form == 0 ? k : form == 1 ? k + n : form == 2 ? ((unsigned __int128)1 << 32) + k : ((unsigned __int128)1 << 64) + k;
            std::string t; do { t.insert(t.begin(), (char)('0' + (int)(ix % 10))); ix /= 10; } while (ix);
            RefCase c; c.schema = O({{"items", refTo("#/definitions/l/" + std::string(all) + "/" + t)}, {"definitions", O({{"l", O({{all, l}})}})}});
            c.inst = {A({J(k)}), A({J(k + 1)}), A({J(k), J(k)}), A({J(0)})}; return c;
        });
        for (int k : fam::places(n)) if (n <= 40 || k < 2 || k > n - 3) for (std::string ch : {"~", "/", "%", " ", "\xc3\xa9", "0", "~1", "#", "?"}) if (ch != "#" && ch != "?") g([=] {   // long names, one odd character
            std::string a, b; for (int q = 0; q < n; q++) { a += q == k ? ch : std::string("a"); b += q == k ? std::string("b") : std::string("a"); }
            RefCase c; c.schema = O({{"definitions", O({{b, S}, {a, I}})}, {"properties", O({{"n", refTo("#/definitions/" + pctEnc(ref::escTok(a)))}, {"m", refTo("#/definitions/" + b)}})}});
            c.inst = {O({{"n", J(1)}}), O({{"n", J("s")}}), O({{"m", J(1)}}), O({{"m", J("s")}})}; return c;
        });
        if (n <= 6) for (int form = 0; form < 3; form++) g([=] {   // every name over the special characters, side by side
            std::vector<std::string> al = {"~", "/", "%", "0", "1", "2"}, ns = {""}, cur = {""}; for (int q = 0; q < 3; q++) { std::vector<std::string> nx; for (auto &c : cur) for (auto &a : al) nx.push_back(c + a); cur = nx; ns.insert(ns.end(), nx.begin(), nx.end()); }
            J pr = J::obj(), defs = J::obj(); RefCase c; int w = 0;
            for (size_t q = (size_t)(n - 1); q < ns.size(); q += n == 1 ? 1 : 5) { J e = O({{"enum", A({J(w)})}}); const std::string &t = ns[q]; pr.set(t, form == 0 ? e : refTo("#/definitions/" + pctEnc(ref::escTok(t)))); defs.set(t, form == 2 ? O({{"allOf", A({e})}}) : e); if (n == 1 ? w % 3 == 0 : true) { c.inst.push_back(O({{t, J(w)}})); c.inst.push_back(O({{t, J(w + 1)}})); } w++; }
            c.schema = O({{"properties", pr}}); if (form) c.schema.set("definitions", defs); if (draft == 3 && form == 2) for (auto &d : c.schema.get("definitions")->o) d.second = O({{"extends", *d.second.get("allOf")}});
            return c;
        });
        g([=] {   // long identifiers that differ in one place
            std::string stem(n, 'p'); J defs = J::obj(), pr = J::obj(); RefCase c; int w = 0;
            for (int k : fam::places(n)) { std::string u = stem; u[k] = 'q'; u = (w % 2 ? "#" : "http://o/") + u; defs.set(fam::nm(k), O({{id, J(u)}, {"enum", A({J(k)})}})); pr.set(fam::nm(k), refTo(u)); c.inst.push_back(O({{fam::nm(k), J(k)}})); c.inst.push_back(O({{fam::nm(k), J(k + 1)}})); w++; }
            c.schema = O({{id, J("http://h/r.json")}, {"properties", pr}, {"definitions", defs}}); return c;
        });
    }
}
static void c10(Run &run) {
    uint64_t idx = 0;
    if (run.part == "many") {
        for (int draft : {7, 4, 3}) refLadder(draft, run.thorough(), [&](const std::function<RefCase()> &make) {
            if (!run.mine(idx++) || run.full()) return;
            RefCase rc = make();
            J inst = J::arr(); for (auto &i : rc.inst) inst.push(i);
            J c = O({{"draft", J(draft)}, {"schema", rc.schema}, {"inst", inst}});
            run.slot(0, c.str());
            uint64_t steps = 0; Model m = model(draft, rc.schema, {}, rc.inst, steps, true);
            run.c("model_steps") += steps;
            if (m.excluded) { run.c("excluded")++; return; }
            run.c("schemas")++; run.c("orders")++; if (m.rejected) run.c("schemas_rejected")++;
            int a = 0, r = 0; for (int w : m.want) { a += w == 1; r += w == 0; }
            if (a && r) run.c("schemas_with_both_verdicts")++;
            std::string msg = c10one(run, draft, rc.schema, m, &rc.inst);
            if (!msg.empty()) run.violation(c, msg);
        });
        return;
    }
    // every order of the root's members and of its definitions
    auto orders = [&](int draft, const J &schema, bool allDefs) {
        if (!run.mine(idx++) || run.full()) return;
        J base = O({{"draft", J(draft)}, {"schema", schema}});
        run.slot(0, base.str());
        uint64_t steps = 0; Model m = model(draft, schema, {}, insts(), steps);
        run.c("model_steps") += steps;
        if (m.excluded) { run.c("excluded")++; return; }
        run.c("schemas")++; if (m.rejected) run.c("schemas_rejected")++;
        int a = 0, r = 0; for (int w : m.want) { a += w == 1; r += w == 0; }
        if (a && r) run.c("schemas_with_both_verdicts")++;
        std::vector<std::vector<int>> rp;
        if (schema.o.size() <= 4 || (run.thorough() && schema.o.size() <= 5)) rp = perms((int)schema.o.size());
        else for (size_t k = 0; k < schema.o.size(); k++) for (int rev = 0; rev < 2; rev++) {      // every rotation, both ways round
            std::vector<int> q; for (size_t x = 0; x < schema.o.size(); x++) q.push_back((int)((k + x) % schema.o.size()));
            if (rev) std::reverse(q.begin(), q.end()); rp.push_back(q);
        }
        const J *defs = schema.get("definitions");
        auto dp = perms(defs ? (int)defs->o.size() : 0);
        if (!allDefs && dp.size() > 2) dp = {dp.front(), dp.back()};
        bool alt = !allDefs && !run.thorough();
        if (run.part == "ids" && !run.thorough() && rp.size() > 2) { rp = {rp[0], rp[rp.size() / 2], rp.back()}; alt = true; }
        for (auto &x : rp) for (auto &y : dp) {
            if (alt && dp.size() > 1 && ((&x - &rp[0]) + (&y - &dp[0])) % 2) continue;
            J s = schema; if (defs) *s.get("definitions") = permuted(*defs, y);
            s = permuted(s, x);
            run.c("orders")++; run.progress++;
            std::string msg = c10one(run, draft, s, m);
            if (!msg.empty()) { run.violation(O({{"draft", J(draft)}, {"schema", s}}), msg); return; }
        }
        if (idx % 4001 == 7) run.sample(base);
    };
    if (run.part == "graph") {
        for (int draft : {3, 4, 7}) {
            int n = draft == 7 ? 3 : 2;
            std::vector<std::string> name = {"a", "b/c~d", "e%f"}, ptr = {"#/definitions/a", "#/definitions/b~1c~0d", "#/definitions/e%25f", "#"};
            std::vector<std::string> tgt(ptr.begin(), ptr.begin() + n); tgt.push_back("#");
            std::vector<J> opt = {O({{"type", J("integer")}}), O({{"type", J("string")}})};
            for (auto &t : tgt) {
                opt.push_back(refTo(t));
                opt.push_back(O({{"properties", O({{"n", refTo(t)}})}}));
                opt.push_back(O({{"items", refTo(t)}, {"type", A({J("array"), J("integer")})}}));
                if (draft == 3) opt.push_back(O({{"type", A({J("null"), refTo(t)})}})); else opt.push_back(O({{"anyOf", A({O({{"type", J("null")}}), refTo(t)})}}));
                J sib = refTo(t); sib.set("type", J("null")); sib.set("enum", A({J("q")})); sib.set(draft == 7 ? "$id" : "id", J("http://elsewhere/x.json"));
                opt.push_back(sib);
            }
            std::vector<size_t> pick(n);
            std::function<void(int)> rec = [&](int k) {
                if (k == n) {
                    J defs = J::obj(); for (int q = 0; q < n; q++) defs.set(name[q], opt[pick[q]]);
                    for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) {
                        if (n == 3 && !run.thorough() && x == y) continue;
                        orders(draft, O({{"properties", O({{"n", refTo(ptr[x])}})}, {"items", refTo(ptr[y])}, {"definitions", defs}}), run.thorough() || n == 2);
                    }
                    for (int x = 0; x < n; x++) orders(draft, O({{"$ref", J(ptr[x])}, {"definitions", defs}}), true);
                    return;
                }
                for (pick[k] = 0; pick[k] < opt.size(); pick[k]++) rec(k + 1);
            };
            rec(0);
        }
    } else if (run.part == "ids") {
        for (int draft : {4, 7, 3}) {
            const char *id = draft == 7 ? "$id" : "id";
            std::vector<std::string> rootId = {"", "http://h/r.json", "http://h/d/", "urn:u:r", "http://h/d/r.json#"};
            std::vector<std::string> eId = {"", "#n", "e.json", "http://o/e.json", "/abs/e.json", "urn:u:e", "sub/"};
            std::vector<std::string> iId = {"", "#m", "i.json", "../i.json", "e.json"};
            std::vector<std::string> refs = {"#", "#/definitions/E", "#/definitions/E/definitions/i", "#/definitions/i", "#n", "#m", "e.json", "e.json#", "e.json#/definitions/i", "http://o/e.json#/definitions/i", "http://h/e.json", "i.json", "../i.json", "http://o/i.json", "urn:u:e", "urn:u:e#/definitions/i",
                "r.json", "e.json#m", "/abs/e.json#/definitions/j", "/abs/i.json", "http://h/r.json#/definitions/E/definitions/i", "http://h/d/sub/i.json", "sub/#/definitions/i", "http://h/d/r.json#n", "urn:u:e#m", "r.json#/definitions/E"};
            if (draft != 7 && !run.thorough()) { rootId = {draft == 4 ? "http://h/d/" : "http://h/r.json"}; }
            for (auto &a : rootId) for (auto &b : eId) for (auto &c : iId) for (auto &r1 : refs) for (auto &r2 : refs) {
                J inner = O({{"i", O({{"type", J("integer")}})}, {"j", O({{"properties", O({{"n", refTo(r2)}})}})}});
                if (!c.empty()) inner.get("i")->set(id, J(c));
                J E = O({{"properties", O({{"n", refTo(r2)}})}, {"items", refTo("#/definitions/i")}, {"definitions", inner}});
                if (b.empty() || b[0] == '#') E.set("items", O({{"type", J("integer")}}));
                if (!b.empty()) E.set(id, J(b));
                J s = O({{"properties", O({{"n", refTo(r1)}, {"m", refTo("#/definitions/E")}})}, {"definitions", O({{"E", E}})}});
                if (!a.empty()) s.set(id, J(a));
                orders(draft, s, true);
            }
        }
    } else {   // names: identifiers and targets at awkward places
        std::vector<std::string> nm = {"enum", "const", "default", "examples", "$ref", "$id", "id", "definitions", "items", "properties", "0", "", "a/b", "a~b", "a%b", "a b", "\xc3\xa9", "n", "anyOf", "type", "required"};
        for (int draft : {3, 4, 7}) {
            const char *id = draft == 7 ? "$id" : "id";
            for (auto &a : nm) for (auto &b : nm) for (std::string mapkw : {"properties", "definitions", "patternProperties", "dependencies", "x-unknown"}) {
                if (mapkw == "patternProperties" && (a.find_first_of("$") != std::string::npos || b.find_first_of("$") != std::string::npos)) continue;
                if (mapkw == "x-unknown") { auto lit = [](const std::string &x) { return x == "enum" || x == "const" || x == "default" || x == "examples" || x[0] == '$' || x == "id" || x == "properties" || x == "definitions"; }; if (lit(a) || lit(b)) continue; }
                std::string pa = ref::escTok(a), pe; for (char c : pa) { if (c == '%') pe += "%25"; else if (c == ' ') pe += "%20"; else pe += c; }
                for (int form = 0; form < 4; form++) {
                    J t = O({{"type", J("integer")}}), u = O({{"type", J("string")}});
                    std::string r1, r2 = "#/definitions/k";
                    if (form == 0) r1 = "#/" + mapkw + "/" + pe;
                    else if (form == 1) { t.set(id, J("#t")); r1 = "#t"; }
                    else if (form == 2) { t.set(id, J("http://o/t.json")); t.set("definitions", O({{"x", O({{"type", J("null")}})}})); r1 = "http://o/t.json#/definitions/x"; }
                    else { t = O({{"anyOf", A({O({{id, J("#t")}, {"type", J("null")}})})}}); r1 = "#t"; }
                    if (form == 3 && draft == 3) t = O({{"type", A({O({{id, J("#t")}, {"type", J("null")}})})}});
                    J mp = J::obj(); mp.set(a, t); if (a != b) mp.set(b, u);
                    J s = O({{"items", refTo(r1)}, {"additionalProperties", refTo(r2)}});
                    s.set(mapkw, mp);
                    if (mapkw == "definitions") s.get("definitions")->set("k", O({{"type", J("null")}})); else s.set("definitions", O({{"k", O({{"type", J("null")}})}}));
                    // a decoy: identifiers inside literals identify nothing
                    s.set("default", O({{id, J("#t")}, {"type", J("boolean")}}));
                    s.set("enum", A({J(1), J("s"), J(), A({J(1)}), A({J("s")}), A({J()}), O({{"n", J(1)}}), O({{"n", J("s")}}), O({{"n", J()}}), O({{id, J("http://o/t.json")}})}));
                    orders(draft, s, false);
                }
            }
        }
    }
}

// ======================================================================== C11
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Odd {};      // callbacks may throw what they like
struct Fetch {
    const Remotes *rem; int failAt = -1; std::string kind; int calls = 0; std::vector<std::string> asked, freed; std::map<const rapidjson::Document *, std::string> live; std::string err;
    const rapidjson::Document *fetch(const std::string &u) {
        int k = calls++; asked.push_back(u);
        if (k == failAt && kind == "null") return nullptr;
        if (k == failAt && kind == "throw") throw Boom("fetch refused");
        if (k == failAt && kind == "throw another kind") throw Odd{};
        J body; bool found = false;
        for (auto &r : *rem) if (r.first == u) { body = r.second; found = true; }
        if (!found) return nullptr;
        if (k == failAt) {
            if (kind == "array") body = J::arr();
            else if (kind == "string") body = J("schema");
            else if (kind == "bad") { body = J::obj(); body.set("minLength", J(-1)); body.set("definitions", O({{"x", O({{"minItems", J(-1)}})}})); }
            else if (kind == "empty") body = J::obj();
            else if (kind == "late") { J q = body; q.set("required", J("no array")); if (J *d = q.get("definitions")) if (J *x = d->get("x")) x->set("uniqueItems", J("no boolean")); body = q; }
        }
        auto *d = new rapidjson::Document; rj::doc(*d, body); live[d] = u; return d;
    }
    void release(const rapidjson::Document *d) {
        auto it = live.find(d);
        if (it == live.end()) { err = "free callback called with a pointer that is not an outstanding document"; return; }
        freed.push_back(it->second); live.erase(it); delete d;
    }
};
static std::string c11one(Run &run, int draft, const J &schema, const Remotes &rem, int failAt, const std::string &kind, const Model &m, int *calls = nullptr) {
    Fetch f; f.rem = &rem; f.failAt = failAt; f.kind = kind;
    rapidjson::Document d; rj::doc(d, schema);
    std::string msg, what; bool threw = false, boom = false;
    {
        Schema s; SchemaParser p(rj::ver(draft));
        try { p.populateSchema<rj::Adapter>(rj::Adapter(d), s, [&](const std::string &u) { return f.fetch(u); }, [&](const rapidjson::Document *x) { f.release(x); }); }
        catch (const Boom &e) { threw = boom = true; what = e.what(); }
        catch (const std::exception &e) { threw = true; what = e.what(); }
        catch (const Odd &) { threw = true; if (kind == "throw another kind") boom = true; what = "no std::exception"; }
        if (!f.err.empty()) msg = f.err;
        else if (!f.live.empty()) msg = "not freed when population " + std::string(threw ? "threw (" + what + ")" : "returned") + ": " + f.live.begin()->second;
        else {
            auto a = f.asked; std::sort(a.begin(), a.end());
            for (size_t k = 1; k < a.size(); k++) if (a[k] == a[k - 1]) msg = "requested more than once: " + a[k];
        }
        if (msg.empty() && failAt < 0) {
            if (m.rejected && !threw) msg = "accepted, although " + m.why;
            if (!m.rejected && threw) msg = "threw " + what;
            if (msg.empty() && !threw) {
                std::set<std::string> want, got(f.asked.begin(), f.asked.end());
                for (auto &r : rem) if (m.entered.count(r.first)) want.insert(r.first);
                if (want != got) { msg = "requested {"; for (auto &g : got) msg += g + " "; msg += "} instead of {"; for (auto &g : want) msg += g + " "; msg += "}"; }
                else { d.SetNull(); msg = verdicts(run, m, s); }
            }
        }
        if (msg.empty() && failAt >= 0 && f.calls > failAt) {
            if ((kind == "null" || !kind.compare(0, 5, "throw") || kind == "array" || kind == "string") && !threw) msg = "accepted, although fetch " + std::to_string(failAt) + " gave " + kind;
            if (!kind.compare(0, 5, "throw") && threw && !boom) msg = "the exception of the fetch callback was replaced by: " + what;
        }
        // whatever happened, the schema can be used and destroyed
        if (msg.empty() && failAt >= 0 && !threw && !m.rejected && std::find(m.want.begin(), m.want.end(), -1) == m.want.end()) for (auto &i : {J(1), J("s"), J()}) { rapidjson::Document id; rj::doc(id, i); Validator v; rj::Adapter ad(id); v.validate(s, ad, nullptr); }
    }
    while (!f.live.empty()) { delete f.live.begin()->first; f.live.erase(f.live.begin()); }
    if (calls) *calls = f.calls;
    return msg;
}
static const std::vector<std::string> &uris() { static std::vector<std::string> u = {"http://h/1.json", "http://h/d/2.json", "urn:doc:3"}; return u; }
// bodies of a document: what it refers to
static std::vector<J> bodies(int draft, const std::vector<std::string> &refs, bool root) {
    std::vector<J> r;
    auto with = [&](J b) { if (!b.get("definitions")) b.set("definitions", O({{"x", O({{"type", J("string")}})}})); r.push_back(b); };
    if (!root) with(O({{"type", J("integer")}}));
    for (auto &a : refs) {
        if (!root) with(refTo(a));
        with(O({{"properties", O({{"n", refTo(a)}})}}));
        { J b = O({{"type", J("integer")}}); if (root) b = O({{"properties", O({{"n", refTo("#/definitions/x")}})}}); b.set("definitions", O({{"x", refTo(a)}})); r.push_back(b); }
        if (draft == 3) with(O({{"extends", A({J::obj(), refTo(a)})}})); else with(O({{"allOf", A({J::obj(), refTo(a)})}}));
    }
    return r;
}
static void c11(Run &run) {
    uint64_t idx = 0;
    std::vector<std::string> fullRefs = {"http://h/1.json", "http://h/d/2.json", "http://h/1.json#/definitions/x", "http://h/d/2.json#/definitions/x", "http://h/1.json#"};
    std::vector<std::string> kinds = {"null", "throw", "throw another kind", "array", "string", "bad", "empty", "late"};
    bool large = false;
    auto test = [&](int draft, const J &schema, const Remotes &rem) {
        if (!run.mine(idx++) || run.full()) return;
        J rm = J::obj(); for (auto &r : rem) rm.set(r.first, r.second);
        auto cs = [&](int k, const std::string &kd) { return O({{"draft", J(draft)}, {"schema", schema}, {"remote", rm}, {"fail", J(k)}, {"kind", J(kd)}}); };
        run.slot(0, cs(-1, "").str());
        int calls = 0;
        uint64_t steps = 0; const Model md = model(draft, schema, rem, insts(), steps, large);
        if (md.excluded) { run.c("excluded")++; return; }
        run.c("model_steps") += steps;
        std::string m = c11one(run, draft, schema, rem, -1, "", md, &calls);
        run.c("graphs")++; run.c("runs")++;
        if (calls > 1) run.c("graphs_with_several_fetches")++;
        if (!m.empty()) { run.violation(cs(-1, ""), m); return; }
        run.distinct["fault_points"].insert(Run::hash(cs(-1, "").str()));
        for (int k = 0; k < calls; k++) for (auto &kd : kinds) {
            if (run.full()) return;
            J c = cs(k, kd); run.slot(0, c.str());
            run.c("runs")++; run.c("faults")++;
            run.distinct["fault_points"].insert(Run::hash(c.str()));
            m = c11one(run, draft, schema, rem, k, kd, md);
            if (!m.empty()) run.violation(c, m);
        }
        if (idx % 3001 == 11) run.sample(cs(calls - 1, "throw"));
    };
    if (run.part == "many") {   // how many documents, how long the chains and the addresses
        large = true;
        std::vector<int> ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33}; if (run.thorough()) for (int k : {64, 65, 100, 128, 129}) ns.push_back(k);
        J I = O({{"type", J("integer")}}), X = O({{"x", O({{"type", J("string")}})}});
        auto u = [](int k) { return "http://h/" + std::to_string(k) + ".json"; };
        for (int draft : {7, 4, 3}) for (int n : ns) {
            for (int end = 0; end < 3; end++) {
                Remotes ch, deep, part;
                for (int k = 0; k < n; k++) {
                    std::string next = k + 1 < n ? u(k + 1) : end == 1 ? u(n / 2) : end == 2 ? "http://h/none.json" : "";
                    J b = next.empty() ? I : refTo(next); b.set("definitions", X); ch.emplace_back(u(k), b);
                    J c = next.empty() ? I : O({{"properties", O({{"n", refTo(next)}})}, {"type", A({J("object"), J("integer")})}}); c.set("definitions", X); deep.emplace_back(u(k), c);
                    J e = O({{"type", J("null")}, {"definitions", O({{"x", next.empty() ? O({{"type", J("string")}}) : refTo(std::to_string(k + 1) + ".json#/definitions/x")}})}});
                    if (end == 1 && next == u(n / 2)) e.set("definitions", O({{"x", O({{"items", refTo(u(n / 2) + "#/definitions/x")}, {"type", J("array")}})}}));
                    if (end == 2 && k + 1 == n) e.set("definitions", O({{"x", refTo("none.json")}}));
                    part.emplace_back(u(k), e);
                }
                J root = O({{"properties", O({{"n", refTo(u(0))}})}});
                test(draft, root, ch); test(draft, root, deep); test(draft, O({{"items", refTo(u(0) + "#/definitions/x")}}), part);
                if (end == 0) test(draft, refTo(u(0)), ch);
            }
            Remotes star; J pr = J::obj(), pr2 = J::obj(), defs = J::obj();
            for (int k = 0; k < n; k++) { star.emplace_back(u(k), O({{"enum", A({J(k), J(1)})}, {"definitions", X}})); pr.set(k ? fam::nm(k) : "n", refTo(u(k))); pr2.set(k ? fam::nm(k) : "n", refTo("http://h/one.json#/definitions/x" + std::to_string(k))); defs.set("x" + std::to_string(k), O({{"enum", A({J(k), J(1)})}})); }
            test(draft, O({{"properties", pr}}), star);
            test(draft, O({{"properties", pr2}}), {{"http://h/one.json", O({{"definitions", defs}})}});
            J two = pr; for (auto &m : pr.o) two.set("again" + m.first, m.second);
            test(draft, O({{"properties", two}}), star);
        }
        for (int draft : {7, 4, 3}) for (int n : fam::sizes(run.thorough())) if (n) {   // long addresses that differ in one place
            Remotes rem; J pr = J::obj(); auto pl = fam::places(n); if (pl.size() > 6) pl = {0, 1, n / 2, n - 2, n - 1};
            for (int k : pl) { std::string t(n, 'p'); t[k] = 'q'; t = "http://h/" + t; rem.emplace_back(t, O({{"enum", A({J(k), J(1)})}})); pr.set(k ? fam::nm(k) : "n", refTo(t)); }
            test(draft, O({{"properties", pr}}), rem);
        }
        return;
    }
    if (run.part == "graph") {
        for (int draft : {3, 4, 7}) {
            if (!run.thorough() && fullRefs.size() > 3) fullRefs.resize(3);
            // root document: one or two references
            std::vector<J> roots;
            for (auto &a : fullRefs) roots.push_back(refTo(a));
            for (auto &b : bodies(draft, fullRefs, true)) roots.push_back(b);
            for (auto &a : fullRefs) for (auto &b : fullRefs) roots.push_back(O({{"properties", O({{"n", refTo(a)}})}, {"items", refTo(b)}}));
            std::vector<std::string> r1 = {"http://h/d/2.json", "d/2.json#/definitions/x", "#", "#/definitions/x", "1.json#/definitions/x", "d/../d/2.json"}, r2 = {"http://h/1.json", "../1.json#/definitions/x", "#", "#/definitions/x", "/1.json#", "2.json"};
            if (!run.thorough()) { if (draft != 7) { r1.resize(3); r2.resize(3); } }
            auto b1 = bodies(draft, r1, false), b2 = bodies(draft, r2, false);
            for (auto &r : roots) for (auto &x : b1) for (auto &y : b2) test(draft, r, {{uris()[0], x}, {uris()[1], y}});
        }
    } else {   // "ids": identifiers of the root and of fetched documents, and three documents
        for (int draft : {4, 7, 3}) {
            const char *id = draft == 7 ? "$id" : "id";
            if (draft == 7 || run.thorough()) for (std::string ri : {"", "http://h/r.json", "http://h/d/r.json", "urn:x:r"}) for (std::string di : {"", "http://h/1.json", "http://other/o.json", "#frag", "1.json"})
                for (std::string a : {"http://h/1.json", "1.json", "../1.json", "http://h/1.json#/definitions/x", "1.json#x", "#/definitions/loc", "r.json#/definitions/loc", "http://h/1.json#x", "missing.json", "http://h/1.json#/definitions/none", "http://h/1.json#none", "urn:doc:3"})
                for (std::string b : {"http://h/1.json", "1.json#/definitions/y", "http://h/d/2.json", "http://h/1.json#x", "urn:doc:3", "urn:doc:3#/definitions/x"})
                for (std::string c : {"#", "#/definitions/x", "2.json", "http://h/d/2.json", "d/2.json", "/d/2.json#/definitions/x", "urn:doc:3", "http://h/r.json", "http://h/nowhere.json"}) {
                J s = O({{"properties", O({{"n", refTo(a)}, {"m", refTo(b)}})}, {"definitions", O({{"loc", O({{"type", J("string")}})}})}});
                if (!ri.empty()) s.set(id, J(ri));
                J one = O({{"properties", O({{"n", refTo(c)}})}, {"type", A({J("object"), J("integer")})}, {"definitions", O({{"x", O({{id, J("#x")}, {"type", J("integer")}})}, {"y", O({{"items", refTo(c)}})}})}});
                if (!di.empty()) one.set(id, J(di));
                J two = O({{"type", A({J("object"), J("null")})}, {"properties", O({{"n", refTo("urn:doc:3#/definitions/x")}})}, {"definitions", O({{"x", O({{"type", J("null")}})}})}});
                J three = O({{"items", refTo("http://h/1.json")}, {"definitions", O({{"x", O({{"type", J("string")}})}})}});
                test(draft, s, {{uris()[0], one}, {uris()[1], two}, {uris()[2], three}});
            }
        }
    }
}

// ======================================================================== C12
// Does the draft allow this value for this keyword? 1 yes, 0 no, -1 not decided here.
static int allowed(int draft, const std::string &k, const J &v) {
    auto isSchema = [&](const J &x) -> bool { return x.t == J::Obj || (draft == 7 && x.t == J::Bool); };
    auto all = [&](const J &l, std::function<int(const J &)> f) { for (auto &x : l.a) if (!f(x)) return false; return true; };
    auto nonneg = [&]() -> int { return v.t == J::Int ? v.i >= 0 : v.t == J::Dbl && v.isIntegral() && v.d >= 0 ? -1 : 0; };
    if (k == "minLength" || k == "maxLength" || k == "minItems" || k == "maxItems") return nonneg();
    if (k == "minProperties" || k == "maxProperties") return draft == 3 ? -1 : nonneg();
    if (k == "minimum" || k == "maximum") return v.isNum();
    if (k == "exclusiveMinimum" || k == "exclusiveMaximum") return draft == 7 ? v.isNum() : v.t == J::Bool;
    if (k == "multipleOf") return draft == 3 ? -1 : v.isNum() && v.num() > 0;
    if (k == "divisibleBy") return draft != 3 ? -1 : v.isNum() && v.num() > 0;
    if (k == "uniqueItems") return v.t == J::Bool;
    if (k == "title" || k == "description") return v.t == J::Str ? 1 : v.t == J::Null || v.t == J::Arr || v.t == J::Obj ? 0 : -1;
    if (k == "pattern" || k == "format") return v.t == J::Str;
    if (k == "enum") return v.t == J::Arr ? (v.a.empty() ? -1 : 1) : 0;
    if (k == "allOf" || k == "anyOf" || k == "oneOf") return draft == 3 ? -1 : v.t == J::Arr ? (v.a.empty() ? -1 : all(v, isSchema)) : 0;
    if (k == "not") return draft == 3 ? -1 : isSchema(v);
    if (k == "if" || k == "then" || k == "else" || k == "contains" || k == "propertyNames") return draft != 7 ? -1 : isSchema(v);
    if (k == "items") return v.t == J::Arr ? all(v, isSchema) : isSchema(v);
    if (k == "additionalItems" || k == "additionalProperties") return v.t == J::Bool || v.t == J::Obj;
    if (k == "properties" || k == "patternProperties") { if (v.t != J::Obj) return 0; for (auto &m : v.o) if (!isSchema(m.second)) return 0; return 1; }
    if (k == "dependencies") {
        if (v.t != J::Obj) return 0;
        for (auto &m : v.o) if (!(isSchema(m.second) || (draft == 3 && m.second.t == J::Str) || (m.second.t == J::Arr && all(m.second, [](const J &x) { return x.t == J::Str; })))) return 0;
        return 1;
    }
    if (k == "required") return draft == 3 ? -1 : v.t == J::Arr && all(v, [](const J &x) { return x.t == J::Str; });
    if (k == "type") {
        auto name = [&](const J &x) { if (x.t == J::Str) for (const char *n : {"null", "boolean", "object", "array", "number", "string", "integer"}) if (x.s == n) return true; return x.t == J::Str && draft == 3 && x.s == "any"; };
        if (v.t == J::Str) return name(v) ? 1 : draft == 3 ? -1 : 0;
        if (v.t == J::Arr) return v.a.empty() ? -1 : all(v, [&](const J &x) { return name(x) || (draft == 3 && (x.t == J::Obj || x.t == J::Str)); });
        return draft == 3 && v.t == J::Obj ? -1 : 0;
    }
    if (k == "extends") return draft != 3 ? -1 : v.t == J::Arr ? all(v, isSchema) : isSchema(v);
    if (k == "disallow") return -1;             // not implemented by the library (C04 excludes it)
    if (k == "$ref") return v.t == J::Str ? -1 : 0;
    return -1;
}
// a value the library documents as loosely convertible to what the keyword needs
static bool loose(const std::string &k, const J &v) {
    (void)k; return v.t == J::Str || v.t == J::Bool || v.t == J::Int || v.t == J::Dbl || v.t == J::Null ? v.t == J::Str : v.a.empty() && v.o.empty() && v.t != J::Null;
}
static std::vector<J> shapes(int draft) {
    (void)draft;
    std::vector<J> v = {J(), J(true), J(false), J(0), J(1), J(3), J(-1), J(0.0), J(1.0), J(2.5), J(-0.5), J(-1.0), J(-3.0), J(-1e10), J(4294967296.0), J(1e300), J((long long)INT64_MIN), J((long long)INT64_MAX), J(""), J("a"), J("3"), J("-1"), J("true"), J("false"), J("object"), J("any"), J("nosuch"), J("("), J("[a"), J("a{2,1}"), J("\\"), J("#"), J("#/definitions/d"), J("#/nowhere"), J("http://h/none.json"), J("urn:a:b"), J("%zz"), J("#%zz"), J(":"), J(nul("a", "b")), J("\xff\xfe"), J(std::string(300, 'x')),
        J::arr(), A({J()}), A({J(1)}), A({J("a")}), A({J("a"), J("a")}), A({J("string"), J("null")}), A({J(true)}), A({J::obj()}), A({J::obj(), J(1)}), A({J::arr()}), A({A({J("a")})}), A({O({{"type", J("integer")}}), J("a")}), A({O({{"minLength", J(-1)}})}), A({O({{"$ref", J("#")}})}),
        J::obj(), O({{"type", J("integer")}}), O({{"type", J(5)}}), O({{"a", J::obj()}}), O({{"a", J(true)}}), O({{"a", J(5)}}), O({{"a", J("b")}}), O({{"a", J()}}), O({{"a", A({J("b")})}}), O({{"a", A({J(1)})}}), O({{"a", A({J::obj()})}}), O({{"", J::obj()}}), O({{"(", J::obj()}}), O({{"a", O({{"minLength", J(-1)}})}}), O({{"$ref", J("#/definitions/d")}}), O({{"$ref", J(1)}}), O({{"$ref", J("#")}}), O({{"a", O({{"$ref", J("#")}})}}), O({{"required", J(true)}}), O({{"a", O({{"required", J(true)}})}}), O({{"a", O({{"required", J("x")}})}})};
    return v;
}
static std::vector<std::string> keywords() {
    return {"type", "enum", "const", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy", "minLength", "maxLength", "pattern", "format", "title", "description", "items", "additionalItems", "contains", "uniqueItems", "minItems", "maxItems", "properties", "patternProperties", "additionalProperties", "propertyNames", "required",
        "dependencies", "minProperties", "maxProperties", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "extends", "disallow", "$id", "id", "$ref", "definitions", "default", "$schema", "x-unknown"};
}
static const std::vector<std::unique_ptr<rapidjson::Document>> &anyDocs() {
    static std::vector<std::unique_ptr<rapidjson::Document>> d;
    if (d.empty()) for (auto &i : {J(), J(true), J(1), J(-3), J(2.5), J((long long)INT64_MIN), J(""), J("a"), J("aaa"), J(nul("a", "b")), J("\xff"), J::arr(), A({J(1)}), A({J("a"), J("a")}), A({J::obj(), J()}), J::obj(), O({{"a", J(1)}}), O({{"a", J("x")}, {"b", J()}, {"", J::obj()}}), O({{"a", O({{"a", A({J(1), J("a")})}})}})}) { d.push_back(std::make_unique<rapidjson::Document>()); rj::doc(*d.back(), i); }
    return d;
}
static bool selfApplies(int draft, const J &s) {   // some schema applies to a value by way of itself
    ref::Eval ev(draft);
    try {
        ev.index(s, "");
        std::map<const J *, int> st; bool loop = false;
        std::function<void(const J &)> in = [&](const J &n0) {
            const J *n = &n0; int hops = 0;
            while (n->t == J::Obj && n->get("$ref") && n->get("$ref")->t == J::Str) { if (++hops > 64) { loop = true; return; } n = ev.deref(*n, n->get("$ref")->s); }
            if (n->t != J::Obj || loop) return;
            if (st[n] == 1) { loop = true; return; } if (st[n] == 2) return;
            st[n] = 1;
            for (const char *k : {"allOf", "anyOf", "oneOf", "extends", "type", "disallow"}) if (const J *x = n->get(k)) { if (x->t == J::Arr) { for (auto &e : x->a) in(e); } else if (x->t == J::Obj) in(*x); }
            for (const char *k : {"not", "if", "then", "else"}) if (const J *x = n->get(k)) in(*x);
            if (const J *x = n->get("dependencies")) for (auto &m : x->o) in(m.second);
            st[n] = 2;
        };
        std::set<const J *> all; std::function<void(const J &)> every = [&](const J &n) { if (ev.baseOf.count(&n)) in(n); for (auto &m : n.o) every(m.second); for (auto &x : n.a) every(x); };
        every(s);
        return loop;
    } catch (const std::exception &) { return true; }     // decided loosely: only used to skip validation
}
static std::string c12one(Run &run, int draft, const J &schema, bool mustReject, bool mustAccept, bool crashOnly, bool root) {
    { ref::Eval ev(draft); try { ev.index(schema, ""); if (rootLoops(ev, schema)) { if (!run.replaying && !run.known.count(O({{"draft", J(draft)}, {"schema", schema}}).str())) run.c("root_reference_loops_skipped")++; if (!root) return ""; } } catch (const std::exception &) {} }
    rapidjson::Document d; rj::doc(d, schema);
    bool ok = true; std::string what;
    {
        Schema s; SchemaParser p(rj::ver(draft));
        try { p.populateSchema(rj::Adapter(d), s); } catch (const std::exception &e) { ok = false; what = e.what(); } catch (...) { return "population threw something that is not a standard exception"; }
        if (ok) run.c("accepted")++; else run.c("rejected")++;
        if (ok && mustReject) return "accepted, although the draft forbids the value";
        if (!ok && mustAccept) return "rejected (" + what + "), although the draft allows the value";
        if (ok && !crashOnly) {
            if (selfApplies(draft, schema)) run.c("self_application_not_validated")++;
            else for (auto &i : anyDocs()) for (int w = 0; w < 2; w++) {
                Validator v(w ? Validator::kWeakTypes : Validator::kStrongTypes); rj::Adapter ad(*i); ValidationResults r;
                run.c("validations")++;
                try { v.validate(s, ad, w ? nullptr : &r); } catch (const std::exception &) { run.c("validations_throwing")++; } catch (...) { return "validation threw something that is not a standard exception"; }
            }
        }
    }
    return "";
}
static int verdictFor(int draft, const std::string &k, const J &v, bool &rej, bool &acc) {
    int a = allowed(draft, k, v);
    rej = a == 0 && !loose(k, v); acc = false;
    (void)acc; return a;
}
static void c12(Run &run) {
    uint64_t idx = 0;
    auto test = [&](int draft, const J &s, bool rej, bool acc) {
        if (!run.mine(idx++) || run.full()) return;
        J c = O({{"draft", J(draft)}, {"schema", s}}); if (rej) c.set("reject", J(true)); if (acc) c.set("accept", J(true));
        run.slot(0, c.str());
        run.c("schemas")++;
        std::string m = c12one(run, draft, s, rej, acc, false, false);
        if (!m.empty()) run.violation(c, m);
        if (idx % 20011 == 17) run.sample(c);
    };
    J defs = O({{"d", O({{"type", J("integer")}})}});
    auto kws = keywords();
    if (run.part == "many") {   // how deep, how long, how many; something forbidden at one place
        const J bad = O({{"minLength", J(-1)}}), good = O({{"type", J("integer")}});
        auto lazily = [&](int draft, const std::function<J(bool &)> &make) { if (run.mine(idx)) { bool rej = false; J s = make(rej); test(draft, s, rej, false); } else idx++; };
        auto one = [](const std::string &k, J v) { J o = J::obj(); o.o.emplace_back(k, std::move(v)); return o; };
        auto lone = [](J v) { J l = J::arr(); l.a.push_back(std::move(v)); return l; };
        for (int draft : {7, 4, 3}) {
            std::vector<J> nums; { auto I = [&](int64_t x) { nums.push_back(J((long long)x)); }; for (int k = 0; k < 63; k++) { int64_t p = (int64_t)1 << k; for (int64_t d : {-1, 0, 1, 5}) { I(p + d); I(-p + d); I(-p - d); } } uint64_t t = 1; for (int k = 0; k <= 18; k++, t *= 10) for (int64_t d : {-1, 0, 1}) { I((int64_t)t + d); I(-(int64_t)t + d); } I(INT64_MAX); I(INT64_MIN); I(INT64_MIN + 5); size_t n = nums.size(); for (size_t k = 0; k < n; k++) nums.push_back(J((double)nums[k].i)); for (int k = 1; k < 60; k++) for (double d : {std::ldexp(1.0, -k), -std::ldexp(1.0, -k), 1 + std::ldexp(1.0, -k), -1 - std::ldexp(1.0, -k)}) nums.push_back(J(d)); for (double d : {1e19, -1e19, 1e22, -1e22, 1e300, -1e300, -18446744073709551616.0, 18446744073709551616.0}) nums.push_back(J(d)); }
            for (auto &k : kws) for (auto &x : nums) {   // the size of numbers
                if (!run.mine(idx)) { idx++; continue; }
                bool rej, acc; int a = verdictFor(draft, k, x, rej, acc); bool count = k.compare(0, 3, "min") == 0 || k.compare(0, 3, "max") == 0 || k == "multipleOf" || k == "divisibleBy";
                test(draft, one(k, x), rej && k != "definitions" && k != "additionalItems" && k != "exclusiveMinimum" && k != "exclusiveMaximum" && k != "then" && k != "else", a == 1 && count && x.t == J::Int);
            }
            std::vector<int> depths = {1, 2, 3, 8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257}; if (run.thorough()) for (int k : {300, 400}) depths.push_back(k);
            for (int n : depths) for (auto &k : kws) {
                auto wrap = [=](J x) { J w = J::obj();
                    if (k == "properties" || k == "definitions" || k == "patternProperties" || k == "dependencies") return one(k, one("a", std::move(x)));
                    if (k == "allOf" || k == "anyOf" || k == "oneOf" || (k == "items" && n % 2) || (k == "extends" && n % 2) || k == "type" || k == "disallow") return one(k, lone(std::move(x)));
                    if (k == "then" || k == "else") w.set("if", J::obj());
                    else if (k == "additionalItems") w.set("items", J::arr());
                    w.o.emplace_back(k, std::move(x)); return w; };
                for (int leaf = 0; leaf < 3; leaf++) lazily(draft, [&](bool &) { J s = leaf == 0 ? good : leaf == 1 ? bad : refTo("#"); for (int q = 0; q < n; q++) s = wrap(std::move(s)); return s; });
                for (int kind = 0; kind < 2; kind++) lazily(draft, [&](bool &) { J v = J(1); for (int q = 0; q < n; q++) v = kind ? lone(std::move(v)) : one("a", std::move(v)); return one(k, std::move(v)); });
            }
            std::vector<int> few = {0, 1, 2, 3, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 257};
            for (int n : run.thorough() ? fam::sizes(true) : few) {
                for (auto &k : kws) for (int ok = 0; ok < 2; ok++) {   // lists and maps
                    auto pl = ok ? std::vector<int>{-1} : fam::places(n); if (pl.size() > 5) pl = {0, 1, n / 2, n - 2, n - 1};
                    for (int b : pl) for (int of = 0; of < 3; of++) for (int map = 0; map < 2; map++) lazily(draft, [&](bool &rej) {
                        J v = map ? J::obj() : J::arr();
                        for (int q = 0; q < n; q++) { J x = of == 0 ? J(fam::nm(q)) : of == 1 ? good : A({J(fam::nm(q))}); if (q == b) x = of == 1 ? J(1) : of == 0 ? J::obj() : J(); if (map) v.o.emplace_back(fam::nm(q), x); else v.a.push_back(x); }
                        bool acc; verdictFor(draft, k, v, rej, acc); if (k == "definitions" || k == "additionalItems") rej = false;
                        J s = one(k, std::move(v));
                        if (k == "then" || k == "else") s.set("if", J::obj());
                        if (k == "exclusiveMinimum" && draft != 7) s.set("minimum", J(1));
                        if (k == "exclusiveMaximum" && draft != 7) s.set("maximum", J(1));
                        return s;
                    });
                }
                auto rep = [n](const std::string &pre, const std::string &ch) { std::string t = pre; for (int q = 0; q < n; q++) t += ch; return t; };
                for (auto &k : kws) for (std::string pre : {"", "#", "#/definitions/", "http://h/", "urn:x:", "%", "1", "true"}) {   // long texts
                    if (k == "pattern" && n > 65) continue;
                    bool text = false; for (const char *x : {"type", "pattern", "format", "title", "$id", "id", "$ref", "required", "minLength", "multipleOf", "uniqueItems"}) text = text || k == x;
                    if (!text && !run.thorough()) continue;
                    for (std::string ch : {"a", "0", "%", "/", "~", "\xff", ":", "."}) lazily(draft, [&](bool &) { return one(k, J(rep(pre, ch))); });
                }
                for (std::string k : {"properties", "definitions", "dependencies", "patternProperties"}) for (std::string ch : {"a", "~", "%", "/", "\xff", "0"}) {   // long names, and references to them
                    if (k == "patternProperties" && n > 65) continue;
                    for (int enc = 0; enc < 2; enc++) lazily(draft, [&](bool &) { std::string t = rep("", ch); return O({{k, one(t, good)}, {"items", refTo("#/" + k + "/" + (enc ? pctEnc(ref::escTok(t)) : t))}}); });
                }
                for (int from = 0; n && from < n; from += n < 8 ? 1 : n / 4) for (std::string via : {"", "items", "not", "allOf", "properties"}) lazily(draft, [&](bool &) {   // rings of references
                    J d = J::obj(); for (int q = 0; q < n; q++) { J r = refTo("#/definitions/" + fam::nm(q + 1 < n ? q + 1 : from)); d.o.emplace_back(fam::nm(q), q % 3 || via.empty() ? r : via == "allOf" ? O({{via, A({r})}}) : via == "properties" ? O({{via, O({{"a", r}})}}) : O({{via, r}})); }
                    return O({{"definitions", d}, {"additionalProperties", refTo("#/definitions/m0")}});
                });
            }
        }
        return;
    }
    if (run.part == "single") {
        for (int draft : {3, 4, 7}) for (auto &v : shapes(draft)) {
            test(draft, v, v.t != J::Obj && !(draft == 7 && v.t == J::Bool) && v.t != J::Str && !(v.t == J::Arr && v.a.empty()), false);
            for (auto &k : kws) {
                bool rej, acc; verdictFor(draft, k, v, rej, acc);
                J s = O({{"definitions", defs}}); s.set(k, v);
                if (k == "definitions") rej = false;
                if (k == "exclusiveMinimum" && draft != 7) { s.set("minimum", J(1)); }
                if (k == "exclusiveMaximum" && draft != 7) { s.set("maximum", J(1)); }
                if (k == "additionalItems") s.set("items", A({J::obj()}));
                if (k == "then" || k == "else") s.set("if", J::obj());
                test(draft, s, rej, acc);
                for (auto &outer : {std::string("properties"), std::string("items"), std::string("allOf"), std::string("definitions"), std::string("dependencies"), std::string("not"), std::string("extends"), std::string("additionalProperties"), std::string("if")}) {
                    J t = J::obj(); J in = s; in.o.erase(in.o.begin()); if (k == "definitions") in.set(k, v);
                    bool r2 = rej;
                    if (outer == "properties" || outer == "dependencies") t.set(outer, O({{"a", in}}));
                    else if (outer == "allOf") { t.set(outer, A({J::obj(), in})); if (draft == 3) r2 = false; }
                    else if (outer == "definitions") { t.set(outer, O({{"q", in}})); t.set("items", O({{"$ref", J("#/definitions/q")}})); }
                    else { t.set(outer, in); if (outer == "extends" ? draft != 3 : outer == "if" ? draft != 7 : outer == "not" ? draft == 3 : false) r2 = false; }
                    if (k == "$ref" || k == "$id" || k == "id") r2 = r2 && k == "$ref";
                    test(draft, t, r2, false);
                }
            }
        }
    } else if (run.part == "pairs") {
        for (int draft : {3, 4, 7}) {
            auto sh = shapes(draft);
            if (!run.thorough()) sh = {J(), J(true), J(1), J(-1), J(2.5), J("a"), J("("), J("#"), J::arr(), A({J("a")}), A({J::obj(), J(1)}), J::obj(), O({{"a", J::obj()}}), O({{"a", J(5)}}), O({{"a", A({J("b")})}}), O({{"$ref", J("#")}})};
            for (size_t a = 0; a < kws.size(); a++) for (size_t b = a + 1; b < kws.size(); b++) for (auto &v : sh) for (auto &w : sh) {
                J s = J::obj(); s.set(kws[a], v); s.set(kws[b], w);
                test(draft, s, false, false);
            }
        }
    } else {   // "graphs": every reference graph of up to four nodes
        for (int draft : {3, 4, 7}) {
            std::vector<std::string> ptr = {"#", "#/definitions/a", "#/definitions/b", "#/definitions/c", "#/definitions/none", "#/definitions/a/items"};
            std::vector<J> opt = {J::obj()};
            for (auto &p : ptr) {
                opt.push_back(refTo(p)); opt.push_back(O({{"items", refTo(p)}}));
                if (draft == 3) opt.push_back(O({{"extends", refTo(p)}})); else opt.push_back(O({{"allOf", A({refTo(p)})}}));
                opt.push_back(O({{"properties", O({{"a", refTo(p)}})}, {"dependencies", O({{"a", refTo(p)}})}}));
            }
            for (auto &r : opt) for (auto &x : opt) for (auto &y : opt) for (auto &z : opt) {
                if (draft != 7 && &z != &opt[0]) continue;
                if (!run.thorough() && draft == 7 && &z - &opt[0] > 4) continue;
                J s = r; s.set("definitions", O({{"a", x}, {"b", y}, {"c", z}}));
                test(draft, s, false, false);
            }
        }
    }
}

std::string replayCase(Run &run, const J &c) {
    int draft = (int)c.get("draft")->i; const J &s = *c.get("schema");
    uint64_t steps = 0;
    if (run.prop == "C10" && c.get("inst")) { const auto &l = c.get("inst")->a; Model m = model(draft, s, {}, l, steps, true); return m.excluded ? "" : c10one(run, draft, s, m, &l); }
    if (run.prop == "C10") { Model m = model(draft, s, {}, insts(), steps); return m.excluded ? "" : c10one(run, draft, s, m); }
    if (run.prop == "C11") {
        Remotes rem; for (auto &m : c.get("remote")->o) rem.emplace_back(m.first, m.second);
        if (c.get("loop")) { Fetch f; f.rem = &rem; rapidjson::Document d; rj::doc(d, s); Schema sc; SchemaParser p(rj::ver(draft)); try { p.populateSchema<rj::Adapter>(rj::Adapter(d), sc, [&](const std::string &u) { return f.fetch(u); }, [&](const rapidjson::Document *x) { f.release(x); }); } catch (const std::exception &) {} return ""; }
        Model md = model(draft, s, rem, insts(), steps, true);
        return md.excluded ? "" : c11one(run, draft, s, rem, (int)c.get("fail")->i, c.get("kind")->s, md);
    }
    return c12one(run, draft, s, c.get("reject") != nullptr, c.get("accept") != nullptr, false, true);
}
void explore(Run &run) { if (run.prop == "C10") c10(run); else if (run.prop == "C11") c11(run); else c12(run); }
