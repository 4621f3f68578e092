// C09: nested documents with awkward names and several failing siblings, and
// every history of a results object.
#include "../lib/rj.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/rich.hpp"
#include "../lib/harness.hpp"
#include "../lib/errjudge.hpp"
#include <deque>
using namespace valijson;
using fam::O; using fam::A; using fam::nul;

static std::string one(int draft, const J &schema, const J &inst, const Schema &s, const rapidjson::Value &iv, uint64_t &errs, uint64_t &steps) {
    ref::Eval ev(draft); ref::Sites st; ref::Path p;
    ev.index(schema, "");
    bool want = ev.ev(schema, inst, p, &st, true); steps += ev.steps;
    Validator val; ValidationResults res; rj::Adapter ad(iv);
    bool got;
    try { got = val.validate(s, ad, &res); } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
    if (got != want) return got ? "accepted, the draft says invalid" : "rejected, the draft says valid";
    if (want) return res.numErrors() ? "valid but reports errors" : "";
    errs += res.numErrors();
    std::string m = ej::judge(st, inst, res);
    if (!m.empty()) return m;
    // what is popped is what was iterated, in that order, once
    std::vector<ValidationResults::Error> all(res.begin(), res.end());
    ValidationResults::Error e;
    for (auto &w : all) { if (!res.popError(e) || e.jsonPointer != w.jsonPointer || e.context != w.context || e.description != w.description) return "popped errors differ from iterated ones"; }
    if (res.popError(e) || res.numErrors()) return "more errors popped than reported";
    return "";
}
static std::vector<std::string> names() { return {"a", "", "a/b", "~", "~1", "~01", "0", "%41", "\"", "]", nul("x", "y"), "\xc3\xa9", "/", "//~", " "}; }
static std::vector<J> subs(int draft, bool deep) {
    J I = O({{"type", J("integer")}});
    std::vector<J> v = {I, O({{"minimum", J(3)}, {"type", J("integer")}}), O({{"properties", O({{"a", I}, {"a/b", O({{"enum", A({J(1)})}})}})}}), O({{"additionalProperties", J(false)}}), O({{"additionalProperties", I}}), O({{"items", I}}), O({{"items", A({I, O({{"type", J("string")}})})}, {"additionalItems", J(false)}}), O({{"items", A({I})}, {"additionalItems", O({{"minItems", J(2)}})}}), O({{"patternProperties", O({{"a", I}, {"~", O({{"minLength", J(2)}, {"type", J("string")}})}})}}), O({{"uniqueItems", J(true)}}), O({{"dependencies", O({{"a", O({{"properties", O({{"a", I}})}})}})}})};
    if (draft == 7) { v.push_back(J(false)); v.push_back(O({{"contains", I}})); v.push_back(O({{"propertyNames", O({{"maxLength", J(0)}})}})); v.push_back(O({{"if", O({{"type", J("object")}})}, {"then", O({{"properties", O({{"a", I}})}})}, {"else", O({{"items", I}})}})); }
    if (draft >= 4) { v.push_back(O({{"required", A({J("a"), J("~")})}})); v.push_back(O({{"allOf", A({I, O({{"properties", O({{"", I}})}})})}})); v.push_back(O({{"anyOf", A({O({{"type", J("null")}}), O({{"properties", O({{"a", I}})}, {"items", I}})})}})); v.push_back(O({{"oneOf", A({O({{"type", J("array")}}), O({{"items", I}, {"properties", O({{"~1", I}})}})})}})); v.push_back(O({{"not", J::obj()}})); }
    else { v.push_back(O({{"extends", A({I, O({{"properties", O({{"", I}})}})})}})); v.push_back(O({{"type", A({J("null"), O({{"properties", O({{"a", I}})}})})}})); v.push_back(O({{"properties", O({{"a", O({{"required", J(true)}})}})}})); }
    (void)deep;
    return v;
}
static std::vector<J> values(bool deep) {
    std::vector<J> leaf = {J(1), J("s")}, v = leaf;
    for (auto &l : leaf) { v.push_back(A({l})); v.push_back(O({{"a", l}})); v.push_back(O({{"a/b", l}, {"~1", J("q")}, {"", l}})); }
    v.push_back(A({J("x"), J("x"), A({J(1)}), J(2)}));
    v.push_back(O({{"~", J(1)}, {"~a", J("q")}, {"a", J()}}));
    if (deep) { v.push_back(A({J(1), J("s"), J(), O({{"a", J("x")}})})); v.push_back(O({{"a", A({J("x"), J(1)})}, {"0", O({{"a", J("x")}})}})); v.push_back(J()); }
    return v;
}
// a schema position: how a member or item is reached
static J place(int how, const std::string &n, const J &a, const J &b) {
    switch (how) {
    case 0: return O({{"properties", O({{n, a}, {"b", b}})}});
    case 1: return O({{"properties", O({{n, a}})}, {"additionalProperties", b}});
    case 2: return O({{"items", A({a, b})}});
    case 3: return O({{"items", A({a})}, {"additionalItems", b}});
    case 4: return O({{"items", a}, {"properties", O({{n, b}})}});
    case 5: return O({{"patternProperties", O({{"b", b}, {"", a}})}});
    case 6: return O({{"properties", O({{n, O({{"$ref", J("#/definitions/d")}})}, {"b", b}})}, {"definitions", O({{"d", a}})}});
    default: return O({{"properties", O({{"outer", O({{"items", O({{"properties", O({{n, a}})}, {"additionalProperties", b}})}})}})}});
    }
}
static J docFor(int how, const std::string &n, const J &x, const J &y) {
    switch (how) {
    case 0: case 1: case 5: case 6: return O({{"b", y}, {n, x}});
    case 2: case 3: return A({x, y, x});
    case 4: return n == "" ? A({x, y}) : O({{n, y}});
    default: return O({{"outer", A({O({{n, x}}), O({{"b", y}, {n, y}})})}});
    }
}
static void nested(Run &run) {
    uint64_t idx = 0;
    for (int draft : {7, 4, 3}) {
        auto sb = subs(draft, run.thorough()); auto vs = values(run.thorough());
        auto nm = names();
        for (int how = 0; how < 8; how++) for (auto &n : nm) {
            if ((how == 2 || how == 3) && &n != &nm[0]) continue;
            // documents for this position
            std::vector<J> insts; for (auto &x : vs) for (auto &y : vs) { J d = docFor(how, n, x, y); bool dup = false; if (d.t == J::Obj) for (size_t a = 0; a < d.o.size(); a++) for (size_t b = 0; b < a; b++) if (d.o[a].first == d.o[b].first) dup = true; if (!dup) insts.push_back(d); }
            std::vector<std::unique_ptr<rapidjson::Document>> docs; std::vector<std::string> text;
            for (auto &a : sb) for (auto &b : sb) {
                if ((draft != 7 || (n != "a/b" && n != "~1")) && !run.thorough() && &a != &sb[0] && &b != &sb[0] && &a != &b) continue;
                if (how == 3 && b.t == J::Bool) { }
                if (!run.mine(idx++) || run.full()) continue;
                if (docs.empty()) for (auto &i : insts) { docs.push_back(std::make_unique<rapidjson::Document>()); rj::doc(*docs.back(), i); text.push_back(i.str()); }
                J schema = place(how, n, a, b);
                run.slot(0, "{\"draft\":" + std::to_string(draft) + ",\"schema\":" + schema.str());
                run.slot(1, ",\"instance\":null}");
                rapidjson::Document sd; rj::doc(sd, schema);
                Schema s; SchemaParser p(rj::ver(draft));
                try { p.populateSchema(rj::Adapter(sd), s); } catch (const std::exception &e) { run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"instance", J()}}), std::string("schema rejected: ") + e.what()); continue; }
                run.c("schemas")++;
                for (size_t k = 0; k < insts.size() && !run.full(); k++) {
                    run.slot(1, ",\"instance\":" + text[k] + "}");
                    run.c("pairs")++;
                    std::string m = one(draft, schema, insts[k], s, *docs[k], run.c("errors"), run.c("model_steps"));
                    if (!m.empty()) run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"instance", insts[k]}}), m);
                }
                if (idx % 1013 == 7) run.sample(O({{"draft", J(draft)}, {"schema", schema}, {"instance", insts[idx % insts.size()]}}));
            }
        }
    }
    for (int draft : {3, 4, 7}) for (auto &r : fam::richSchemas(draft)) {
        if (!r.remote.empty()) continue;
        if (!run.mine(idx++)) continue;
        rapidjson::Document sd; rj::doc(sd, r.schema); Schema s; SchemaParser p(rj::ver(draft)); p.populateSchema(rj::Adapter(sd), s);
        if (r.schema.get("format") || r.schema.get("disallow")) continue;
        for (auto &i : fam::richDocs()) {
            J c = O({{"draft", J(draft)}, {"schema", r.schema}, {"instance", i}}); run.slot(0, c.str()); run.slot(1, "");
            rapidjson::Document d; rj::doc(d, i); run.c("pairs")++;
            std::string m = one(draft, r.schema, i, s, d, run.c("errors"), run.c("model_steps"));
            if (!m.empty()) run.violation(c, m);
        }
    }
}

// ------------------------------------------------------------------ histories
typedef ValidationResults VR;
static VR::Path pathOf(int k) {
    switch (k) {
    case 0: return {};
    case 1: return {{VR::kObject, "a/b~c"}, {VR::kArray, "0"}};
    default: return {{VR::kArray, "12"}, {VR::kObject, ""}, {VR::kObject, nul("x", "~1")}};
    }
}
struct ME { std::vector<std::string> c; std::string d, p; };
static ME meOf(int k) {
    if (k == 0) return {{"<root>"}, "d0", ""};
    if (k == 1) return {{"<root>", "[\"a/b~c\"]", "[0]"}, "d1", "/a~1b~0c/0"};
    return {{"<root>", "[12]", "[\"\"]", "[\"" + nul("x", "~1") + "\"]"}, "d2", "/12//" + nul("x", "~01")};
}
static std::string same(const VR &r, const std::deque<ME> &m) {
    if (r.numErrors() != m.size()) return "numErrors is " + std::to_string(r.numErrors()) + ", pushed and not popped: " + std::to_string(m.size());
    size_t k = 0;
    for (auto &e : r) { if (k >= m.size() || e.context != m[k].c || e.description != m[k].d || e.jsonPointer != m[k].p) return "iteration differs at " + std::to_string(k); k++; }
    return k == m.size() ? "" : "iteration is short";
}
// ops: 0-2 push an error object, p q r push by path, o pop, c continue on a copy, v append the errors of a validation, m move
static std::string queue(Run &run, const std::string &ops, bool onlyLast) {
    static std::unique_ptr<Schema> sc; static rapidjson::Document doc;
    static std::vector<VR::Error> fresh;
    if (!sc) {
        rapidjson::Document sd; rj::doc(sd, O({{"properties", O({{"a/b", O({{"type", J("null")}})}, {"c", O({{"minimum", J(9)}})}})}})); sc.reset(new Schema); SchemaParser p; p.populateSchema(rj::Adapter(sd), *sc);
        rj::doc(doc, O({{"a/b", J(1)}, {"c", J(2)}})); VR r; Validator v; rj::Adapter ad(doc); v.validate(*sc, ad, &r); fresh.assign(r.begin(), r.end());
        if (fresh.size() < 2) return "the reference run reports fewer errors than failing members";
    }
    std::unique_ptr<VR> r(new VR), kept; std::deque<ME> m, km;
    for (size_t q = 0; q < ops.size(); q++) {
        char op = ops[q]; std::string msg;
        run.c("operations")++;
        if (op >= '0' && op <= '2') { ME e = meOf(op - '0'); r->pushError({e.c, e.d, e.p}); m.push_back(e); }
        else if (op >= 'p' && op <= 'r') { ME e = meOf(op - 'p'); r->pushError(pathOf(op - 'p'), e.d); m.push_back(e); }
        else if (op == 'o') {
            VR::Error e; e.description = "old"; e.context = {"x"};
            bool got = r->popError(e);
            if (got != !m.empty()) msg = got ? "popped from an empty queue" : "pop refused";
            else if (got) { if (e.context != m[0].c || e.description != m[0].d || e.jsonPointer != m[0].p) msg = "popped another error than the oldest"; m.pop_front(); }
        } else if (op == 'c') { kept = std::move(r); km = m; r.reset(new VR(*kept)); }
        else if (op == 'm') { std::unique_ptr<VR> n(new VR); *n = std::move(*r); r = std::move(n); }
        else if (op == 'v') { Validator v; rj::Adapter ad(doc); v.validate(*sc, ad, r.get()); for (auto &e : fresh) m.push_back({e.context, e.description, e.jsonPointer}); }
        if (msg.empty() && (!onlyLast || q + 1 == ops.size())) { msg = same(*r, m); if (msg.empty() && kept) { msg = same(*kept, km); if (!msg.empty()) msg = "the copied-from object changed: " + msg; } }
        if (!msg.empty()) return "after " + ops.substr(0, q + 1) + ": " + msg;
    }
    return "";
}
static void queues(Run &run) {
    const std::string al = "012pqrocvm"; uint64_t idx = 0;
    int maxn = run.thorough() ? 7 : 6;
    for (int n = 1; n <= maxn; n++) {
        uint64_t total = 1; for (int k = 0; k < n; k++) total *= al.size();
        for (uint64_t q = 0; q < total; q++) {
            if (!run.mine(idx++ >> 5) || run.full()) continue;
            std::string s(n, 0); uint64_t r = q; for (int k = n - 1; k >= 0; k--) { s[k] = al[r % al.size()]; r /= al.size(); }
            run.slot(0, O({{"ops", J(s)}}).str());
            run.c("histories")++;
            std::string m = queue(run, s, true);      // every prefix is a history of its own
            if (!m.empty()) run.violation(O({{"ops", J(s)}}), m);
            if (idx % 300007 == 5) run.sample(O({{"ops", J(s)}}));
        }
    }
}
std::string replayCase(Run &run, const J &c) {
    if (c.get("ops")) return queue(run, c.get("ops")->s, false);
    int draft = (int)c.get("draft")->i; const J &schema = *c.get("schema"), &inst = *c.get("instance");
    rapidjson::Document sd, d; rj::doc(sd, schema); rj::doc(d, inst); Schema s; SchemaParser p(rj::ver(draft));
    try { p.populateSchema(rj::Adapter(sd), s); } catch (const std::exception &e) { return std::string("schema rejected: ") + e.what(); }
    uint64_t a = 0, b = 0; return one(draft, schema, inst, s, d, a, b);
}
void explore(Run &run) { if (run.part == "queue") queues(run); else nested(run); }
