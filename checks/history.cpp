// C18: every bounded history of validations over shared validators, schemas,
// documents and results objects; the outcome of the last step must be the one
// a process that never did anything else gives.
#include "../lib/rj.hpp"
#include "../lib/adlib.hpp"
#include "../lib/harness.hpp"
#include <valijson/constraints/concrete_constraints.hpp>
#include <sys/wait.h>
using namespace valijson;
struct Moody : constraints::PolyConstraint {
    Constraint *cloneInto(void *p) const override { return new (p) Moody(*this); }
    size_t sizeOf() const override { return sizeof(Moody); }
    bool validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const override;
};
struct MoodyBuilder : ConstraintBuilder { constraints::Constraint *make(const adapters::Adapter &) const override { return new Moody(); } };

static std::vector<J> g_schemas, g_docs;
static const char *kSchemas[] = {
    R"({"pattern":"^a","maxLength":2})", R"({"pattern":"^b"})",
    R"({"properties":{"k":{"pattern":"^a"}},"patternProperties":{"^a":{"type":"integer"},"b$":{"pattern":"^b"}},"additionalProperties":false})",
    R"({"anyOf":[{"pattern":"^b"},{"format":"time"},{"type":"integer"}],"not":{"const":1}})",
    R"({"pattern":"["})", R"({"x-moody":1,"type":["string","integer","object","array"]})",
    R"({"format":"date-time"})", R"({"items":{"enum":["a","b",1]},"uniqueItems":true,"contains":{"const":"a"},"propertyNames":{"pattern":"^a"}})",
    R"({"patternProperties":{"[":{"type":"integer"}}})", R"({"dependencies":{"k":["ab"],"a":{"maxProperties":1}},"properties":{"ab":{"format":"ipv4"}}})"};
static const char *kDocs[] = {R"("ab")", R"("b")", "1", R"({"ab":"b","k":"a"})", R"({"a":1,"xb":"bb"})", R"(["a","a"])", R"("2024-02-29T00:00:00")", R"("12:00:00Z")", R"({"k":"b","ab":"1.2.3.4"})"};
enum { NS = 10, ND = 9, NV = 5, NM = 3, NP = 3 };
// validators: 0 strong, 1 weak, 2 permissive dates, 3 a copy of validator 0, 4 a new one put in place of validator 0
struct Step { int s, d, v, m, p; };
static Step decode(int o) { return {o % NS, o / NS % ND, o / NS / ND % NV, o / NS / ND / NV % NM, o / NS / ND / NV / NM}; }
static int encode(Step x) { return x.s + NS * (x.d + ND * (x.v + NV * (x.m + NM * x.p))); }
static SchemaParser *g_parser;

// results modes: 0 none, 1 own, 2 shared by the whole history. places: 0 objects that live throughout, 1 objects rebuilt at one address, 2 another library
struct World {
    std::vector<std::unique_ptr<Schema>> schemas; std::vector<std::unique_ptr<rapidjson::Document>> docs; std::vector<std::unique_ptr<Handle>> other;
    alignas(16) char schemaSlot[sizeof(Schema)]; alignas(16) char docSlot[sizeof(rapidjson::Value)]; alignas(16) char pool[8192]; bool used = false;
    std::unique_ptr<rapidjson::MemoryPoolAllocator<>> alloc;
    World() {
        for (auto &s : g_schemas) { schemas.emplace_back(new Schema()); fill(*schemas.back(), s); }
        for (auto &d : g_docs) { docs.emplace_back(new rapidjson::Document()); rj::doc(*docs.back(), d); other.push_back(adLib("boost_json").build(d)); }
    }
    static void fill(Schema &s, const J &j) { rapidjson::Document d; rj::doc(d, j); g_parser->populateSchema(rj::Adapter(d), s); }
    Schema &atSlot(int k) { Schema *s = new (schemaSlot) Schema(); fill(*s, g_schemas[k]); return *s; }
    rapidjson::Value &docAtSlot(int k) { alloc.reset(new rapidjson::MemoryPoolAllocator<>(pool, sizeof pool)); auto *v = new (docSlot) rapidjson::Value(); rj::fill(*v, g_docs[k], *alloc); return *v; }
};
static World *w;
struct Val { Validator strong{Validator::kStrongTypes}, weak{Validator::kWeakTypes}, perm{Validator::kStrongTypes, Validator::kPermissiveDateTime}; };
static std::string outcomeText(int v, const std::string &ex, const ValidationResults *r, size_t from) {
    std::string o = v < 0 ? "throws " + ex : v ? "valid" : "invalid"; size_t k = 0;
    if (r) for (auto &e : *r) if (k++ >= from) { o += "\n" + e.jsonPointer + " " + e.description; for (auto &c : e.context) o += " " + c; }
    return o;
}
// Reentrancy: a user constraint may itself validate with the validator that called it.
static Validator *g_inner = nullptr; static int g_innerS = -1, g_innerD = -1; static std::string g_innerOut; static bool g_inside = false;
static std::string plain(Validator &v, int s, int d, bool results) {
    ValidationResults r; int x = -1; std::string ex;
    try { x = v.validate(*w->schemas[s], rj::Adapter(*w->docs[d]), results ? &r : nullptr); } catch (const std::exception &e) { ex = e.what(); }
    return outcomeText(x, ex, results ? &r : nullptr, 0);
}
bool Moody::validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const {
    if (g_inner && !g_inside) { g_inside = true; g_innerOut = plain(*g_inner, g_innerS, g_innerD, true); g_inside = false; }
    if (a.isInteger()) throw std::runtime_error("moody");
    if (!a.isString() || a.asString() != "b") return true;
    if (r) r->pushError(path, "moody");
    return false;
}
static std::string doStep(Val &V, ValidationResults &shared, const Step &x) {
    Validator copy = V.strong; if (x.v == 4) V.strong = Validator(Validator::kStrongTypes);
    Validator &v = x.v == 1 ? V.weak : x.v == 2 ? V.perm : x.v == 3 ? copy : V.strong;
    ValidationResults own; ValidationResults *r = x.m == 0 ? nullptr : x.m == 1 ? &own : &shared; size_t from = x.m == 2 ? shared.numErrors() : 0;
    int got = -1; std::string ex;
    Schema *s = x.p == 1 ? &w->atSlot(x.s) : w->schemas[x.s].get(); rapidjson::Value *d = x.p == 1 ? &w->docAtSlot(x.d) : w->docs[x.d].get();
    try { got = x.p == 2 ? w->other[x.d]->validate(v, *s, r) : v.validate(*s, rj::Adapter(*d), r); } catch (const std::exception &e) { ex = e.what(); }
    std::string out = outcomeText(got, ex, r, from);
    if (x.p == 1) { s->~Schema(); d->~GenericValue(); }
    return out;
}
static std::map<int, std::string> g_want;                               // by step without its place and with a plain validator
static int norm(Step x) { x.p = x.p == 2 ? 2 : 0; if (x.v >= 3) x.v = 0; if (x.m == 2) x.m = 1; return encode(x); }
static std::string cold(const Step &x) {
    int p[2]; if (pipe(p)) abort();
    fflush(nullptr); pid_t pid = fork();
    if (!pid) { Val V; ValidationResults sh; std::string o = doStep(V, sh, x); size_t n = 0; while (n < o.size()) { ssize_t k = write(p[1], o.data() + n, o.size() - n); if (k <= 0) break; n += (size_t)k; } _exit(0); }
    close(p[1]); std::string o; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, (size_t)k); close(p[0]); int st; waitpid(pid, &st, 0); return o;
}
static const std::string &want(const Step &x) { int k = norm(x); auto it = g_want.find(k); if (it == g_want.end()) it = g_want.emplace(k, cold(decode(k))).first; return it->second; }
static std::string stepText(const Step &x) { static const char *V[] = {"strong", "weak", "permissive", "copied", "renewed"}, *M[] = {"no results", "own results", "shared results"}, *P[] = {"kept", "rebuilt in place", "boost"}; return std::string(kSchemas[x.s]) + " on " + kDocs[x.d] + " (" + V[x.v] + ", " + M[x.m] + ", " + P[x.p] + ")"; }
static std::string runSeq(const std::vector<int> &seq, bool deepCheck) {
    Val V; ValidationResults shared; std::string out;
    for (size_t k = 0; k < seq.size(); k++) { out = doStep(V, shared, decode(seq[k])); }
    Step l = decode(seq.back());
    if (out != want(l)) return "the last step gives " + J(out).str() + " instead of " + J(want(l)).str();
    if (deepCheck) for (int o : seq) { Step x = decode(o); { rapidjson::Document ref; rj::doc(ref, g_docs[x.d]); if (!(*w->docs[x.d] == ref)) return "a document changed"; } J a = w->other[x.d]->native(); if (!jeq(a, g_docs[x.d])) return "a document changed"; Val V2; ValidationResults s2; Step y = x; y.v = 0; y.m = 1; y.p = 0; if (doStep(V2, s2, y) != want(y)) return "a schema changed: " + stepText(y); }
    return "";
}
static void setup() { if (w) return; for (auto s : kSchemas) g_schemas.push_back(J::parse(s)); for (auto d : kDocs) g_docs.push_back(J::parse(d)); g_parser = new SchemaParser(); g_parser->addConstraintBuilder("x-moody", new MoodyBuilder()); w = new World(); }
static std::vector<std::vector<int>> g_before;
static J caseJ(const std::vector<int> &seq) {
    J o = J::arr(), t = J::arr(), b = J::arr(); for (int x : seq) { o.push(J(x)); t.push(J(stepText(decode(x)))); }
    for (auto &s : g_before) { J l = J::arr(); for (int x : s) l.push(J(x)); b.push(l); }
    return J::obj({{"steps", o}, {"text", t}, {"before", b}});
}
static void one(Run &run, const std::vector<int> &seq, bool deep) {
    if (run.full()) return;
    if (run.c("sequences") % 64 == 0) run.slot(0, caseJ(seq).str()); else run.progress++;
    run.c("sequences")++; run.c("steps") += seq.size();
    std::string m = runSeq(seq, deep);
    if (seq.size() < 3) run.distinct["histories"].insert((uint64_t)seq[0] * 100000 + (seq.size() > 1 ? seq[1] + 1 : 0));
    if (!m.empty()) run.violation(caseJ(seq), "after " + std::to_string(seq.size() - 1) + " other steps " + stepText(decode(seq.back())) + ": " + m);
    if (g_before.size() >= 4) g_before.erase(g_before.begin());
    g_before.push_back(seq);
    if (run.c("sequences") % 99991 == 5) { J c = caseJ(seq); c.set("before", J::arr()); run.sample(c); }
}
// ---- a validator that has seen very many patterns ----
static std::string pat(int k) { std::string s = "^"; do { s += (char)('a' + k % 7); k /= 7; } while (k); return s + "$"; }
static std::string strFor(int k) { std::string p = pat(k); return p.substr(1, p.size() - 2); }
static std::string tour(Run &run, int n, bool results) {
    Validator v, seen; std::vector<std::unique_ptr<Schema>> ss;
    auto check = [&](int k, int str) -> std::string {
        rapidjson::Document d; rj::doc(d, J(strFor(str))); ValidationResults r; run.c("steps")++;
        bool ok = v.validate(*ss[k], rj::Adapter(d), results ? &r : nullptr);
        return ok == (k == str) && (!results || r.numErrors() == (ok ? 0u : 1u)) ? "" : "after " + std::to_string(ss.size()) + " patterns, " + pat(k) + (ok ? " matches " : " does not match ") + strFor(str);
    };
    for (int k = 0; k < n; k++) {
        run.progress++; run.c("sequences")++;
        rapidjson::Document d; rj::doc(d, J::obj({{"pattern", J(pat(k))}})); ss.emplace_back(new Schema()); SchemaParser p; p.populateSchema(rj::Adapter(d), *ss.back());
        for (int j : {k, 0, k / 2, k - 1, k}) for (int str : {j, k, 0, (j + 1) % (k + 1)}) if (j >= 0) { std::string m = check(j, str); if (!m.empty()) return m; }
        if ((k & (k - 1)) == 0 || k % 50 == 0 || k == n - 1) for (int j = 0; j <= k; j++) { std::string m = check(j, j); if (m.empty()) m = check(j, (j + 7) % (k + 1)); if (!m.empty()) return m; }
    }
    return "";
}
// nested schemas whose patterns are first met while an outer pattern is being applied
static std::string nested(Run &run, int depth, int width, bool fail, bool results) {
    int n = 0; std::function<J(int)> mk = [&](int d) -> J { if (d == 0) return J::obj({{"pattern", J(fail ? "^no" + std::to_string(n++) : "^y|" + std::to_string(n++))}}); J pp = J::obj(); for (int k = 0; k < width; k++) { std::string key = std::string("^") + (char)('a' + k) + "|q" + std::to_string(n++); pp.set(key, mk(d - 1)); } return J::obj({{"patternProperties", pp}, {"additionalProperties", J(false)}}); };
    std::function<J(int)> doc = [&](int d) -> J { if (d == 0) return J("y"); J o = J::obj(); for (int k = 0; k < width; k++) { o.set(std::string(1, (char)('a' + k)), doc(d - 1)); o.set(std::string(2, (char)('a' + k)), doc(d - 1)); } return o; };
    J s = mk(depth), dd = doc(depth); rapidjson::Document sd, id; rj::doc(sd, s); rj::doc(id, dd); Schema sc; SchemaParser p; p.populateSchema(rj::Adapter(sd), sc);
    Validator v; std::string first;
    for (int pass = 0; pass < 3; pass++) {
        ValidationResults r; run.c("steps")++; run.c("sequences")++;
        bool ok = v.validate(sc, rj::Adapter(id), results ? &r : nullptr); if (ok == fail) return "verdict"; std::string o = outcomeText(ok, "", &r, 0); if (pass == 0) first = o; else if (o != first) return "another outcome on a validator that was used before";
    }
    return "";
}
static std::string reenter(Run &run, int inS, int inD, int outD, bool results) {
    Validator v; g_inner = &v; g_innerS = inS; g_innerD = inD; g_innerOut.clear(); run.c("sequences")++; run.c("steps") += 2;
    std::string o = plain(v, 5, outD, results); g_inner = nullptr;
    if (o != want({5, outD, 0, results ? 1 : 0, 0})) return "the outer validation gives " + J(o).str();
    if (!g_innerOut.empty() && g_innerOut != want({inS, inD, 0, 1, 0})) return "the inner validation gives " + J(g_innerOut).str();
    return "";
}
std::string replayCase(Run &run, const J &c) {
    setup();
    if (const J *t = c.get("tour")) return tour(run, (int)t->i, c.get("results")->b);
    if (const J *t = c.get("nested")) return nested(run, (int)t->i, (int)c.get("width")->i, c.get("fail")->b, c.get("results")->b);
    if (const J *t = c.get("reenter")) return reenter(run, (int)t->a[0].i, (int)t->a[1].i, (int)t->a[2].i, c.get("results")->b);
    std::vector<int> seq; for (auto &x : c.get("steps")->a) seq.push_back((int)x.i);
    for (int k = 0; k < NS * ND * NV * NM * NP; k++) want(decode(k));
    for (auto &b : c.get("before")->a) { std::vector<int> s; for (auto &x : b.a) s.push_back((int)x.i); runSeq(s, false); }
    return runSeq(seq, true);
}
void explore(Run &run) {
    setup();
    for (int k = 0; k < NS * ND * NV * NM * NP; k++) want(decode(k));        // before anything else happens in this process
    if (run.part == "two") {
        const int n = NS * ND * NV * NM * NP; uint64_t idx = 0;
        for (int a = 0; a < n; a++) { if (!run.mine(idx++)) continue; one(run, {a}, true); for (int b = 0; b < n && !run.full(); b++) { Step y = decode(b); if (!run.thorough() && (y.m == 0 || y.v == 4 || (y.p && y.v))) continue; one(run, {a, b}, b % 97 == 0); } }
        return;
    }
    if (run.part == "long") {
        std::vector<int> ops; std::set<int> sk = {0, 1, 2, 3, 4, 5}, dk = {0, 1, 3, 4};
        for (int s : sk) for (int d : dk) for (int v : {0, 1}) for (int m : {0, 2}) for (int p : {0, 1}) { if (!run.thorough() && ((v == 1 && m == 0) || (v == 1 && p == 1))) continue; ops.push_back(encode({s, d, v, m, p})); }
        uint64_t idx = 0;
        for (int a : ops) for (int b : ops) { if (!run.mine(idx++)) continue; for (int c : ops) one(run, {a, b, c}, false); }
        std::vector<int> few; for (int s : {0, 1, 2, 4, 5}) for (int d : {0, 1, 3}) for (int m : {2}) for (int p : {0, 1}) few.push_back(encode({s, d, 0, m, p}));
        if (run.thorough()) for (int a : few) for (int b : few) { if (!run.mine(idx++)) continue; for (int c : few) for (int d : few) one(run, {a, b, c, d}, false); }
        return;
    }
    uint64_t idx = 0;
    for (bool res : {false, true}) {
        if (run.mine(idx++)) { J c = J::obj({{"tour", J(run.thorough() ? 2000 : 400)}, {"results", J(res)}}); run.slot(0, c.str()); std::string m = tour(run, run.thorough() ? 2000 : 400, res); if (!m.empty()) run.violation(c, m); }
        for (int depth = 1; depth <= 3; depth++) for (int width = 1; width <= (depth == 3 ? 3 : 6); width++) for (bool fail : {false, true}) { if (!run.mine(idx++)) continue; J c = J::obj({{"nested", J(depth)}, {"width", J(width)}, {"fail", J(fail)}, {"results", J(res)}}); run.slot(0, c.str()); std::string m = nested(run, depth, width, fail, res); if (!m.empty()) run.violation(c, m); }
        for (int s = 0; s < NS; s++) for (int d = 0; d < ND; d++) for (int o = 0; o < ND; o++) { if (s == 5 || !run.mine(idx++)) continue; J c = J::obj({{"reenter", J::arr({J(s), J(d), J(o)})}, {"results", J(res)}}); run.slot(0, c.str()); std::string m = reenter(run, s, d, o, res); if (!m.empty()) run.violation(c, m); }
    }
}
