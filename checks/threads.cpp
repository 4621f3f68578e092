// C19: threads that validate against one schema, or use the library for the
// first time, under a controlled scheduler.
//  sync:    every interleaving of shared synchronisation operations up to a
//           preemption bound, with happens-before race detection (without
//           races these are all the interleavings that can be told apart)
//  entries: preemption at every function entry of the library
#include "../lib/rj.hpp"
#include "../lib/adlib.hpp"
#include "../lib/harness.hpp"
#include "../lib/rich.hpp"
#include "../lib/sched/sched.hpp"
#include <locale>
#include <memory>
#include <sys/wait.h>
using namespace valijson; using fam::O; using fam::A;
struct Case { std::string kind, lib, mode; J schema; std::vector<J> docs; int bound; long cap; };
static J toJson(const Case &c) {
    J d = J::arr(); for (auto &x : c.docs) d.push(x);
    return J::obj({{"kind", J(c.kind)}, {"lib", J(c.lib)}, {"mode", J(c.mode)}, {"schema", c.schema}, {"docs", d}, {"bound", J(c.bound)}, {"cap", J(c.cap)}});
}
static Case fromJson(const J &j) { return {j.get("kind")->s, j.get("lib")->s, j.get("mode")->s, *j.get("schema"), j.get("docs")->a, (int)j.get("bound")->i, (long)j.get("cap")->i}; }
static std::string text(int v, const std::string &ex, const ValidationResults &r) {
    std::string o = v < 0 ? "throws " + ex : v ? "valid" : "invalid";
    for (auto &e : r) { o += "\n" + e.jsonPointer + " " + e.description; for (auto &c : e.context) o += " " + c; }
    return o;
}
// What one thread does.
static std::string validateOne(const Schema &s, const Handle &h, bool weak) {
    Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes); std::string out;
    for (int results = 0; results < 2; results++) {
        ValidationResults r; int x = -1; std::string ex;
        try { x = h.validate(v, s, results ? &r : nullptr); } catch (const std::exception &e) { ex = e.what(); }
        out += text(x, ex, r) + "\n";
    }
    return out;
}
static std::string populateOne(const Handle &schema, const Handle &h) {
    try { Schema s; SchemaParser p(SchemaParser::kDraft7); schema.populate(p, s); return validateOne(s, h, false); } catch (const std::exception &e) { return std::string("throws ") + e.what(); }
}
struct Tally { int done; long schedules, points, decisions, entries, accesses, pruned, syncs, schemaWrites, capped, stalls; char err[4096]; };
// Runs in a process of its own, in which the library has not been used before.
static sch::Shared *sh;
static void runCase(const Case &c, Tally &t) {
    const AdLib &lib = adLib(c.lib); bool weak = !lib.typed; size_t n = c.docs.size();
    std::vector<std::unique_ptr<Handle>> docs, schemas; Schema shared;
    auto fail = [&](const std::string &m) { if (!t.err[0]) snprintf(t.err, sizeof t.err, "%s", m.c_str()); };
    for (auto &d : c.docs) docs.push_back(lib.build(d));
    if (c.kind == "validate") {
        rapidjson::Document d; rj::doc(d, c.schema); SchemaParser p(SchemaParser::kDraft7);
        sch::protectBegin();
        try { p.populateSchema(rj::Adapter(d), shared); } catch (const std::exception &e) { sch::protectEnd(); fail(std::string("the schema is refused: ") + e.what()); return; }
        sch::protectEnd();
    } else for (size_t k = 0; k < n; k++) schemas.push_back(lib.build(c.schema));
    std::vector<sch::Job> jobs;
    for (size_t k = 0; k < n; k++) {
        Handle *h = docs[k].get(), *s = c.kind == "validate" ? nullptr : schemas[k].get();
        if (c.kind == "validate") jobs.push_back([&shared, h, weak] { return validateOne(shared, *h, weak); });
        else jobs.push_back([s, h] { return populateOne(*s, *h); });
    }
    std::vector<std::string> want;
    for (size_t k = 0; k < n; k++) {
        bool st; sch::Options o; o.races = false; std::string e = sch::execute({jobs[k]}, {}, o, *sh, st);
        if (st || !e.empty()) { fail("a thread of its own: " + (st ? "does not finish" : e)); return; }
        want.push_back(std::string(sh->out[0], (size_t)sh->outLen[0]));
    }
    bool entries = c.mode == "entries";
    std::vector<uint64_t> shared0; std::set<uint64_t> sharedSet; std::map<uint64_t, int> masks;
    bool again = true;
    for (int round = 0; again && round < 6; round++) {
        again = false;
        std::vector<sch::Plan> stack{{}}; long ran = 0; std::set<std::vector<std::pair<int, int>>> seen;
        while (!stack.empty()) {
            sch::Plan p = stack.back(); stack.pop_back();
            if (ran >= c.cap) { t.capped++; break; }
            sch::Options o; o.races = !entries; o.entries = entries; o.syncShared = &shared0; bool st; sh->nDec = 0;
            std::string e = sch::execute(jobs, p, o, *sh, st); ran++; t.schedules++; t.done++;
            t.points += sh->points; t.decisions += sh->nDec; t.entries += sh->entries; t.accesses += sh->accesses; t.schemaWrites += sh->schemaWrites; if (sh->overflow) t.capped++;
            auto where = [&] { std::string w = " [schedule:"; for (auto &x : p.at) w += " " + std::to_string(x.first) + ">" + std::to_string(x.second); return w + "]"; };
            if (st) { if (t.stalls++ > 3) return; continue; }
            if (!e.empty()) { fail(e + where()); return; }
            for (size_t k = 0; k < n; k++) { std::string got(sh->out[k], (size_t)sh->outLen[k]); if (got != want[k]) { fail("thread " + std::to_string(k) + ": " + got + " instead of " + want[k] + where()); return; } }
            for (int k = 0; k < sh->nSync; k++) { int &m = masks[sh->sync[k]]; m |= sh->syncMask[k]; if ((m & 0x80) && ((m & 7) & ((m & 7) - 1)) && sharedSet.insert(sh->sync[k]).second) { shared0.push_back(sh->sync[k]); again = true; } }
            if (again && !entries) { if (p.at.size() >= n) break; }
            int after = p.at.empty() ? -1 : p.at.back().first;
            for (int i = after + 1; i < sh->nDec; i++) {
                auto &d = sh->dec[i];
                for (int q = 0; q < (int)n; q++) if (q != d.chosen && (d.enabled >> q & 1)) {
                    int cost = d.preempts - (d.current >= 0 && d.chosen != d.current) + (d.current >= 0 && q != d.current);
                    if (cost > c.bound) { t.pruned++; continue; }
                    sch::Plan np = p; np.at.push_back({i, q}); stack.push_back(np);
                }
            }
        }
        t.syncs = (long)shared0.size();
    }
}
static std::string oneCase(Run &run, const Case &c) {
    static Tally *t = nullptr; if (!t) t = (Tally *)mmap(nullptr, sizeof(Tally), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(t, 0, sizeof *t); if (!sh) sh = sch::newShared();
    pid_t pid = fork();
    if (!pid) { signal(SIGALRM, SIG_DFL); struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr); runCase(c, *t); _exit(0); }
    int st, last = 0; long idle = 0;
    for (;;) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; struct timespec ts = {0, 1000000}; nanosleep(&ts, nullptr); if (t->done != last) { last = t->done; run.progress++; idle = 0; } else if (++idle > 1000 && idle < 150000 && idle % 500 == 0) run.progress++; }
    auto a = [&](const char *n, long v) { run.c(n) += (uint64_t)v; };
    a("schedules", t->schedules); a("scheduling_points", t->points); a("transitions", t->decisions); a("function_entries", t->entries); a("memory_accesses", t->accesses);
    a("beyond_bound", t->pruned); a("shared_sync_variables", t->syncs); a("writes_to_schema_memory", t->schemaWrites); a("cases_capped", t->capped); a("stalls", t->stalls); a("cases", 1);
    if (t->err[0]) return t->err;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the process of the case ended unexpectedly (" + std::to_string(st) + ")";
    return "";
}
static const char *kSchemas[] = {                                       // every constraint, every format, references, patterns
    R"({"format":"date"})", R"({"format":"time"})", R"({"format":"date-time"})", R"({"format":"ipv4"})",
    R"({"pattern":"^a[b-z]*$","maxLength":3})", R"({"properties":{"a":{"pattern":"^a"}},"patternProperties":{"^x":{"type":"string"},"y$":{"minimum":3}},"additionalProperties":false})",
    R"({"propertyNames":{"pattern":"^[ab]$"},"dependencies":{"a":["b"]},"required":["a"],"minProperties":1,"maxProperties":2})",
    R"({"anyOf":[{"format":"date"},{"type":"integer"},{"properties":{"next":{"$ref":"#"}},"additionalProperties":false}],"not":{"const":1}})",
    R"({"items":{"oneOf":[{"enum":["a",1]},{"type":"object"}]},"uniqueItems":true,"contains":{"const":"a"},"maxItems":3})"};
void explore(Run &run) {
    sch::exclude(&std::use_facet<std::ctype<char>>(std::locale::classic()), sizeof(std::ctype<char>));   // libstdc++'s own table of narrowed characters
    uint64_t idx = 0; auto docs = fam::richDocs();
    auto go = [&](Case c) {
        if (!run.mine(idx++) || run.full()) return;
        run.slot(0, toJson(c).str()); run.slot(1, "");
        std::string m = oneCase(run, c); run.c("states")++;
        run.sample(toJson(c));
        if (!m.empty()) run.violation(toJson(c), m);
    };
    std::vector<J> schemas; for (auto s : kSchemas) schemas.push_back(J::parse(s));
    bool T = run.thorough();
    J strs = A({J("2024-02-29"), J("12:00:00Z"), J("2024-02-29T00:00:00Z"), J("1.2.3.4"), J("ab"), J("b")});
    if (run.part == "sync") {
        for (auto &s : schemas) for (size_t i = 0; i < strs.a.size(); i++) for (size_t k = i; k < strs.a.size(); k++) if (T || k == i || (i + k) % 4 == 1) go({"validate", "rapidjson", "sync", s, {strs.a[i], strs.a[k]}, 2, 4000});
        size_t q = 0;
        for (auto &r : fam::richSchemas(7)) if (r.remote.empty()) for (size_t i = 0; i < docs.size(); i++) for (size_t k : {i, (i + 3) % docs.size()}) if (T || q++ % 4 == 0) go({"validate", "rapidjson", "sync", r.schema, {docs[i], docs[k]}, 2, 4000});
        for (auto &s : schemas) go({"validate", "rapidjson", "sync", s, {strs.a[0], strs.a[4], strs.a[2]}, T ? 3 : 2, 4000});
    } else if (run.part == "libs") {
        std::vector<J> ds = {A({J("a"), J("a")}), O({{"a", J("ab")}, {"x1", J(1)}}), J("2024-02-29"), J(1), J(), J::obj(), J::arr(), J("")};
        for (auto &l : adLibs()) for (size_t si = 3; si < schemas.size(); si++) for (size_t i = 0; i < ds.size(); i++) for (size_t k : {i, (i + 1) % ds.size()}) {
            if (!l.can(ds[i]) || !l.can(ds[k])) continue;
            go({"validate", l.name, "sync", schemas[si], {ds[i], ds[k]}, T ? 2 : 1, 2000});
        }
    } else if (run.part == "populate") {
        std::vector<J> ss = schemas;
        for (auto t : {R"({"$id":"http://h/r.json","items":{"$ref":"#d"},"definitions":{"d":{"$id":"#d","type":"integer"}}})", R"({"$ref":"#/definitions/a~1b","definitions":{"a/b":{"format":"date"}}})", R"({"$id":"urn:x","properties":{"a":{"$ref":"urn:y"}},"definitions":{"y":{"$id":"urn:y"}}})"}) ss.push_back(J::parse(t));
        for (auto &r : fam::richSchemas(7)) if (r.remote.empty()) ss.push_back(r.schema);
        for (auto &l : adLibs()) for (auto &s : ss) {
            J d = J("ab"); if (!l.can(s) || !l.can(d)) continue;
            go({"populate", l.name, "sync", s, {d, d}, T ? 2 : 1, T ? 4000 : 300});
        }
    } else if (run.part == "entries") {
        std::vector<J> ds = {J("2024-02-29"), J("ab"), O({{"a", J("ab")}, {"x1", J(1)}}), A({J("a"), O({})})};
        for (auto &s : schemas) for (auto &a : ds) for (auto &b : ds) go({"validate", "rapidjson", "entries", s, {a, b}, T ? 2 : 1, T ? 20000 : 4000});
        for (auto &s : schemas) go({"validate", "rapidjson", "entries", s, {ds[0], ds[1], ds[2]}, 1, T ? 8000 : 1200});
        if (T) for (auto &s : schemas) go({"populate", "rapidjson", "entries", s, {ds[0], ds[1]}, 1, 8000});
    }
}
std::string replayCase(Run &run, const J &j) {
    sch::exclude(&std::use_facet<std::ctype<char>>(std::locale::classic()), sizeof(std::ctype<char>));
    return oneCase(run, fromJson(j));
}
