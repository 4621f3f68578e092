// C21: the k-th allocation of populating or validating fails, for every k.
#include "../lib/alloc.hpp"
#include "../lib/adlib.hpp"
#include "../lib/rich.hpp"
#include "../lib/harness.hpp"
#include <sys/wait.h>
using namespace valijson;
static SchemaParser::Version ver(int draft) { return draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7; }

// A user constraint and its builder, so that the paths that own foreign objects are covered too.
static long g_objs = 0;
struct Mark : constraints::PolyConstraint {
    std::string text; Mark(std::string t) : text(std::move(t)) { g_objs++; } Mark(const Mark &o) : constraints::PolyConstraint(o), text(o.text) { g_objs++; } ~Mark() override { g_objs--; }
    Constraint *cloneInto(void *p) const override { return new (p) Mark(*this); }
    size_t sizeOf() const override { return sizeof(Mark); }
    bool validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const override { if (!a.isString()) return true; if (r) r->pushError(path, text); return false; }
};
struct Builder : ConstraintBuilder { constraints::Constraint *make(const adapters::Adapter &a) const override { return new Mark("a text that does not fit a small string: " + a.asString()); } };

struct Kind { int pool; bool throws; };                 // pool -1: the global heap
struct Fx {                                             // one schema under one library
    int draft; fam::Rich r; const AdLib *lib; std::unique_ptr<Handle> h;
    std::vector<std::unique_ptr<Handle>> docs;
};
static std::unique_ptr<Schema> newSchema(const Kind &k) {
    if (k.pool < 0) return std::unique_ptr<Schema>(new Schema());
    led::pool[k.pool].throws = k.throws;
    return std::unique_ptr<Schema>(k.pool == 0 ? new Schema(&led::poolAlloc<0>, &led::poolFree<0>) : new Schema(&led::poolAlloc<1>, &led::poolFree<1>));
}
static void populate(const Fx &f, SchemaParser &p, Schema &s) { if (f.r.remote.empty()) f.h->populate(p, s); else f.h->populateRemote(p, s, f.r.remote); }
struct Out { std::string text; };
static std::string outcome(const Fx &f, const Schema &s) {
    std::string out;
    for (auto &d : f.docs) {
        Validator v; ValidationResults r;
        try { out += d->validate(v, s, &r) ? 'T' : 'F'; } catch (const std::exception &e) { out += 'X'; }
        for (auto &e : r) out += e.jsonPointer + "\n" + e.description + "\n";
    }
    return out;
}
static std::string ptext(int pool, long long k, bool sticky) { return "allocation " + std::to_string(k) + (sticky ? " and all later ones" : "") + (pool < 0 ? " of the global heap" : pool == 0 ? " of the malloc-like function" : " of the new-like function"); }

// One run with a failure at k. Returns "" or what went wrong; sets `hit` when the failure was reached.
static std::string popRun(Run &run, const Fx &f, const Kind &kd, int failPool, long long k, bool sticky, const std::string &want, bool &hit) {
    std::string msg; bool threw = false, bad = false; std::string ex;
    long objs0 = g_objs;
    run.c("runs")++;
    led::open();
    {
        SchemaParser p(ver(f.draft));
        p.addConstraintBuilder("x-mark", new Builder());
        std::unique_ptr<Schema> s;
        if (failPool < 0) led::arm(k, sticky); else { auto &q = led::pool[failPool]; q.seen = 0; q.failAt = k; q.sticky = sticky; q.failed = false; }
        try { s = newSchema(kd); populate(f, p, *s); }
        catch (const std::exception &e) { threw = true; led::Pause z; ex = e.what(); }
        catch (...) { threw = bad = true; }
        hit = failPool < 0 ? led::g.failed : led::pool[failPool].failed;
        if (threw && sticky) s.reset();                 // destruction must not need memory
        led::disarm(); for (auto &q : led::pool) q.failAt = -1;
        if (!threw) { led::Pause z; std::string now = outcome(f, *s); if (now != want) msg = "populating ended normally but the schema is another one"; }
        if (threw && !hit) { led::Pause z; msg = "threw without a failure: " + ex; }
        if (bad) { led::Pause z; msg = "threw something that is no std::exception"; }
        if (threw && s && msg.empty()) {                // the parser can be used again
            try { s = newSchema(kd); populate(f, p, *s); led::Pause z; if (outcome(f, *s) != want) msg = "the parser gives another schema afterwards"; }
            catch (const std::exception &e) { led::Pause z; msg = std::string("the parser cannot be used again: ") + e.what(); }
        }
        s.reset();
    }
    long live = led::close();
    if (!msg.empty()) return msg;
    if (live) return std::to_string(live) + " blocks leak" + (threw ? "" : " although populating succeeded");
    if (g_objs != objs0) return "constraint objects leak";
    for (auto &q : led::pool) if (q.live) { long n = q.live; q.live = 0; return std::to_string(n) + " blocks of the user's allocation function leak"; }
    return "";
}
static std::string valRun(Run &run, const Fx &f, const Schema &s, size_t doc, bool results, long long k, bool sticky, const std::string &want, bool &hit) {
    std::string msg, ex; bool threw = false, bad = false; int got = -1;
    run.c("runs")++;
    led::open();
    {
        Validator v;
        {
            ValidationResults r;
            led::arm(k, sticky);
            try { got = f.docs[doc]->validate(v, s, results ? &r : nullptr); } catch (const std::exception &e) { threw = true; led::Pause z; ex = e.what(); } catch (...) { threw = bad = true; }
            hit = led::g.failed;
            led::disarm();
        }
        led::Pause z;
        if (bad) msg = "threw something that is no std::exception";
        else if (threw && !hit && want[0] != 'X') msg = "threw without a failure: " + ex;
        else if (!threw && got != (want[0] == 'T')) msg = std::string("the verdict became ") + (got ? "valid" : "invalid");
        if (msg.empty()) {
            // the same validator, with memory again
            led::Pause *zz = &z; (void)zz;
            led::g.on = true;
            std::string now;
            {
                ValidationResults r;
                try { bool ok = f.docs[doc]->validate(v, s, &r); led::Pause y; now = ok ? "T" : "F"; } catch (const std::exception &) { led::Pause y; now = "X"; }
                led::Pause y; for (auto &e : r) now += e.jsonPointer + "\n" + e.description + "\n";
            }
            led::g.on = false;
            if (now != want) msg = "the validator gives another outcome afterwards";
        }
    }
    long live = led::close();
    if (!msg.empty()) return msg;
    if (live) return std::to_string(live) + " blocks leak";
    return "";
}
static J decorate(const J &s) { J r = s; if (r.t == J::Obj) r.set("x-mark", J("m")); return r; }
static std::unique_ptr<Fx> fixture(int draft, const fam::Rich &r, const AdLib &l) {
    if (!l.can(r.schema)) return nullptr;
    for (auto &d : r.remote) if (!l.can(d.second)) return nullptr;
    auto f = std::make_unique<Fx>(); f->draft = draft; f->r = r; f->lib = &l; f->h = l.build(r.schema);
    for (auto &d : fam::richDocs()) if (l.can(d)) f->docs.push_back(l.build(d));
    return f;
}
static Kind kinds[] = {{-1, false}, {0, false}, {1, true}};
static J remoteJ(const fam::Rich &r) { J rm = J::obj(); for (auto &d : r.remote) rm.set(d.first, d.second); return rm; }
static J caseJ(const Fx &f, int kind, int failPool, int doc, bool results, long long k, bool sticky) {
    return J::obj({{"draft", J(f.draft)}, {"lib", J(f.lib->name)}, {"kind", J(kind)}, {"failPool", J(failPool)}, {"doc", J(doc)}, {"results", J(results)}, {"k", J((long)k)}, {"sticky", J(sticky)}, {"schema", f.r.schema}, {"remote", remoteJ(f.r)}});
}
static std::string one(const Fx &f, const Schema &s, size_t d) {
    Validator v; ValidationResults r; std::string w;
    try { w = f.docs[d]->validate(v, s, &r) ? "T" : "F"; } catch (const std::exception &) { w = "X"; }
    for (auto &e : r) w += e.jsonPointer + "\n" + e.description + "\n";
    return w;
}
// First-use state (lazily built statics) under failure: each run in a child process of its own.
static std::string coldRun(Run &run, const Fx &f, size_t d, long long k, bool &hit) {
    run.c("runs")++; run.c("cold_runs")++;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        Schema s; SchemaParser p(ver(f.draft));
        led::open(); led::arm(k, false);
        bool h1;
        try { populate(f, p, s); } catch (const std::exception &) { Schema z; s = std::move(z); h1 = led::g.failed; led::disarm(); try { populate(f, p, s); } catch (...) { _exit(7); } if (!h1) _exit(8); }
        try { Validator v; ValidationResults r; f.docs[d]->validate(v, s, &r); } catch (const std::exception &) { if (!led::g.failed) _exit(6); }
        bool h = led::g.failed; led::disarm(); led::g.on = false;
        std::string now = one(f, s, d);
        // the expected outcome comes from a state in which nothing ever failed
        Schema s2; SchemaParser p2(ver(f.draft)); populate(f, p2, s2);
        if (one(f, s2, d) != now) _exit(5);
        _exit(h ? 42 : 43);
    }
    int st = 0; waitpid(pid, &st, 0); run.progress++;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 43)) { hit = WEXITSTATUS(st) == 42; return ""; }
    hit = true;
    if (WIFEXITED(st)) return "first use: " + std::string(WEXITSTATUS(st) == 7 ? "populating fails afterwards" : WEXITSTATUS(st) == 5 ? "outcomes differ afterwards" : "child ended with status ") + std::to_string(WEXITSTATUS(st));
    return "first use: child ended by signal " + std::to_string(WTERMSIG(st));
}
// Failures and counting are suspended while the harness itself works inside a callback.
static bool g_was[8]; static int g_depth = 0;
static void quiet(bool begin) { if (begin) { g_was[g_depth++] = led::g.on; led::g.on = false; } else led::g.on = g_was[--g_depth]; }
std::string replayCase(Run &run, const J &c) {
    harnessWork = quiet;
    fam::Rich r; r.schema = *c.get("schema"); for (auto &m : c.get("remote")->o) r.remote.emplace_back(m.first, m.second);
    auto f = fixture((int)c.get("draft")->i, r, adLib(c.get("lib")->s));
    int kind = (int)c.get("kind")->i, doc = (int)c.get("doc")->i; long long k = c.get("k")->i; bool hit = false, sticky = c.get("sticky")->b;
    if (run.part == "cold") return coldRun(run, *f, (size_t)doc, k, hit);
    Schema s; SchemaParser p(ver(f->draft)); p.addConstraintBuilder("x-mark", new Builder()); populate(*f, p, s);
    std::string want = outcome(*f, s);
    if (doc < 0) { std::string m = popRun(run, *f, kinds[kind], (int)c.get("failPool")->i, k, sticky, want, hit); return m.empty() ? "" : ptext((int)c.get("failPool")->i, k, sticky) + ": " + m; }
    std::string m = valRun(run, *f, s, (size_t)doc, c.get("results")->b, k, sticky, one(*f, s, (size_t)doc), hit);
    return m.empty() ? "" : ptext(-1, k, sticky) + ": " + m;
}
void explore(Run &run) {
    uint64_t idx = 0;
    harnessWork = quiet;
    bool cold = run.part == "cold";
    for (int draft : {3, 4, 7}) for (auto &r0 : fam::richSchemas(draft)) for (auto &l : adLibs()) {
        if (run.full() || (!cold && !run.mine(idx++))) continue;
        if (const char *e = getenv("VH_LIB")) if (l.name != e) continue;
        // destroying a value of this library allocates, which ends the program whatever valijson does
        if (l.name == "nlohmann" && !cold) continue;
        fam::Rich r = r0; r.schema = decorate(r.schema);
        if (cold) r = r0;
        auto f = fixture(draft, r, l);
        if (!f) { run.c("not_representable")++; continue; }
        if (cold) {
            // schemas that touch lazily built state; other documents do not reach it
            for (size_t d = 0; d < f->docs.size() && !run.full(); d++) {
                bool form = r.schema.get("format") != nullptr, pick = l.name == "rapidjson" && (form ? d >= 11 && d <= 14 : d % 9 == 0);
                if (!run.thorough()) pick = pick && draft == 7 && (form || d == 0);
                if (!pick || !run.mine(idx++)) continue;
                for (long long k = 0;; k++) {
                    bool hit = false; run.slot(0, caseJ(*f, 0, -1, (int)d, true, k, false).str());
                    std::string m = coldRun(run, *f, d, k, hit);
                    if (!m.empty()) { run.violation(caseJ(*f, 0, -1, (int)d, true, k, false), l.name + ": " + m); break; }
                    if (!hit) break;
                    run.c("fault_points")++;
                }
            }
            continue;
        }
        Schema s; SchemaParser p(ver(draft)); p.addConstraintBuilder("x-mark", new Builder());
        try { populate(*f, p, s); } catch (const std::exception &e) { if (l.typed) run.violation(caseJ(*f, 0, -1, -1, false, -1, false), l.name + ": schema rejected: " + e.what()); continue; }
        std::string want = outcome(*f, s);
        run.c("schemas")++;
        if (run.part == "populate") {
            struct M { int kd, fp; } modes[] = {{0, -1}, {1, -1}, {1, 0}, {2, -1}, {2, 1}};
            bool full = run.thorough() || l.name == "rapidjson" || l.name == "boost_json";
            for (auto &m0 : modes) for (bool sticky : {false, true}) for (long long k = 0; !run.full(); k++) {
                if (!full && (sticky || m0.fp < 0) && m0.kd) break;
                bool hit = false; J c = caseJ(*f, m0.kd, m0.fp, -1, false, k, sticky); run.slot(0, c.str());
                std::string m = popRun(run, *f, kinds[m0.kd], m0.fp, k, sticky, want, hit);
                if (!m.empty()) { run.violation(c, l.name + ", " + ptext(m0.fp, k, sticky) + ": " + m); break; }
                if (!hit) { if (idx % 37 == 0) run.sample(c); break; }
                run.c("fault_points")++;
            }
            continue;
        }
        for (size_t d = 0; d < f->docs.size(); d++) for (bool res : {false, true}) for (bool sticky : {false, true}) {
            if (!run.thorough() && l.name != "rapidjson" && (sticky || !res)) continue;
            std::string w = one(*f, s, d);
            for (long long k = 0; !run.full(); k++) {
                bool hit = false; J c = caseJ(*f, 0, -1, (int)d, res, k, sticky); run.slot(0, c.str());
                std::string m = valRun(run, *f, s, d, res, k, sticky, w, hit);
                if (!m.empty()) { run.violation(c, l.name + ", " + ptext(-1, k, sticky) + " validating " + f->docs[d]->native().str() + ": " + m); break; }
                if (!hit) break;
                run.c("fault_points")++;
            }
        }
    }
}
