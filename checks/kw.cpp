// C01-C04: verdict of every (schema, instance) pair of a family against the
// reference evaluator. C08: the same pairs, with/without results, strict/weak.
#include "../lib/rj.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/ladder.hpp"
#include "../lib/harness.hpp"
#include "../lib/errjudge.hpp"

using namespace valijson;

struct Outcome { int v = -1; size_t errs = 0; std::string ex; };  // v: 0/1, -1 exception

static Outcome runOne(const Schema &s, const rapidjson::Value &inst, bool strong, bool collect) {
    Outcome o;
    Validator val(strong ? Validator::kStrongTypes : Validator::kWeakTypes);
    ValidationResults res;
    rj::Adapter ad(inst);
    try { o.v = val.validate(s, ad, collect ? &res : nullptr); }
    catch (const std::exception &e) { o.ex = e.what(); }
    o.errs = res.numErrors();
    return o;
}
static std::string show(const Outcome &o) { return o.v < 0 ? "threw " + o.ex : o.v ? "valid" : "invalid"; }

static std::string judgeErrors(int draft, const J &schema, const J &inst, const Schema &s, const rapidjson::Value &iv) {
    ref::Eval ev(draft); ref::Sites st; ref::Path p;
    if (ev.ev(schema, inst, p, &st, true)) return "";       // C08 decides the valid ones
    Validator val; ValidationResults res; rj::Adapter ad(iv);
    try { val.validate(s, ad, &res); } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
    return ej::judge(st, inst, res);
}
static std::string judge(const std::string &prop, int draft, const J &schema, const J &inst, const Schema &s, const rapidjson::Value &iv, int want) {
    if (prop == "C09") return want ? "" : judgeErrors(draft, schema, inst, s, iv);
    if (prop != "C08") {
        Outcome o = runOne(s, iv, true, false);
        if (o.v != want) return "draft " + std::to_string(draft) + ": library says " + show(o) + ", the draft says " + (want ? "valid" : "invalid");
        return "";
    }
    (void)schema; (void)inst;
    for (bool strong : {true, false}) {
        Outcome a = runOne(s, iv, strong, false), b = runOne(s, iv, strong, true);
        std::string m = strong ? "strict types: " : "weak types: ";
        if (a.v != b.v) return m + "without results " + show(a) + ", with results " + show(b);
        if (b.v == 0 && b.errs == 0) return m + "invalid but no error reported";
        if (b.v == 1 && b.errs != 0) return m + "valid but " + std::to_string(b.errs) + " error(s) reported";
    }
    return "";
}

std::string replayCase(Run &run, const J &c) {
    int draft = (int)c.get("draft")->i;
    const J &schema = *c.get("schema"), &inst = *c.get("instance");
    rapidjson::Document sd, id; rj::doc(sd, schema); rj::doc(id, inst);
    Schema s; SchemaParser p(rj::ver(draft));
    try { p.populateSchema(rj::Adapter(sd), s); } catch (const std::exception &e) { return std::string("schema rejected: ") + e.what(); }
    ref::Eval ev(draft);
    return judge(run.prop, draft, schema, inst, s, id, ev.valid(schema, inst));
}

typedef std::vector<std::unique_ptr<rapidjson::Document>> Docs;
static void hold(const std::vector<J> &l, Docs &docs, std::vector<std::string> &text) {
    for (auto &i : l) { auto d = std::make_unique<rapidjson::Document>(); rj::doc(*d, i); docs.push_back(std::move(d)); text.push_back(i.str()); }
}
static void oneSchema(Run &run, const std::string &fn, int draft, const J &schema, const std::vector<J> &instances, const Docs &docs, const std::vector<std::string> &text, uint64_t idx) {
    std::string st = schema.str();
    run.slot(0, "{\"draft\":" + std::to_string(draft) + ",\"schema\":" + st);
    run.c("schemas")++;
    run.slot(1, ",\"instance\":null}");
    rapidjson::Document sd; rj::doc(sd, schema);
    Schema s; SchemaParser p(rj::ver(draft));
    try { p.populateSchema(rj::Adapter(sd), s); }
    catch (const std::exception &e) {
        run.violation(J::obj({{"draft", J(draft)}, {"schema", schema}, {"instance", J()}}), std::string("schema rejected: ") + e.what());
        return;
    }
    ref::Eval ev(draft);
    uint64_t sig = 0; int nv = 0;
    for (size_t k = 0; k < instances.size() && !run.full(); k++) {
        run.slot(1, ",\"instance\":" + text[k] + "}");
        int want = ev.valid(schema, instances[k]);
        nv += want;
        run.c("pairs")++;
        run.c(want ? "pairs_valid" : "pairs_invalid")++;
        std::string m = judge(run.prop, draft, schema, instances[k], s, *docs[k], want);
        sig = sig * 3 + want + 1;
        if (!m.empty()) run.violation(J::obj({{"draft", J(draft)}, {"schema", schema}, {"instance", instances[k]}}), m);
    }
    if (nv && nv != (int)instances.size()) run.c("schemas_with_both_verdicts")++;
    run.distinct["outcomes"].insert(Run::hash(fn + std::to_string(draft) + ":" + std::to_string(sig)));
    run.c("model_steps") += ev.steps;
    if (idx % 977 == 5 && st.size() < 2000) run.sample(J::obj({{"draft", J(draft)}, {"schema", schema}, {"instance", instances[idx % instances.size()]},
        {"model_verdict", J(ev.valid(schema, instances[idx % instances.size()]))}}));
}

void explore(Run &run) {
    // part: family names joined by '+'; all drafts
    std::vector<std::string> fams;
    { std::stringstream ss(run.part); std::string x; while (std::getline(ss, x, '+')) fams.push_back(x); }
    for (auto &fn : fams) for (int draft : {3, 4, 7}) {
        uint64_t idx = 0;
        if (fam::ladder(fn, draft, run.thorough(), [&](const std::function<fam::Group()> &make) {
            if (!run.mine(idx++) || run.full()) return;
            fam::Group gr = make(); Docs docs; std::vector<std::string> text; hold(gr.instances, docs, text); run.c("groups")++;
            for (auto &s : gr.schemas) if (!run.full()) oneSchema(run, fn, draft, s, gr.instances, docs, text, idx);
        })) continue;
        fam::Family f = fam::make(fn, draft, run.thorough());
        Docs docs; std::vector<std::string> text; hold(f.instances, docs, text);
        std::set<uint64_t> seen;
        f.schemas([&](const J &schema) {
            if (!run.mine(idx++) || run.full()) return;
            if (!seen.insert(Run::hash(schema.str())).second) { run.c("duplicate_schemas_skipped")++; return; }
            oneSchema(run, fn, draft, schema, f.instances, docs, text, idx);
        });
    }
}
