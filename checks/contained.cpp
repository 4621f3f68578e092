// C23: a populated schema keeps nothing of what it was built from. Every
// history of overwriting and destroying the sources, for every adapter as the
// schema's library, under AddressSanitizer.
#include "../lib/adlib.hpp"
#include "../lib/rich.hpp"
#include "../lib/harness.hpp"
using namespace valijson;

static SchemaParser::Version ver(int draft) { return draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7; }
static std::vector<J> g_docs;
static std::vector<std::unique_ptr<Handle>> &docHandles() {
    static std::vector<std::unique_ptr<Handle>> h;
    if (h.empty()) for (auto &d : g_docs) h.push_back(adLib("rapidjson").build(d));
    return h;
}
static std::string outcome(Run &run, const Schema &s, bool weak) {
    std::string out;
    for (auto &h : docHandles()) {
        Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes); ValidationResults r;
        run.progress++; run.c("validations")++;
        try { out += h->validate(v, s, &r) ? "T" : "F"; } catch (const std::exception &e) { out += std::string("X") + e.what(); }
        for (auto &e : r) { out += "\n  " + e.jsonPointer + " " + e.description; }
        out += '\n';
    }
    return out;
}
// ops: P destroy the parser, M overwrite the source document, D destroy it, O populate another schema from another document with the same parser
static const std::vector<std::string> &histories() {
    static std::vector<std::string> h;
    if (h.empty()) {
        // every sequence of distinct operations; M only before D, O only before P
        std::string ops = "PMDO";
        std::function<void(std::string)> rec = [&](std::string s) {
            if (!s.empty()) h.push_back(s);
            for (char c : ops) {
                if (s.find(c) != std::string::npos) continue;
                if (c == 'M' && s.find('D') != std::string::npos) continue;
                if (c == 'O' && s.find('P') != std::string::npos) continue;
                rec(s + c);
            }
        };
        rec("");
    }
    return h;
}
static J withNames(const J &s) { J r = s; if (r.t == J::Obj) { r.set("x-note", J("n")); r.set("default", J::arr({J(1)})); } return r; }

// Returns "" or what changed. `want` caches the outcome right after population from an undisturbed document.
static std::string history(Run &run, int draft, const fam::Rich &rs, const AdLib &l, const std::string &ops, bool weak, const std::string *want) {
    auto h = l.build(withNames(rs.schema));
    std::unique_ptr<SchemaParser> p(new SchemaParser(ver(draft)));
    std::unique_ptr<Schema> s(new Schema), other;
    auto remote = std::unique_ptr<std::vector<std::pair<std::string, J>>>(new std::vector<std::pair<std::string, J>>(rs.remote));
    if (rs.remote.empty()) h->populate(*p, *s); else h->populateRemote(*p, *s, *remote);
    remote.reset();
    std::string before = want ? *want : outcome(run, *s, weak);
    std::string done;
    for (char op : ops) {
        done += op;
        run.c("operations")++;
        if (op == 'P') p.reset();
        else if (op == 'M') h->scramble();
        else if (op == 'D') h.reset();
        else {
            auto x = l.build(fam::O({{"properties", fam::O({{"a", J::obj({{"minimum", J(99)}})}})}, {"definitions", fam::O({{"a/b", J::obj({{"type", J("null")}})}})}, {"items", fam::O({{"$ref", J("#/definitions/a~1b")}})}}));
            other.reset(new Schema); x->populate(*p, *other);
        }
        std::string now = outcome(run, *s, weak);
        if (now != before) return l.name + ": outcome changed after " + done + ": was " + before + " now " + now;
    }
    return "";
}
static bool usable(const AdLib &l, const fam::Rich &r) {
    if (!l.can(withNames(r.schema))) return false;
    for (auto &d : r.remote) if (!l.can(d.second)) return false;
    return true;
}
std::string replayCase(Run &run, const J &c) {
    g_docs = fam::richDocs();
    fam::Rich r; r.schema = *c.get("schema");
    for (auto &m : c.get("remote")->o) r.remote.emplace_back(m.first, m.second);
    try { return history(run, (int)c.get("draft")->i, r, adLib(c.get("lib")->s), c.get("ops")->s, c.get("weak")->b, nullptr); }
    catch (const std::exception &e) { return std::string("threw ") + e.what(); }
}
void explore(Run &run) {
    g_docs = fam::richDocs();
    uint64_t idx = 0;
    for (int draft : {3, 4, 7}) for (auto &r : fam::richSchemas(draft)) for (auto &l : adLibs()) for (bool weak : {false, true}) {
        if (!run.mine(idx++) || run.full()) continue;
        if (!usable(l, r)) { run.c("not_representable")++; continue; }
        J rm = J::obj(); for (auto &d : r.remote) rm.set(d.first, d.second);
        auto cs = [&](const std::string &ops) { return J::obj({{"draft", J(draft)}, {"lib", J(l.name)}, {"weak", J(weak)}, {"ops", J(ops)}, {"schema", r.schema}, {"remote", rm}}); };
        run.slot(0, cs("").str());
        std::string want;
        try {
            auto h = l.build(withNames(r.schema)); SchemaParser p(ver(draft)); Schema s;
            if (r.remote.empty()) h->populate(p, s); else h->populateRemote(p, s, r.remote);
            want = outcome(run, s, weak);
        } catch (const std::exception &e) {
            if (l.typed) run.violation(cs(""), l.name + ": schema rejected: " + e.what()); else run.c("text_schemas_refused")++;
            continue;
        }
        run.c("schemas")++;
        for (auto &o : histories()) {
            if (run.full()) break;
            J c = cs(o); run.slot(0, c.str());
            run.c("histories")++;
            run.distinct["history_states"].insert(Run::hash(c.str()));
            std::string m;
            try { m = history(run, draft, r, l, o, weak, &want); } catch (const std::exception &e) { m = std::string("threw ") + e.what(); }
            if (!m.empty()) run.violation(c, m);
            if (idx % 211 == 3 && o == "MPD") run.sample(c);
        }
    }
}
