// C26: every build configuration gives the outcome of the plain one on every
// schema and document of the bounded families.
#include "../lib/cfg/unit.hpp"
#include "../lib/rich.hpp"
#include "../lib/patterns.hpp"
#include "../lib/harness.hpp"
std::vector<CfgUnit> &cfgUnits() { static std::vector<CfgUnit> l; return l; }
void noexcDocs(const std::vector<std::string> &l);
std::vector<std::string> noexcRun(int draft, const std::string &schema, bool weak);
static void addNoexc() {
    CfgUnit u; u.lib = "rapidjson"; u.config = "no exceptions in the compiler"; u.can = [](const J &) { return true; };
    u.setDocs = [](const std::vector<J> &l) { std::vector<std::string> t; for (auto &j : l) t.push_back(j.str()); noexcDocs(t); };
    u.run = [](int draft, const J &schema, const std::vector<std::pair<std::string, J>> &, bool weak) { return noexcRun(draft, schema.str(), weak); };
    cfgUnits().push_back(u);
}
static const CfgUnit &base(const std::string &lib) { for (auto &u : cfgUnits()) if (u.lib == lib && u.config == "headers") return u; throw std::runtime_error("no base for " + lib); }
static std::string weakText(bool w) { return w ? " (weak types)" : ""; }
static const std::vector<J> *g_docs = nullptr;
static std::string one(Run &run, int draft, const fam::Rich &r, bool weak, const CfgUnit &u, const std::vector<std::string> &want, size_t only = (size_t)-1) {
    std::vector<std::string> got = u.run(draft, r.schema, r.remote, weak);
    for (size_t k = 0; k < got.size(); k++) {
        if (only != (size_t)-1 && k != only) continue;
        run.c("comparisons")++;
        if (got[k] != want[k]) return u.lib + ", " + u.config + weakText(weak) + ": document " + (*g_docs)[k].str() + " gives [" + got[k] + "], with separate headers and defaults [" + want[k] + "]";
    }
    return "";
}
static J remoteJ(const fam::Rich &r) { J o = J::obj(); for (auto &d : r.remote) o.set(d.first, d.second); return o; }
static void compare(Run &run, int draft, const fam::Rich &r, const std::string &lib, bool weak) {
    const CfgUnit &b = base(lib); if (!b.can(r.schema)) return;
    for (auto &d : r.remote) if (!b.can(d.second)) return;
    J c = J::obj({{"draft", J(draft)}, {"schema", r.schema}, {"remote", remoteJ(r)}, {"lib", J(lib)}, {"weak", J(weak)}, {"part", J(run.part)}}); run.slot(0, c.str()); run.slot(1, "");
    std::vector<std::string> want = b.run(draft, r.schema, r.remote, weak); run.c("schemas")++;
    std::string all; for (auto &w : want) all += w + "\n"; run.distinct["outcomes"].insert(Run::hash(all));
    for (auto &u : cfgUnits()) {
        if (u.lib != lib || &u == &b || run.full() || (!r.remote.empty() && u.config == "no exceptions in the compiler")) continue;
        run.c("configured_schemas")++;
        std::string m = one(run, draft, r, weak, u, want); if (!m.empty()) { c.set("config", J(u.config)); run.violation(c, m); }
    }
}
static std::vector<J> docsFor(const std::string &part, int draft, bool deep) {
    if (part == "formfeed") return {J("\f"), J("a\fa")};
    if (part == "patterns") { auto l = fam::patternDocs(deep); size_t n = l.size(); for (size_t k = 0; k < n; k += 3) l.push_back(J::obj({{l[k].s, J(1)}, {"zz", J("z")}})); return l; }
    if (part == "rich") { auto d = fam::richDocs(); for (const char *s : {"1", "2.5", "-0", "1e2", "true", "null", " 1", "0x10", "99999999999999999999", ""}) d.push_back(J(s)); return d; }
    return fam::make(part, draft, deep).instances;
}
static void all(Run &run, const std::function<bool(int, const std::string &)> &f) {    // sets the documents of every unit
    for (int draft : {3, 4, 7}) { static std::vector<J> docs; docs = docsFor(run.part, draft, run.thorough()); g_docs = &docs; for (auto &u : cfgUnits()) u.setDocs(docs); if (!f(draft, run.part)) return; }
}
void explore(Run &run) {
    addNoexc(); uint64_t idx = 0;
    all(run, [&](int draft, const std::string &part) {
        if (part == "rich") {
            auto rs = fam::richSchemas(draft);
            // fewer decimal digits, signs and exponents in texts: what the number parsers differ in
            for (const char *t : {R"({"minimum":0.1,"maximum":1e2})", R"({"type":["number","null"],"multipleOf":0.1})", R"({"enum":[1,"1",2.5,true,null,"x"]})", R"({"minimum":-5,"exclusiveMaximum":true,"maximum":100})", R"({"patternProperties":{"^(a|b)+$":{"type":"integer"},"\\d":{"type":"string"}},"additionalProperties":{"pattern":"^[^x]{1,3}$|\\.$"}})"}) if (draft != 7 || !strstr(t, "exclusive")) { fam::Rich r; r.schema = J::parse(t); if (draft == 3 && r.schema.get("multipleOf")) continue; rs.push_back(r); }
            std::set<std::string> libs; for (auto &u : cfgUnits()) libs.insert(u.lib);
            for (auto &l : libs) for (auto &r : rs) for (bool weak : {false, true}) if (run.mine(idx++) && !run.full()) { compare(run, draft, r, l, weak); run.sample(r.schema); }
        } else if (part == "patterns" || part == "formfeed") {
            if (draft == 3) return true;
            if (part == "formfeed" && draft == 4) return true;
            for (auto &p : part == "formfeed" ? std::vector<std::string>{".", "[^a]", "^a\\sa$", "a\\Wa", "^a", "a$"} : fam::patterns(run.thorough())) { if (!run.mine(idx++) || run.full()) continue; fam::Rich r; r.schema = draft == 4 ? J::obj({{"patternProperties", J::obj({{p, J::obj({{"type", J("string")}})}})}, {"additionalProperties", J::obj({{"type", J("integer")}})}}) : J::obj({{"pattern", J(p)}}); compare(run, draft, r, "rapidjson", false); if (idx % 997 == 7) run.sample(r.schema); }
        } else {
            std::set<uint64_t> seen;
            fam::make(part, draft, run.thorough()).schemas([&](const J &s) {
                if (run.full()) return; if (!run.mine(idx++) || !seen.insert(Run::hash(s.str())).second) return;
                if (!run.thorough() && (idx / 8) % 3 != 0) return;           // a third of the family on every change
                fam::Rich r; r.schema = s; compare(run, draft, r, "rapidjson", idx / 8 % 2); if (idx % 4999 == 7) run.sample(s);
            });
        }
        return !run.full();
    });
}
std::string replayCase(Run &run, const J &j) {
    addNoexc(); run.part = j.get("part")->s; std::string m; fam::Rich r; r.schema = *j.get("schema"); for (auto &x : j.get("remote")->o) r.remote.push_back(x);
    all(run, [&](int draft, const std::string &) {
        if (draft != (int)j.get("draft")->i) return true;
        std::string lib = j.get("lib")->s; bool weak = j.get("weak")->b; auto want = base(lib).run(draft, r.schema, r.remote, weak);
        for (auto &u : cfgUnits()) if (u.lib == lib && u.config != "headers" && m.empty() && (!j.get("config") || j.get("config")->s == u.config)) m = one(run, draft, r, weak, u, want);
        return false;
    });
    return m;
}
