// Compiled once per configuration. The command line renames the namespaces and
// the harness types, so that the configurations can live in one program.
#include "unit.hpp"
#include CFG_AD
std::vector<AdLib> &adLibs() { static std::vector<AdLib> l; return l; }
namespace {
std::vector<std::unique_ptr<Handle>> docs;
std::vector<std::string> runUnit(int draft, const J &schema, const std::vector<std::pair<std::string, J>> &remote, bool weak) {
    using namespace valijson;
    AdLib &l = adLibs()[0]; auto h = l.build(schema); Schema s;
    SchemaParser p(draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7);
    if (remote.empty()) h->populate(p, s); else h->populateRemote(p, s, remote);
    std::vector<std::string> out; Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes);
    for (auto &d : docs) {
        if (!d) { out.push_back(""); continue; }
        std::string o = d->validate(v, s, nullptr) ? "valid" : "invalid"; ValidationResults r;
        o += d->validate(v, s, &r) ? " valid" : " invalid";
        for (auto &e : r) { o += "\n" + e.jsonPointer + " "; for (auto &c : e.context) o += c; o += " " + e.description; }
        out.push_back(o);
    }
    return out;
}
CfgUnit mkUnit() {
    CfgUnit u; u.lib = adLibs()[0].name; u.config = CFG_NAME; u.can = adLibs()[0].can; u.run = runUnit;
    u.setDocs = [](const std::vector<J> &l) { docs.clear(); for (auto &j : l) docs.push_back(adLibs()[0].can(j) ? adLibs()[0].build(j) : nullptr); };
    return u;
}
CfgReg cfgReg(mkUnit());
}
