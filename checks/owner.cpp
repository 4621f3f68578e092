// C20: every operation sequence over two schema slots, with an ownership
// ledger, against a model of what each schema should contain; and every rich
// schema moved in every way, with the place it was moved from overwritten.
#include "../lib/alloc.hpp"
#include "../lib/adlib.hpp"
#include "../lib/rich.hpp"
#include "../lib/harness.hpp"
#include <valijson/constraints/concrete_constraints.hpp>
using namespace valijson;
typedef constraints::Constraint Con;
static char g_msg[512];
static void bad(const char *f, const std::string &a = "") { if (!g_msg[0]) snprintf(g_msg, sizeof g_msg, f, a.c_str()); }

// A user constraint that knows every living copy of itself.
static const void *g_live[4096]; static int g_nlive = 0;
struct Poly : constraints::PolyConstraint {
    int tag; bool thr;
    void in() { g_live[g_nlive++] = this; }
    Poly(int t, bool x = false) : tag(t), thr(x) { in(); }
    Poly(const Poly &o) : constraints::PolyConstraint(o), tag(o.tag), thr(o.thr) { in(); }
    ~Poly() override { for (int k = g_nlive - 1; k >= 0; k--) if (g_live[k] == this) { g_live[k] = g_live[--g_nlive]; tag = -99; return; } bad("a constraint was destroyed that is not alive"); }
    Con *cloneInto(void *p) const override { if (thr) throw std::runtime_error("no copy"); return new (p) Poly(*this); }
    size_t sizeOf() const override { return sizeof(Poly); }
    bool validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const override {
        bool alive = false; for (int k = 0; k < g_nlive; k++) alive = alive || g_live[k] == this;
        if (!alive || tag < 0) bad("a dead constraint was called");
        if (!a.isString()) return true;
        if (r) r->pushError(path, "poly " + std::to_string(tag)); return false;
    }
};

// ---- the model ----
enum Kind { Absent, Hollow, Live };
struct SubM { std::vector<std::string> cons; bool never = false; std::string title; };
struct SM { Kind k = Absent; bool dirty = false; std::vector<std::string> cons; std::vector<SubM> subs; bool never = false; std::string title, desc, id; 
    std::string str() const {
        std::string s = std::to_string(k) + (dirty ? "?" : "") + (never ? "!" : ""); for (auto &c : cons) s += c + ","; s += title + "/" + desc + "/" + id;
        for (auto &b : subs) { s += "["; for (auto &c : b.cons) s += c + ","; s += b.title + (b.never ? "!" : "") + "]"; }
        return s; } };
struct M { SM s[2]; std::string str() const { return s[0].str() + "|" + s[1].str(); } };
enum Op { NewD, NewA, NewB, Del, Pop, PopFail, Sub, AddRoot, AddPoly, AddSub, LinkSub, Throwing, Foreign, Shared, Null, Never, Names, MoveC, MoveA, SelfA, NOPS };
static const char *kNames[] = {"construct", "construct with functions A", "construct with functions B", "destroy", "populate", "populate with a schema refused half way", "create a subschema", "add a constraint to the root", "add a user constraint to the root",
    "add a constraint to the own subschema", "add a constraint that refers to the own subschema", "add a constraint that cannot be copied", "name parts of the other schema", "name a shared empty subschema", "name a null subschema", "make the own subschema always invalid",
    "set title, description and identifier", "move-construct from the other", "move-assign from the other", "move-assign from itself"};
static bool enabled(const M &m, int slot, Op op) {
    const SM &x = m.s[slot], &y = m.s[!slot];
    switch (op) {
    case NewD: case NewA: case NewB: return x.k == Absent;
    case Del: return x.k != Absent;
    case AddSub: case LinkSub: case Never: return x.k == Live && !x.subs.empty();
    case Foreign: return x.k == Live && y.k == Live;
    case MoveC: return x.k == Absent && y.k == Live;
    case MoveA: return x.k != Absent && y.k == Live;
    default: return x.k == Live;
    }
}
static void step(M &m, int slot, Op op) {
    SM &x = m.s[slot], &y = m.s[!slot];
    switch (op) {
    case NewD: case NewA: case NewB: x = SM(); x.k = Live; break;
    case Del: x = SM(); break;
    case Pop: x.cons.push_back("P"); x.title = "PT"; x.id = "http://h/r.json"; break;
    case PopFail: x.dirty = true; break;
    case Sub: x.subs.emplace_back(); break;
    case AddRoot: x.cons.push_back("I"); break;
    case AddPoly: x.cons.push_back("Y" + std::to_string(x.cons.size())); break;
    case AddSub: x.subs.back().cons.push_back("I"); break;
    case LinkSub: x.cons.push_back("N" + std::to_string(x.subs.size() - 1)); break;
    case Never: x.subs.back().never = true; break;
    case Names: x.title = "T"; x.desc = "D"; x.id = "I"; if (!x.subs.empty()) x.subs.back().title = "S"; break;
    case MoveC: case MoveA: x = y; y = SM(); y.k = Hollow; break;
    case SelfA: x = SM(); x.k = Hollow; break;
    default: break;
    }
}
static std::vector<J> g_docs; static std::vector<bool> g_popVerdict;
static bool subOk(const SubM &b, size_t d) { if (b.never) return false; for (auto &c : b.cons) if (c == "I" && g_docs[d].t != J::Int) return false; return true; }
static bool conOk(const SM &x, const std::string &c, size_t d) {
    switch (c[0]) {
    case 'P': return g_popVerdict[d];
    case 'I': return g_docs[d].t == J::Int;
    case 'Y': return g_docs[d].t != J::Str;
    default: return !subOk(x.subs[(size_t)atoi(c.c_str() + 1)], d);
    }
}

// ---- the real thing ----
static const AdLib *g_lib; static std::vector<std::unique_ptr<Handle>> g_h; static std::unique_ptr<Handle> g_pop, g_popFail; static SchemaParser *g_parser;
struct Slot { Schema *s = nullptr; void *mem = nullptr; std::vector<const Subschema *> subs; };
static void place(Slot &x) { x.mem = malloc(sizeof(Schema)); memset(x.mem, 0xAB, sizeof(Schema)); }
static void destroy(Slot &x) { if (!x.s) return; x.s->~Schema(); memset(x.mem, 0xDD, sizeof(Schema)); free(x.mem); x.s = nullptr; x.mem = nullptr; x.subs.clear(); }
template <class F> static void refused(const char *what, F f) {
    try { f(); } catch (const std::runtime_error &) { return; } catch (...) { bad("%s: refused with something that is no std::runtime_error", what); return; }
    bad("%s was not refused", what);
}
static void foreign(Schema &s, const Subschema *p, const char *w) {
    constraints::TypeConstraint t; t.addNamedType(constraints::TypeConstraint::kNull); Poly py(77);
    refused(w, [&] { s.addConstraintToSubschema(t, p); }); refused(w, [&] { s.addConstraintToSubschema(py, p); });
    refused(w, [&] { s.setSubschemaTitle(p, "foreign"); }); refused(w, [&] { s.setSubschemaDescription(p, "foreign"); }); refused(w, [&] { s.setSubschemaId(p, "foreign"); }); refused(w, [&] { s.setAlwaysInvalid(p, true); });
}
static void act(Slot *sl, const M &before, int slot, Op op) {
    Slot &x = sl[slot], &y = sl[!slot];
    constraints::TypeConstraint t; t.addNamedType(constraints::TypeConstraint::kInteger);
    switch (op) {
    case NewD: place(x); x.s = new (x.mem) Schema(); break;
    case NewA: place(x); x.s = new (x.mem) Schema(&led::poolAlloc<0>, &led::poolFree<0>); break;
    case NewB: place(x); x.s = new (x.mem) Schema(&led::poolAlloc<1>, &led::poolFree<1>); break;
    case Del: destroy(x); break;
    case Pop: g_pop->populate(*g_parser, *x.s); break;
    case PopFail: try { g_popFail->populate(*g_parser, *x.s); bad("the malformed schema was accepted"); } catch (const std::exception &) {} break;
    case Sub: { auto p = x.s->createSubschema(); for (auto q : x.subs) if (p == q) bad("createSubschema returned a subschema in use"); if (!p || p == x.s->root() || p == x.s->emptySubschema()) bad("createSubschema returned another part"); x.subs.push_back(p); break; }
    case AddRoot: if (x.s->root() != x.s) bad("root"); x.s->addConstraintToSubschema(t, x.s->root()); break;
    case AddPoly: { Poly p((int)before.s[slot].cons.size()); if (before.s[slot].cons.size() % 2) x.s->addConstraint(p); else x.s->addConstraintToSubschema(p, x.s->root()); break; }
    case AddSub: x.s->addConstraintToSubschema(t, x.subs.back()); break;
    case LinkSub: { constraints::NotConstraint n; n.setSubschema(x.subs.back()); x.s->addConstraintToSubschema(n, x.s->root()); break; }
    case Throwing: { Poly p(55, true); refused("a constraint whose copy throws", [&] { x.s->addConstraintToSubschema(p, x.s->root()); }); if (!x.subs.empty()) refused("a constraint whose copy throws", [&] { x.s->addConstraintToSubschema(p, x.subs.back()); }); break; }
    case Foreign: foreign(*x.s, y.s->root(), "the root of another schema"); for (auto q : y.subs) foreign(*x.s, q, "a subschema of another schema"); { Subschema lone; foreign(*x.s, &lone, "a subschema of no schema"); } break;
    case Shared: foreign(*x.s, x.s->emptySubschema(), "the shared empty subschema"); if (before.s[!slot].k == Live) foreign(*x.s, y.s->emptySubschema(), "the shared empty subschema of another schema"); break;
    case Null: foreign(*x.s, nullptr, "a null subschema"); break;
    case Never: x.s->setAlwaysInvalid(x.subs.back(), true); break;
    case Names: x.s->setSubschemaTitle(x.s->root(), "T"); x.s->setSubschemaDescription(x.s->root(), "D"); x.s->setSubschemaId(x.s->root(), "I"); if (!x.subs.empty()) x.s->setSubschemaTitle(x.subs.back(), "S"); break;
    case MoveC: place(x); x.s = new (x.mem) Schema(std::move(*y.s)); x.subs = y.subs; y.subs.clear(); break;
    case MoveA: { Schema &r = (*x.s = std::move(*y.s)); if (&r != x.s) bad("move assignment returns another object"); x.subs = y.subs; y.subs.clear(); break; }
    case SelfA: { Schema &r = *x.s; *x.s = std::move(r); x.subs.clear(); break; }
    default: break;
    }
}
static void names(const Subschema &s, const std::string &t, const std::string &d, const std::string &i) {
    if (s.hasTitle() != !t.empty() || (s.hasTitle() && s.getTitle() != t)) bad("title");
    if (s.hasDescription() != !d.empty() || (s.hasDescription() && s.getDescription() != d)) bad("description");
    if (s.hasId() != !i.empty() || (s.hasId() && s.getId() != i)) bad("identifier");
}
static void observe(Slot &x, const SM &m) {
    if (m.k != Live) return;
    const Schema &s = *x.s;
    if (!s.emptySubschema() || s.emptySubschema() == s.root()) { bad("no empty subschema"); return; }
    { int n = 0; Subschema::ApplyFunction f = [&](const Con &) { n++; return true; }; s.emptySubschema()->apply(f); if (n || s.emptySubschema()->getAlwaysInvalid() || s.emptySubschema()->hasTitle()) bad("the shared empty subschema was modified"); }
    bool pop = false; for (auto &c : m.cons) pop = pop || c == "P";
    if (!m.dirty) {
        names(s, m.title, m.desc, m.id);
        if (!pop) { size_t n = 0, k = 0; Subschema::ApplyFunction f = [&](const Con &) { n++; return false; }, g = [&](const Con &) { k++; return false; }; bool all = s.apply(f); s.applyStrict(g); if (n != m.cons.size() || all != (n == 0) || k != (n ? 1u : 0u)) bad("number of constraints"); }
    }
    for (size_t k = 0; k < x.subs.size(); k++) {
        const SubM &b = m.subs[k]; names(*x.subs[k], b.title, "", "");
        size_t n = 0; Subschema::ApplyFunction f = [&](const Con &) { n++; return true; }; x.subs[k]->apply(f);
        if (n != b.cons.size()) bad("number of constraints of a subschema");
        if (x.subs[k]->getAlwaysInvalid() != b.never) bad("always-invalid mark");
    }
    for (size_t d = 0; d < g_h.size(); d++) {
        Validator v; ValidationResults r;
        bool ok = g_h[d]->validate(v, s, &r), ok2 = g_h[d]->validate(v, s, nullptr), want = true;
        if (m.dirty) continue;
        size_t polys = 0, seen = 0;
        for (auto &c : m.cons) { bool o = conOk(m, c, d); want = want && o; if (!o && c[0] == 'Y') polys++; }
        if (ok != want || ok2 != want) bad("verdict of document %s", g_docs[d].str());
        for (auto &e : r) if (e.description.compare(0, 5, "poly ") == 0) { seen++; bool known = false; for (auto &c : m.cons) known = known || (c[0] == 'Y' && c.substr(1) == e.description.substr(5)); if (!known) bad("an error of a constraint of no schema"); }
        if (seen != polys) bad("errors of user constraints");
    }
}
static std::string runSeq(const std::vector<int> &seq, M &end) {
    M m; g_msg[0] = 0; g_nlive = 0;
    std::vector<M> states; for (int o : seq) { states.push_back(m); step(m, o / NOPS, (Op)(o % NOPS)); }
    end = m;
    led::open();
    {
        Slot sl[2];
        try {
            for (size_t k = 0; k < seq.size(); k++) act(sl, states[k], seq[k] / NOPS, (Op)(seq[k] % NOPS));
            for (int k = 0; k < 2; k++) observe(sl[k], m.s[k]);
        } catch (const std::exception &e) { bad("an operation threw: %s", e.what()); }
        // an order of destruction that depends on the sequence
        int first = seq.size() % 2;
        destroy(sl[first]); destroy(sl[!first]);
    }
    long live = led::close();
    if (g_msg[0]) return g_msg;
    if (g_nlive) return std::to_string(g_nlive) + " constraints were never destroyed";
    if (live) return std::to_string(live) + " blocks leak";
    for (auto &p : led::pool) if (p.live) { p.live = 0; return "blocks of the user's allocation function leak"; }
    return "";
}
static void setup() {
    if (g_lib) return;
    g_lib = &adLib("rapidjson"); g_parser = new SchemaParser();
    g_docs = {J(1), J("s"), J(true), J::obj({{"n", J::obj({{"m", J("s")}})}}), J::obj({{"n", J::obj({{"n", J::obj({{"x", J(1)}, {"y", J(2)}})}})}}), J::obj({{"m", J(true)}})};
    for (auto &d : g_docs) g_h.push_back(g_lib->build(d));
    g_pop = g_lib->build(J::parse("{\"$id\":\"http://h/r.json\",\"title\":\"PT\",\"type\":[\"integer\",\"string\",\"object\"],\"maxProperties\":1,\"properties\":{\"n\":{\"$ref\":\"http://h/r.json\"},\"m\":{\"$ref\":\"#\"}},\"items\":{},\"additionalItems\":true,\"additionalProperties\":true,\"enum\":[1,\"s\",{\"n\":{\"m\":\"s\"}},{\"m\":\"s\"},{\"n\":{\"n\":{\"x\":1,\"y\":2}}}],\"dependencies\":{\"n\":{\"not\":{\"type\":\"null\"}},\"m\":[\"m\"]},\"patternProperties\":{\"^z\":false}}"));
    g_popFail = g_lib->build(J::parse("{\"type\":\"object\",\"properties\":{\"a\":{\"enum\":[1,2]},\"b\":{\"$ref\":\"#\"}},\"title\":\"F\",\"pattern\":5}"));
    Schema s; g_pop->populate(*g_parser, s);
    for (auto &h : g_h) { Validator v; ValidationResults r; g_popVerdict.push_back(h->validate(v, s, &r)); }
    M m; runSeq({NewD, PopFail}, m); g_msg[0] = 0;
}
static J seqJ(const std::vector<int> &s) { J a = J::arr(), n = J::arr(); for (int o : s) { a.push(J(o)); n.push(J(std::string(o / NOPS ? "Y: " : "X: ") + kNames[o % NOPS])); } return J::obj({{"ops", a}, {"names", n}}); }
static std::string slotText(const std::vector<int> &s) { return seqJ(s).str(); }

static void dfs(Run &run, std::vector<int> &seq, const M &m, size_t depth, uint64_t &idx) {
    for (int o = 0; o < 2 * NOPS && !run.full(); o++) {
        if (seq.empty() && o >= NOPS) break;             // the slots are alike
        if (!enabled(m, o / NOPS, (Op)(o % NOPS))) continue;
        seq.push_back(o);
        M n = m; step(n, o / NOPS, (Op)(o % NOPS));
        bool deal = seq.size() == 3;
        if (!deal || run.mine(idx++)) {
            if (seq.size() >= 3 || run.shard == 0) {
                run.slot(0, slotText(seq));
                M end; std::string e = runSeq(seq, end);
                run.c("sequences")++; run.c("operations") += seq.size();
                run.distinct["states"].insert(Run::hash(end.str()));
                if (run.c("sequences") % 5003 == 0) run.sample(seqJ(seq));
                if (!e.empty()) run.violation(seqJ(seq), seqJ(seq).get("names")->str() + ": " + e);
            }
            if (seq.size() < depth) dfs(run, seq, n, depth, idx);
        }
        seq.pop_back();
    }
}

// ---- moving populated schemas ----
static std::string outcome(const std::vector<std::unique_ptr<Handle>> &docs, const Schema &s) {
    std::string out;
    for (auto &d : docs) { Validator v; ValidationResults r; try { out += d->validate(v, s, &r) ? 'T' : 'F'; } catch (const std::exception &e) { out += 'X'; } for (auto &e : r) out += e.jsonPointer + "\n" + e.description + "\n"; }
    return out;
}
static const char *kMoves[] = {"construct", "assign to an empty schema", "assign to a populated schema", "construct twice", "construct then assign back into a new one", "grow a vector", "swap", "assign to a schema with other functions"};
static Schema *fresh(int alloc) { return alloc == 0 ? new Schema() : alloc == 1 ? new Schema(&led::poolAlloc<0>, &led::poolFree<0>) : new Schema(&led::poolAlloc<1>, &led::poolFree<1>); }
static std::string moveRun(int draft, const fam::Rich &r, const AdLib &l, int alloc, int how, const J *idText = nullptr) {
    auto h = l.build(r.schema); std::vector<std::unique_ptr<Handle>> docs; for (auto &d : fam::richDocs()) if (l.can(d)) docs.push_back(l.build(d));
    SchemaParser p(draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7);
    auto pop = [&](Schema &s) { if (r.remote.empty()) h->populate(p, s); else h->populateRemote(p, s, r.remote); };
    std::string want; { Schema s; try { pop(s); } catch (const std::exception &) { return ""; } want = outcome(docs, s); }
    std::string msg;
    led::open();
    {
        Schema *a = fresh(alloc); pop(*a);
        Schema *b = nullptr; std::vector<Schema> vec;
        switch (how) {
        case 0: b = new Schema(std::move(*a)); break;
        case 1: b = fresh(0); *b = std::move(*a); break;
        case 2: b = fresh(0); pop(*b); *b = std::move(*a); break;
        case 3: { Schema *c = new Schema(std::move(*a)); b = new Schema(std::move(*c)); delete c; break; }
        case 4: { Schema *c = new Schema(std::move(*a)); *a = std::move(*c); b = new Schema(std::move(*a)); delete c; break; }
        case 5: vec.reserve(1); vec.push_back(std::move(*a)); vec.emplace_back(); vec.emplace_back(); break;
        case 6: b = fresh(0); std::swap(*a, *b); break;
        case 7: b = fresh(alloc == 1 ? 2 : 1); *b = std::move(*a); break;
        }
        delete a;
        { led::Pause z; std::string now = outcome(docs, b ? *b : vec[0]); if (now != want) msg = "the moved schema gives another outcome"; }
        if (b) { auto q = b->createSubschema(); constraints::TypeConstraint t; b->addConstraintToSubschema(t, q); }
        delete b;
    }
    long live = led::close();
    if (!msg.empty()) return msg;
    if (live) return std::to_string(live) + " blocks leak";
    for (auto &q : led::pool) if (q.live) { q.live = 0; return "blocks of the user's allocation function leak"; }
    return "";
}
static std::vector<fam::Rich> selfSchemas(int draft) {
    std::vector<fam::Rich> v; const char *id = draft == 7 ? "$id" : "id";
    auto add = [&](J s) { fam::Rich r; r.schema = s; v.push_back(r); };
    for (auto idv : {"http://h/r.json", "http://h/r.json#", "#top", "r.json"}) for (auto ref : {"#", "http://h/r.json", "r.json", "#top", "http://h/r.json#"}) {
        add(J::obj({{id, J(idv)}, {"type", J::arr({J("object"), J("integer")})}, {"properties", J::obj({{"next", J::obj({{"$ref", J(ref)}})}, {"a", J::obj({{"$ref", J(ref)}})}, {"b", J::obj({{"type", J("object")}, {"properties", J::obj({{"c", J::obj({{"$ref", J(ref)}})}})}})}})}, {"items", J::obj({{"$ref", J(ref)}})}}));
    }
    return v;
}
// every keyword that has several parts, with many of them
static void bigSchemas(int draft, std::vector<fam::Rich> &v) {
    for (int n : {2, 5, 9, 17, 33, 70}) {
        std::vector<J> vals, names, types, subs, pats; J props = J::obj(), pp = J::obj(), deps = J::obj(), sdeps = J::obj(), defs = J::obj();
        for (int k = 0; k < n; k++) {
            std::string m = "m" + std::to_string(k); J sub = J::obj({{"type", J(k % 2 ? "integer" : "string")}});
            vals.push_back(k % 3 ? J(k) : k % 2 ? J::obj({{m, J::arr({J(k), J("v")})}}) : J(m)); names.push_back(J(m)); subs.push_back(J::obj({{"enum", J::arr({J(k), J("s"), J(true)})}}));
            types.push_back(J(k == 0 ? "integer" : k == 1 ? "object" : k == 2 ? "array" : k == 3 ? "string" : k == 4 ? "null" : k == 5 ? "boolean" : "number"));
            props.set(m, sub); pp.set("^" + m + "$", sub); deps.set(m, J::arr({J("m" + std::to_string((k + 1) % n))})); sdeps.set(m, sub);
            if (k > 6 && draft != 3) types.pop_back();
        }
        auto A = [](const std::vector<J> &l) { J a = J::arr(); a.a = l; return a; };
        auto add = [&](J s) { fam::Rich r; r.schema = s; v.push_back(r); };
        add(J::obj({{"enum", A(vals)}})); add(J::obj({{"type", A(types)}}));
        add(J::obj({{"properties", props}, {"patternProperties", pp}, {"additionalProperties", J(false)}}));
        add(J::obj({{"dependencies", deps}})); add(J::obj({{"dependencies", sdeps}}));
        add(J::obj({{"items", A(subs)}, {"additionalItems", J(false)}}));
        if (draft == 3) { add(J::obj({{"extends", A(subs)}})); add(J::obj({{"disallow", A(subs)}})); continue; }
        add(J::obj({{"required", A(names)}}));
        for (auto k : {"allOf", "anyOf", "oneOf"}) add(J::obj({{k, A(subs)}}));
        if (draft == 7) { J c = J::obj(); c.set("const", A(vals)); add(c); }
    }
}
std::string replayCase(Run &run, const J &c) {
    setup();
    if (run.part == "moved") {
        fam::Rich r; r.schema = *c.get("schema"); for (auto &m : c.get("remote")->o) r.remote.emplace_back(m.first, m.second);
        const AdLib &l = adLib(c.get("lib")->s); int d = (int)c.get("draft")->i; moveRun(d, r, l, 0, 0); return moveRun(d, r, l, (int)c.get("alloc")->i, (int)c.get("how")->i);
    }
    std::vector<int> s; for (auto &o : c.get("ops")->a) s.push_back((int)o.i);
    M end; return runSeq(s, end);
}
void explore(Run &run) {
    setup();
    if (run.part == "ops") { std::vector<int> seq; uint64_t idx = 0; dfs(run, seq, M(), run.thorough() ? 6 : 5, idx); return; }
    uint64_t idx = 0;
    for (int draft : {3, 4, 7}) {
        auto all = fam::richSchemas(draft); for (auto &x : selfSchemas(draft)) all.push_back(x); bigSchemas(draft, all);
        for (auto &r : all) for (auto &l : adLibs()) {
            if (!run.mine(idx++) || run.full() || !l.can(r.schema)) continue;
            bool can = true; for (auto &d : r.remote) can = can && l.can(d.second);
            if (!can) continue;
            moveRun(draft, r, l, 0, 0);                       // builds what is built once
            J rm = J::obj(); for (auto &d : r.remote) rm.set(d.first, d.second);
            for (int alloc = 0; alloc < 3; alloc++) for (int how = 0; how < 8; how++) {
                J c = J::obj({{"draft", J(draft)}, {"lib", J(l.name)}, {"alloc", J(alloc)}, {"how", J(how)}, {"schema", r.schema}, {"remote", rm}});
                run.slot(0, c.str()); run.c("moves")++; run.c("sequences")++; run.c("operations") += 3;
                std::string e = moveRun(draft, r, l, alloc, how);
                run.distinct["states"].insert(Run::hash(c.str()));
                if (!e.empty()) { run.violation(c, l.name + ", " + kMoves[how] + ": " + e); break; }
            }
        }
    }
}
