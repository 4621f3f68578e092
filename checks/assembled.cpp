// C28: schemas put together through the constraint classes themselves, in
// every bounded order of operations, against the model of the equivalent
// JSON Schema; and the metadata a schema carries.
#include <list>
#include <set>
#include "../lib/rj.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/ladder.hpp"
#include "../lib/harness.hpp"
#include "../lib/errjudge.hpp"
#include <valijson/constraints/concrete_constraints.hpp>
using namespace valijson;
using namespace valijson::constraints;
using fam::O; using fam::A;

static long g_live = 0;
static void *countedAlloc(size_t n) { void *p = malloc(n); if (p) g_live++; return p; }
static void countedFree(void *p) { if (p) g_live--; free(p); }
static rapidjson::Document &junk() { static rapidjson::Document *d = new rapidjson::Document(); if (d->IsNull()) d->SetString("junk"); return *d; }

// ------------------------------------------------- after adding, the caller's object is his own
static const Subschema *g_never = nullptr;     // a subschema nothing satisfies
static void poison(AllOfConstraint &c) { c.addSubschema(g_never); }
static void poison(AnyOfConstraint &c) { c.addSubschema(g_never); }
static void poison(OneOfConstraint &c) { c.addSubschema(g_never); }
static void poison(NotConstraint &c) { c.setSubschema(g_never); }
static void poison(ContainsConstraint &c) { c.setSubschema(g_never); }
static void poison(PropertyNamesConstraint &c) { c.setSubschema(g_never); }
static void poison(SingularItemsConstraint &c) { c.setItemsSubschema(g_never); }
static void poison(LinearItemsConstraint &c) { c.addItemSubschema(g_never); c.setAdditionalItemsSubschema(g_never); }
static void poison(ConditionalConstraint &c) { c.setIfSubschema(g_never); c.setThenSubschema(g_never); c.setElseSubschema(g_never); }
static void poison(ConstConstraint &c) { c.setValue(rj::Adapter(junk())); }
static void poison(EnumConstraint &c) { for (const char *s : {"", "a"}) c.addValue(adapters::RapidJsonFrozenValue(s)); rapidjson::Value v(1); c.addValue(rj::Adapter(v)); }
static void poison(DependenciesConstraint &c) { for (std::string n : {"a", "b", "", "zz"}) c.addPropertyDependency(n, std::string("never")); }
static void poison(PropertiesConstraint &c) { c.addPropertySubschema("a", g_never); c.addPropertySubschema(std::string("b"), g_never); c.addPatternPropertySubschema(".", g_never); c.setAdditionalPropertiesSubschema(g_never); }
static void poison(RequiredConstraint &c) { c.addRequiredProperty("never"); }
static void poison(TypeConstraint &c) { c.addNamedType(TypeConstraint::kAny); c.addSchemaType(g_never); }
static void poison(PatternConstraint &c) { c.setPattern(std::string("^never$")); }
static void poison(MaximumConstraint &c) { c.setMaximum(-1e308); c.setExclusiveMaximum(true); }
static void poison(MinimumConstraint &c) { c.setMinimum(1e308); c.setExclusiveMinimum(true); }
static void poison(MaxItemsConstraint &c) { c.setMaxItems(0); }
static void poison(MinItemsConstraint &c) { c.setMinItems(1000000); }
static void poison(MaxLengthConstraint &c) { c.setMaxLength(0); }
static void poison(MinLengthConstraint &c) { c.setMinLength(1000000); }
static void poison(MaxPropertiesConstraint &c) { c.setMaxProperties(0); }
static void poison(MinPropertiesConstraint &c) { c.setMinProperties(1000000); }
static void poison(MultipleOfIntConstraint &c) { c.setDivisor(1000003); }
static void poison(MultipleOfDoubleConstraint &c) { c.setDivisor(1e307); }
static void poison(UniqueItemsConstraint &) {}

enum { REV = 1, TOP = 2, SHARE = 4, POISON = 8, ALLOC = 16, CLONE = 32, MOVE = 64 };
struct Asm {
    Schema &s; int draft, o; std::map<std::string, const Subschema *> shared; std::vector<std::function<void()>> later;
    Asm(Schema &s_, int d, int opt) : s(s_), draft(d), o(opt) {}
    template <class C> void add(C &c, const Subschema *t) {
        if (o & CLONE) { auto p = c.clone(o & ALLOC ? countedAlloc : malloc, o & ALLOC ? countedFree : free); put(*p, t); poison(c); p.reset(); }
        else put(c, t);
        if (o & POISON) poison(c);
    }
    void put(const Constraint &c, const Subschema *t) { if (t == s.root() && !(o & REV)) s.addConstraint(c); else s.addConstraintToSubschema(c, t); }
    bool al() const { return o & ALLOC; }
#define MK(T, c) T c = al() ? T(countedAlloc, countedFree) : T()
    const Subschema *sub(const J &j) {
        if (j.t == J::Bool && j.b && (o & REV)) return s.emptySubschema();
        std::string key; if (o & SHARE) { key = j.str(); auto it = shared.find(key); if (it != shared.end()) return it->second; }
        const Subschema *t = s.createSubschema(); if (o & SHARE) shared[key] = t;
        if (o & TOP) later.push_back([this, &j, t] { fill(j, t); }); else fill(j, t);
        return t;
    }
    void run(const J &j) { fill(j, s.root()); for (size_t k = 0; k < later.size(); k++) { auto f = later[k]; f(); } }
    static TypeConstraint::JsonType named(const std::string &n) { return TypeConstraint::jsonTypeFromString(n); }
    template <class C> void subList(C &c, const J &l) { for (auto &x : l.a) c.addSubschema(sub(x)); }
    void type(const J &v, const Subschema *t) {
        MK(TypeConstraint, c); std::vector<const J *> l; if (v.t == J::Arr) for (auto &x : v.a) l.push_back(&x); else l.push_back(&v);
        if (o & REV) std::reverse(l.begin(), l.end());
        for (auto x : l) { if (x->t == J::Str) c.addNamedType(named(x->s)); else c.addSchemaType(sub(*x)); } if (o & SHARE) for (auto x : l) if (x->t == J::Str) c.addNamedType(named(x->s)); add(c, t);
    }
    void value(EnumConstraint &c, const J &v) {
        if (v.t == J::Str && v.s.find('\0') == std::string::npos && (o & REV)) { c.addValue(adapters::RapidJsonFrozenValue(v.s.c_str())); return; }
        rapidjson::Document d; rj::doc(d, v); if (o & TOP) { std::unique_ptr<adapters::FrozenValue> f(rj::Adapter(d).freeze()); c.addValue(*f); } else c.addValue(rj::Adapter(d));
    }
    void fill(const J &j, const Subschema *t) {
        if (j.t == J::Bool) { if (!j.b) s.setAlwaysInvalid(t, true); return; }
        std::vector<std::pair<std::string, const J *>> kw; for (auto &m : j.o) kw.emplace_back(m.first, &m.second);
        if (o & REV) std::reverse(kw.begin(), kw.end());
        bool props = false; bool d7 = draft == 7;
        auto has = [&](const char *k) { return j.get(k); };
        for (auto &m : kw) {
            const std::string &k = m.first; const J &v = *m.second;
            if (k == "type") type(v, t);
            else if (k == "enum") { MK(EnumConstraint, c); for (auto &x : v.a) value(c, x); add(c, t); }
            else if (k == "const" && d7) { MK(ConstConstraint, c); { rapidjson::Document d; rj::doc(d, v); if (o & REV) c.setValue(rj::Adapter(junk())); c.setValue(rj::Adapter(d)); } add(c, t); }
            else if (k == "minimum") { MK(MinimumConstraint, c); const J *x = d7 ? nullptr : has("exclusiveMinimum"); if (o & REV) { c.setExclusiveMinimum(x && x->b); c.setMinimum(v.num()); } else { c.setMinimum(v.num()); if (x && x->b) c.setExclusiveMinimum(true); } add(c, t); }
            else if (k == "maximum") { MK(MaximumConstraint, c); const J *x = d7 ? nullptr : has("exclusiveMaximum"); if (o & REV) { c.setExclusiveMaximum(x && x->b); c.setMaximum(v.num()); } else { c.setMaximum(v.num()); if (x && x->b) c.setExclusiveMaximum(true); } add(c, t); }
            else if (k == "exclusiveMinimum") { if (d7) { MK(MinimumConstraint, c); c.setExclusiveMinimum(true); c.setMinimum(v.num()); add(c, t); } }
            else if (k == "exclusiveMaximum") { if (d7) { MK(MaximumConstraint, c); c.setMaximum(v.num()); c.setExclusiveMaximum(true); add(c, t); } }
            else if (k == "multipleOf" || k == "divisibleBy") { if (v.t == J::Int) { MK(MultipleOfIntConstraint, c); c.setDivisor(v.i); add(c, t); } else { MK(MultipleOfDoubleConstraint, c); c.setDivisor(v.num()); add(c, t); } }
            else if (k == "minLength") { MK(MinLengthConstraint, c); c.setMinLength((uint64_t)v.num()); add(c, t); }
            else if (k == "maxLength") { MK(MaxLengthConstraint, c); c.setMaxLength((uint64_t)v.num()); add(c, t); }
            else if (k == "minItems") { MK(MinItemsConstraint, c); c.setMinItems((uint64_t)v.num()); add(c, t); }
            else if (k == "maxItems") { MK(MaxItemsConstraint, c); c.setMaxItems((uint64_t)v.num()); add(c, t); }
            else if (k == "minProperties") { MK(MinPropertiesConstraint, c); c.setMinProperties((uint64_t)v.num()); add(c, t); }
            else if (k == "maxProperties") { MK(MaxPropertiesConstraint, c); c.setMaxProperties((uint64_t)v.num()); add(c, t); }
            else if (k == "pattern") { MK(PatternConstraint, c); c.setPattern(v.s); add(c, t); }
            else if (k == "uniqueItems") { if (v.b) { MK(UniqueItemsConstraint, c); add(c, t); } }
            else if (k == "allOf") { MK(AllOfConstraint, c); subList(c, v); add(c, t); }
            else if (k == "anyOf") { MK(AnyOfConstraint, c); subList(c, v); add(c, t); }
            else if (k == "oneOf") { MK(OneOfConstraint, c); subList(c, v); add(c, t); }
            else if (k == "not") { MK(NotConstraint, c); c.setSubschema(sub(v)); add(c, t); }
            else if (k == "extends") { MK(AllOfConstraint, c); if (v.t == J::Arr) subList(c, v); else c.addSubschema(sub(v)); add(c, t); }
            else if (k == "disallow") { MK(NotConstraint, c); const Subschema *n = s.createSubschema(); type(v, n); c.setSubschema(n); add(c, t); }
            else if (k == "contains") { MK(ContainsConstraint, c); c.setSubschema(sub(v)); add(c, t); }
            else if (k == "propertyNames") { MK(PropertyNamesConstraint, c); c.setSubschema(sub(v)); add(c, t); }
            else if (k == "if") { if (d7) { MK(ConditionalConstraint, c); const J *th = has("then"), *el = has("else"); if (o & REV) { if (el) c.setElseSubschema(sub(*el)); if (th) c.setThenSubschema(sub(*th)); c.setIfSubschema(sub(v)); } else { c.setIfSubschema(sub(v)); if (th) c.setThenSubschema(sub(*th)); if (el) c.setElseSubschema(sub(*el)); } add(c, t); } }
            else if (k == "then" || k == "else") {}
            else if (k == "items") {
                if (v.t == J::Arr) { MK(LinearItemsConstraint, c); const J *ad = has("additionalItems"); if (!ad || (ad->t == J::Bool && ad->b)) c.setAdditionalItemsSubschema(s.emptySubschema()); else if (ad->t != J::Bool) c.setAdditionalItemsSubschema(sub(*ad)); else if (o & REV) c.setAdditionalItemsSubschema(nullptr); for (auto &x : v.a) c.addItemSubschema(sub(x)); add(c, t); }
                else { MK(SingularItemsConstraint, c); c.setItemsSubschema(sub(v)); add(c, t); }
            }
            else if (k == "additionalItems") {}
            else if (k == "dependencies") {
                MK(DependenciesConstraint, c); std::vector<const std::pair<std::string, J> *> l; for (auto &d : v.o) l.push_back(&d); if (o & REV) std::reverse(l.begin(), l.end());
                for (auto d : l) {
                    if (d->second.t == J::Str) c.addPropertyDependency(d->first, d->second.s);
                    else if (d->second.t == J::Arr) { std::vector<std::string> n; for (auto &x : d->second.a) n.push_back(x.s); if (o & REV) { for (auto &x : n) c.addPropertyDependency(d->first, x); }
                        else if (o & TOP) { size_t m = n.size() / 2; c.addPropertyDependencies(d->first, std::list<std::string>(n.begin(), n.begin() + m)); c.addPropertyDependencies(d->first, std::set<std::string>(n.begin() + m, n.end())); }
                        else c.addPropertyDependencies(d->first, n);
                        if (o & SHARE) { c.addPropertyDependencies(d->first, std::vector<std::string>()); if (!n.empty()) c.addPropertyDependency(d->first, n.back()); } }
                    else c.addSchemaDependency(d->first, sub(d->second));
                }
                add(c, t);
            }
            else if (k == "required") { if (v.t == J::Arr) { MK(RequiredConstraint, c); std::vector<std::string> l; for (auto &x : v.a) l.push_back(x.s); if (o & REV) std::reverse(l.begin(), l.end()); for (auto &x : l) { if ((o & REV) && x.find('\0') == std::string::npos) c.addRequiredProperty(x.c_str()); else c.addRequiredProperty(x); } if (o & SHARE) for (auto &x : l) if (c.addRequiredProperty(x)) throw std::runtime_error("a required property was new twice"); add(c, t); } }
            else if (k == "properties" || k == "patternProperties" || k == "additionalProperties") {
                if (props) continue; props = true;
                MK(PropertiesConstraint, c); const J *p = has("properties"), *pp = has("patternProperties"), *ap = has("additionalProperties"); MK(RequiredConstraint, rq); bool any = false;
                auto doP = [&] { if (p) for (auto &x : p->o) { const Subschema *q = sub(x.second); if ((o & REV) && x.first.find('\0') == std::string::npos) c.addPropertySubschema(x.first.c_str(), q); else c.addPropertySubschema(x.first, q); const J *r = draft == 3 ? x.second.get("required") : nullptr; if (r && r->t == J::Bool && r->b) { any = true; rq.addRequiredProperty(x.first); } } };
                auto doPP = [&] { if (pp) for (auto &x : pp->o) { const Subschema *q = sub(x.second); if ((o & REV) && x.first.find('\0') == std::string::npos) c.addPatternPropertySubschema(x.first.c_str(), q); else c.addPatternPropertySubschema(x.first, q); } };
                auto doA = [&] { if (!ap || (ap->t == J::Bool && ap->b)) c.setAdditionalPropertiesSubschema(s.emptySubschema()); else if (ap->t != J::Bool) c.setAdditionalPropertiesSubschema(sub(*ap)); else if (d7 && (o & TOP)) c.setAdditionalPropertiesSubschema(sub(*ap)); else if (o & REV) c.setAdditionalPropertiesSubschema(nullptr); };
                if (o & REV) { doA(); doPP(); doP(); } else { doP(); doPP(); doA(); }
                add(c, t); if (any) add(rq, t);
            }
            else throw std::runtime_error("the assembler does not know " + k);
        }
    }
};

struct Never { Schema s; Never() { s.setAlwaysInvalid(s.root(), true); g_never = s.root(); } };
static Never *g_neverSchema = new Never();

struct Docs { std::vector<std::unique_ptr<rapidjson::Document>> d; const std::vector<J> *j = nullptr;
    explicit Docs(const std::vector<J> &l) : j(&l) { for (auto &i : l) { d.emplace_back(new rapidjson::Document()); rj::doc(*d.back(), i); } } };
static std::string judgeOne(const Schema &s, const rapidjson::Value &iv, const J &inst, bool want, const J *schema, int draft, const Schema *parsed, Validator &strong, Validator &weak) {
    ValidationResults r; rj::Adapter ad(iv);
    bool a = strong.validate(s, ad, nullptr), b = strong.validate(s, ad, &r);
    if (a != want || b != want) return std::string("the assembled schema ") + (a ? "accepts" : "rejects") + (a != b ? " without results and the opposite with results" : "") + ", the drafts say " + (want ? "valid" : "invalid");
    if (want != (r.numErrors() == 0)) return "verdict and errors disagree";
    if (parsed && weak.validate(*parsed, ad, nullptr) != weak.validate(s, ad, nullptr)) return "under weak types the assembled and the parsed schema differ";
    if (!want && schema) { ref::Eval ev(draft); ref::Sites st; ref::Path p; ev.ev(*schema, inst, p, &st, true); std::string m = ej::judge(st, inst, r); if (!m.empty()) return m; }
    return "";
}
// ------------------------------------------------------------ part: families
static std::string oneVariant(int draft, const J &schema, int opt, const Docs &docs, const std::vector<char> &want, const Schema *parsed, int only, int *at, uint64_t *n) {
    long before = g_live; std::string m;
    {
        Schema s0, s1(countedAlloc, countedFree); Schema &s = opt & ALLOC ? s1 : s0; *at = -1;
        try { Asm a(s, draft, opt); a.run(schema); } catch (const std::exception &e) { return std::string("assembling throws ") + e.what(); }
        std::unique_ptr<Schema> moved; if (opt & MOVE) { moved.reset(new Schema(std::move(s))); if (opt & REV) { Schema t; t.addConstraint(UniqueItemsConstraint()); t = std::move(*moved); *moved = Schema(); *moved = std::move(t); } }
        // a false schema in place of the prohibition reports its error one level further down
        bool sites = !(draft == 7 && (opt & TOP) && schema.str().find("\"additionalProperties\":false") != std::string::npos);
        const Schema &u = moved ? *moved : s; Validator strong, weak(Validator::kWeakTypes);
        for (size_t k = 0; k < docs.d.size() && m.empty(); k++) {
            if (only >= 0 && (int)k != only) continue;
            *at = (int)k; (*n)++;
            try { m = judgeOne(u, *docs.d[k], (*docs.j)[k], want[k], sites && ((k + opt) % 4 == 0 || only >= 0) ? &schema : nullptr, draft, parsed, strong, weak); } catch (const std::exception &e) { m = std::string("validating throws ") + e.what(); }
        }
    }
    if (m.empty() && g_live != before) m = std::to_string(g_live - before) + " blocks left allocated";
    return m;
}
static const int kVariants[] = {0, REV, TOP, SHARE, POISON, ALLOC, CLONE, MOVE, 127, REV | TOP, POISON | CLONE | ALLOC, SHARE | TOP | MOVE, REV | MOVE | POISON, TOP | ALLOC | POISON | REV};
static void oneSchema(Run &run, int draft, const J &schema, const Docs &docs, bool all, bool few = false) {
    if (run.full()) return;
    ref::Eval ev(draft); std::vector<char> want; size_t nv = 0; for (auto &i : *docs.j) { want.push_back(ev.valid(schema, i)); nv += want.back(); }
    rapidjson::Document sd; rj::doc(sd, schema); Schema parsed; SchemaParser p(rj::ver(draft)); p.populateSchema(rj::Adapter(sd), parsed);
    run.c("schemas")++; run.c("model_steps") += ev.steps; if (nv && nv < want.size()) run.c("schemas_with_both_verdicts")++;
    std::vector<int> vs(kVariants, kVariants + sizeof kVariants / sizeof *kVariants); if (few) vs = {REV, 127, TOP | ALLOC | POISON}; if (all) { vs.clear(); for (int k = 0; k < 128; k++) vs.push_back(k); }
    for (int v : vs) {
        J c = J::obj({{"draft", J(draft)}, {"schema", schema}, {"variant", J(v)}}); run.slot(0, c.str()); run.c("assemblies")++;
        int at; uint64_t n = 0; std::string m = oneVariant(draft, schema, v, docs, want, &parsed, -1, &at, &n); run.c("pairs") += n;
        if (!m.empty()) { if (at >= 0) c.set("instance", (*docs.j)[at]); if (!run.violation(c, m)) return; }
    }
    if (run.c("schemas") % 499 == 7) run.sample(J::obj({{"draft", J(draft)}, {"schema", schema}, {"variant", J(127)}}));
}
// ----------------------------------------------------- part: ops
// Subschemas 0 (root), 1, 2; references only from lower to higher numbers.
struct Con { std::string kind; J v; int ref = -1; };
struct Model { std::vector<std::vector<Con>> con; std::vector<bool> bad; std::map<std::string, int> p, pp; int padd = -2; std::vector<J> e; std::vector<int> a; };
static const char *kLeaf[] = {R"({"type":"string"})", R"({"maxLength":1})", R"({"minimum":2})"};
static const char *kRel[] = {"not", "allOf", "additionalProperties", "items", "propertyNames"};
static J expand(const Model &m, int k) {
    if (k < 0) return J(true);
    if (m.bad[k]) return J(false);
    J all = J::arr(); std::map<int, J> memo; auto at = [&](int q) { auto it = memo.find(q); if (it == memo.end()) it = memo.emplace(q, expand(m, q)).first; return it->second; };
    std::function<J(const J &)> subst = [&](const J &v) -> J { if (v.t == J::Obj && v.o.size() == 1 && v.o[0].first == "@") return at((int)v.o[0].second.i); J r = v; for (auto &x : r.a) x = subst(x); for (auto &x : r.o) x.second = subst(x.second); return r; };
    for (auto &c : m.con[k]) all.push(subst(c.v));
    return all.a.empty() ? J(true) : J::obj({{"allOf", all}});
}
static J R(int k) { return J::obj({{"@", J(k)}}); }
struct OpWorld {
    std::unique_ptr<Schema> s{new Schema()}; std::vector<const Subschema *> sub; Schema other; const Subschema *foreign; Model m;
    PropertiesConstraint P; EnumConstraint E; AnyOfConstraint AC; Validator v; std::string bad;
    OpWorld() { sub.push_back(s->root()); m.con.emplace_back(); m.bad.push_back(false); foreign = other.createSubschema(); }
    const Subschema *at(int k) const { return k < 0 ? s->emptySubschema() : k == 0 ? s->root() : sub[k]; }
};
enum { OP_CREATE = 0, OP_LEAF = 1, OP_REL = 10, OP_FLAG = 25, OP_P = 31, OP_PP = 37, OP_PADD = 38, OP_PPUT = 40, OP_E = 41, OP_EPUT = 43, OP_A = 46, OP_APUT = 48, OP_REFUSED = 49, OP_MOVE = 50, OP_ASSIGN = 51, NOPS = 52 };
static const int kPair[3][2] = {{0, 1}, {0, 2}, {1, 2}};
static std::string opText(int o) {
    if (o == OP_CREATE) return "createSubschema";
    if (o < OP_REL) return std::string("add ") + kLeaf[(o - OP_LEAF) / 3] + " to " + std::to_string((o - OP_LEAF) % 3);
    if (o < OP_FLAG) { int q = (o - OP_REL) % 3; return std::string("add ") + kRel[(o - OP_REL) / 3] + ":" + std::to_string(kPair[q][1]) + " to " + std::to_string(kPair[q][0]); }
    if (o < OP_P) return "setAlwaysInvalid(" + std::to_string((o - OP_FLAG) / 2) + "," + ((o - OP_FLAG) % 2 ? "true)" : "false)");
    if (o < OP_PP) return std::string("P.addPropertySubschema(") + ((o - OP_P) / 3 ? "b" : "a") + "," + ((o - OP_P) % 3 == 2 ? "empty" : std::to_string((o - OP_P) % 3 + 1)) + ")";
    if (o == OP_PP) return "P.addPatternPropertySubschema(^a,1)";
    if (o < OP_PPUT) return "P.setAdditionalPropertiesSubschema(" + std::to_string(o - OP_PADD + 1) + ")";
    if (o == OP_PPUT) return "add P to 0"; if (o < OP_EPUT) return o == OP_E ? "E.addValue(1)" : "E.addValue(\"a\")";
    if (o < OP_A) return "add E to " + std::to_string(o - OP_EPUT); if (o < OP_APUT) return "A.addSubschema(" + std::to_string(o - OP_A + 1) + ")";
    if (o == OP_APUT) return "add A (anyOf) to 0"; if (o == OP_REFUSED) return "refused operations"; return o == OP_MOVE ? "move-construct" : "move-assign";
}
// false: not enabled here
static bool doOp(OpWorld &w, int o) {
    auto &m = w.m; int n = (int)w.sub.size(); auto have = [&](int k) { return k < n; };
    if (o == OP_CREATE) { if (n >= 3) return false; w.sub.push_back(w.s->createSubschema()); m.con.emplace_back(); m.bad.push_back(false); return true; }
    if (o < OP_REL) {
        int l = (o - OP_LEAF) / 3, k = (o - OP_LEAF) % 3; if (!have(k)) return false;
        if (l == 0) { TypeConstraint c; c.addNamedType(TypeConstraint::kString); w.s->addConstraintToSubschema(c, w.at(k)); }
        else if (l == 1) { MaxLengthConstraint c; c.setMaxLength(1); w.s->addConstraintToSubschema(c, w.at(k)); }
        else { MinimumConstraint c; c.setMinimum(2); w.s->addConstraintToSubschema(c, w.at(k)); }
        m.con[k].push_back({"leaf", J::parse(kLeaf[l])}); return true;
    }
    if (o < OP_FLAG) {
        int l = (o - OP_REL) / 3, k = kPair[(o - OP_REL) % 3][0], j = kPair[(o - OP_REL) % 3][1]; if (!have(j)) return false;
        if (l == 0) { NotConstraint c; c.setSubschema(w.at(j)); w.s->addConstraintToSubschema(c, w.at(k)); m.con[k].push_back({"", J::obj({{"not", R(j)}})}); }
        else if (l == 1) { AllOfConstraint c; c.addSubschema(w.s->emptySubschema()); c.addSubschema(w.at(j)); w.s->addConstraintToSubschema(c, w.at(k)); m.con[k].push_back({"", J::obj({{"allOf", J::arr({J(true), R(j)})}})}); }
        else if (l == 2) { PropertiesConstraint c; c.setAdditionalPropertiesSubschema(w.at(j)); w.s->addConstraintToSubschema(c, w.at(k)); m.con[k].push_back({"", J::obj({{"additionalProperties", R(j)}})}); }
        else if (l == 3) { SingularItemsConstraint c; c.setItemsSubschema(w.at(j)); w.s->addConstraintToSubschema(c, w.at(k)); m.con[k].push_back({"", J::obj({{"items", R(j)}})}); }
        else { PropertyNamesConstraint c; c.setSubschema(w.at(j)); w.s->addConstraintToSubschema(c, w.at(k)); m.con[k].push_back({"", J::obj({{"propertyNames", R(j)}})}); }
        return true;
    }
    if (o < OP_P) { int k = (o - OP_FLAG) / 2; if (!have(k)) return false; bool b = (o - OP_FLAG) % 2; w.s->setAlwaysInvalid(w.at(k), b); m.bad[k] = b; return true; }
    if (o < OP_PP) {
        int nm = (o - OP_P) / 3, j = (o - OP_P) % 3 + 1; if (j == 3) j = -1; if (!have(j)) return false;
        std::string name = nm ? "b" : "a"; bool fresh = nm ? w.P.addPropertySubschema("b", w.at(j)) : w.P.addPropertySubschema(name, w.at(j));
        bool was = m.p.count(name); if (fresh == was) w.bad = "addPropertySubschema answers wrongly"; if (!was) m.p[name] = j; return true;
    }
    if (o == OP_PP) { if (!have(1)) return false; bool f = w.P.addPatternPropertySubschema("^a", w.at(1)); if (f == (bool)m.pp.count("^a")) w.bad = "addPatternPropertySubschema answers wrongly"; m.pp["^a"] = 1; return true; }
    if (o < OP_PPUT) { int j = o - OP_PADD + 1; if (!have(j)) return false; w.P.setAdditionalPropertiesSubschema(w.at(j)); m.padd = j; return true; }
    if (o == OP_PPUT) {
        J p = J::obj(), pp = J::obj(); for (auto &x : m.p) p.set(x.first, x.second < 0 ? J(true) : R(x.second)); for (auto &x : m.pp) pp.set(x.first, R(x.second));
        if (m.padd == -2 && m.p.empty() && m.pp.empty()) return false;
        w.s->addConstraint(w.P); m.con[0].push_back({"", J::obj({{"properties", p}, {"patternProperties", pp}, {"additionalProperties", m.padd == -2 ? J(false) : R(m.padd)}})}); return true;
    }
    if (o < OP_EPUT) { J x = o == OP_E ? J(1) : J("a"); if (m.e.size() >= 3) return false; rapidjson::Document d; rj::doc(d, x); if (o == OP_E) w.E.addValue(rj::Adapter(d)); else w.E.addValue(adapters::RapidJsonFrozenValue("a")); m.e.push_back(x); return true; }
    if (o < OP_A) { int k = o - OP_EPUT; if (!have(k) || m.e.empty()) return false; w.s->addConstraintToSubschema(w.E, w.at(k)); J l = J::arr(); for (auto &x : m.e) l.push(x); m.con[k].push_back({"", J::obj({{"enum", l}})}); return true; }
    if (o < OP_APUT) { int j = o - OP_A + 1; if (!have(j)) return false; w.AC.addSubschema(w.at(j)); m.a.push_back(j); return true; }
    if (o == OP_APUT) { if (m.a.empty()) return false; w.s->addConstraint(w.AC); J l = J::arr(); for (int x : m.a) l.push(R(x)); m.con[0].push_back({"", J::obj({{"anyOf", l}})}); return true; }
    if (o == OP_REFUSED) {
        MaxLengthConstraint c; c.setMaxLength(0); int threw = 0;
        for (const Subschema *t : {w.s->emptySubschema(), w.foreign, w.other.root(), w.other.emptySubschema()}) {
            try { w.s->addConstraintToSubschema(c, t); } catch (const std::exception &) { threw++; }
            try { w.s->setAlwaysInvalid(t, true); } catch (const std::exception &) { threw++; }
            try { w.s->setSubschemaTitle(t, "t"); } catch (const std::exception &) { threw++; }
            try { w.s->setSubschemaDescription(t, "t"); } catch (const std::exception &) { threw++; }
            try { w.s->setSubschemaId(t, "t"); } catch (const std::exception &) { threw++; }
            if (t->getAlwaysInvalid() || t->hasTitle() || t->hasDescription() || t->hasId()) w.bad = "a refused operation took effect";
        }
        try { MultipleOfIntConstraint q; q.setDivisor(0); } catch (const std::exception &) { threw++; }
        try { MultipleOfDoubleConstraint q; q.setDivisor(-1.0); } catch (const std::exception &) { threw++; }
        if (n > 1) { DependenciesConstraint q; q.addSchemaDependency(std::string("a"), w.at(1)); try { q.addSchemaDependency(std::string("a"), w.at(1)); } catch (const std::exception &) { threw++; } } else threw++;
        if (threw != 23) w.bad = "an operation that must be refused was not (" + std::to_string(threw) + " of 23)"; return true;
    }
    if (o == OP_MOVE) { std::unique_ptr<Schema> t(new Schema(std::move(*w.s))); w.s = std::move(t); return true; }
    std::unique_ptr<Schema> t(new Schema()); MaxLengthConstraint c; c.setMaxLength(0); t->addConstraint(c); *t = std::move(*w.s); w.s = std::move(t); return true;
}
static std::vector<J> &opInstances() { static std::vector<J> *l = new std::vector<J>{J("a"), J("bb"), J(1), J(3), J::obj(), O({{"a", J(1)}}), O({{"a", J("a")}, {"b", J(3)}}), O({{"ab", J("a")}, {"b", J("bb")}}), O({{"b", J(1)}}), A({J("a")}), A({J(1), J("bb")}), J()}; return *l; }
static std::string opSeq(const std::vector<int> &start, const std::vector<int> &ops, bool &enabled, uint64_t *n) {
    static Docs docs(opInstances()); OpWorld w; enabled = true;
    for (int o : start) doOp(w, o);
    for (size_t k = 0; k < ops.size(); k++) { if (!doOp(w, ops[k])) { enabled = false; return ""; } if (!w.bad.empty()) return w.bad; if (k + 2 == ops.size()) { for (size_t q = 0; q < docs.d.size(); q++) w.v.validate(*w.s, rj::Adapter(*docs.d[q]), nullptr); } }
    J sch = expand(w.m, 0); ref::Eval ev(7);
    for (size_t k = 0; k < docs.d.size(); k++) {
        bool want = ev.valid(sch, opInstances()[k]); (*n)++;
        ValidationResults r; bool a = w.v.validate(*w.s, rj::Adapter(*docs.d[k]), nullptr), b = w.v.validate(*w.s, rj::Adapter(*docs.d[k]), &r);
        if (a != want || b != want || want != (r.numErrors() == 0)) return opInstances()[k].str() + " is " + (a ? "accepted" : "rejected") + (a != b ? " (the opposite with results)" : "") + ", the model " + sch.str() + " says " + (want ? "valid" : "invalid");
    }
    return "";
}
static J opCase(const std::vector<int> &start, const std::vector<int> &ops) { J s = J::arr(), l = J::arr(), t = J::arr(); for (int o : start) s.push(J(o)); for (int o : ops) { l.push(J(o)); t.push(J(opText(o))); } return J::obj({{"start", s}, {"ops", l}, {"text", t}}); }
static void dfs(Run &run, const std::vector<int> &start, std::vector<int> &ops, size_t depth) {
    if (run.full()) return;
    if (!ops.empty()) {
        J c = opCase(start, ops); run.slot(0, c.str()); bool en; uint64_t n = 0; std::string m = opSeq(start, ops, en, &n);
        if (!en) return;
        run.c("sequences")++; run.c("operations") += ops.size(); run.c("pairs") += n;
        if (ops.size() <= 2) run.distinct["sequences"].insert(Run::hash(c.str()));
        if (!m.empty()) { run.violation(c, m); return; }
        if (run.c("sequences") % 49999 == 11) run.sample(c);
    }
    if (ops.size() == depth) return;
    for (int o = 0; o < NOPS; o++) { ops.push_back(o); dfs(run, start, ops, depth); ops.pop_back(); }
}
// ----------------------------------------------------------------- part: meta
static std::vector<std::string> metaValues() { return {"", "x", "a longer text that does not fit in a small buffer anywhere", "\xc3\xa9\xe2\x82\xac", fam::nul("a", "b")}; }
static std::string metaOf(const Subschema &s, const char *what, const J *want) {
    std::string k = what; bool has = k == "title" ? s.hasTitle() : k == "description" ? s.hasDescription() : s.hasId(); std::string got; bool threw = false;
    try { got = k == "title" ? s.getTitle() : k == "description" ? s.getDescription() : s.getId(); } catch (const std::exception &) { threw = true; }
    if (has != (want != nullptr) || threw != (want == nullptr)) return k + (has ? " is present" : " is absent") + (threw ? ", reading it throws" : "");
    if (want && got != want->s) return k + " is " + J(got).str() + " instead of " + want->str();
    return "";
}
static std::string metaCase(const J &c) {
    int draft = (int)c.get("draft")->i; const J &node = *c.get("node"); int place = (int)c.get("place")->i; std::string idk = draft == 7 ? "$id" : "id";
    J schema = place == 0 ? node : place == 1 ? J::obj({{"properties", J::obj({{"p", node}})}}) : place == 2 ? J::obj({{"items", J::arr({J::obj({{"description", J("other")}}), node})}, {"title", J("outer")}}) : J::obj({{"definitions", J::obj({{"d", node}})}, {"properties", J::obj({{"p", J::obj({{"$ref", J("#/definitions/d")}})}})}});
    Schema s; { rapidjson::Document d; rj::doc(d, schema); SchemaParser p(rj::ver(draft)); p.populateSchema(rj::Adapter(d), s); }
    std::unique_ptr<Schema> t(new Schema(std::move(s)));
    std::vector<const Subschema *> found; if (place == 0) found.push_back(t->root());
    Subschema::ApplyFunction f = [&](const Constraint &k) {
        if (auto p = dynamic_cast<const PropertiesConstraint *>(&k)) p->applyToProperties([&](const PropertiesConstraint::String &, const Subschema *x) { found.push_back(x); return true; });
        if (auto p = dynamic_cast<const LinearItemsConstraint *>(&k)) p->applyToItemSubschemas([&](unsigned int i, const Subschema *x) { if (i == 1) found.push_back(x); return true; });
        return true;
    };
    if (place) t->apply(f);
    if (found.size() != 1) return std::to_string(found.size()) + " subschemas found";
    for (const char *k : {"title", "description", "id"}) { std::string m = metaOf(*found[0], k, node.get(std::string(k) == "id" ? idk : k)); if (!m.empty()) return m; }
    if (place) { std::string m = metaOf(*t->root(), "title", schema.get("title")); if (m.empty()) m = metaOf(*t->root(), "description", nullptr); if (!m.empty()) return "at the root, " + m; }
    // and through the setters, last one wins, one field never touches another
    Schema u; const Subschema *q = u.createSubschema(); for (const Subschema *x : {u.root(), q}) { if (auto v = node.get("title")) { u.setSubschemaTitle(x, "old"); u.setSubschemaTitle(x, v->s); } if (auto v = node.get(idk)) u.setSubschemaId(x, v->s); if (auto v = node.get("description")) { u.setSubschemaDescription(x, "old"); u.setSubschemaDescription(x, v->s); } }
    Schema w(std::move(u)); Schema z; z.setTitle("z"); z.setId("z"); z.setDescription("z"); z = std::move(w);
    for (const Subschema *x : {z.root(), q}) for (const char *k : {"title", "description", "id"}) { std::string m = metaOf(*x, k, node.get(std::string(k) == "id" ? idk : k)); if (!m.empty()) return "set by hand, " + m; }
    return "";
}
static void meta(Run &run) {
    auto vals = metaValues(); int n = (int)vals.size() + 1; uint64_t idx = 0; std::vector<std::string> ids = {"http://h/x", "x", "#x", "urn:x:y", ""};
    for (int draft : {3, 4, 7}) for (int place = 0; place < 4; place++) for (int t = 0; t < n; t++) for (int d = 0; d < n; d++) for (size_t i = 0; i < ids.size(); i++) for (int order = 0; order < 2; order++) {
        if (!run.mine(idx++) || run.full()) continue;
        J node = J::obj(); auto T = [&] { if (t) node.set("title", J(vals[t - 1])); }; if (!order) T(); if (d) node.set("description", J(vals[d - 1])); if (!ids[i].empty()) node.set(draft == 7 ? "$id" : "id", J(ids[i])); if (order) T();
        J c = J::obj({{"draft", J(draft)}, {"node", node}, {"place", J(place)}}); run.slot(0, c.str()); run.c("sequences")++; run.c("operations") += 3;
        std::string m; try { m = metaCase(c); } catch (const std::exception &e) { m = std::string("throws ") + e.what(); } if (!m.empty()) run.violation(c, m);
    }
}

std::string replayCase(Run &, const J &c) {
    if (c.get("node")) return metaCase(c);
    if (const J *l = c.get("ops")) { std::vector<int> st, ops; for (auto &x : c.get("start")->a) st.push_back((int)x.i); for (auto &x : l->a) ops.push_back((int)x.i); bool en; uint64_t n = 0; return opSeq(st, ops, en, &n); }
    int draft = (int)c.get("draft")->i; std::vector<J> l; if (auto i = c.get("instance")) l.push_back(*i); else l = fam::combInstances();
    Docs docs(l); ref::Eval ev(draft); std::vector<char> want; for (auto &i : l) want.push_back(ev.valid(*c.get("schema"), i));
    rapidjson::Document sd; rj::doc(sd, *c.get("schema")); Schema parsed; SchemaParser p(rj::ver(draft)); p.populateSchema(rj::Adapter(sd), parsed);
    int at; uint64_t n = 0; std::string m;
    for (size_t k = 0; k < l.size() && m.empty(); k++) m = oneVariant(draft, *c.get("schema"), (int)c.get("variant")->i, docs, want, &parsed, (int)k, &at, &n);
    return m;
}
void explore(Run &run) {
    if (run.part == "meta") { meta(run); return; }
    if (run.part == "ops") {
        uint64_t idx = 0;
        for (auto &start : std::vector<std::vector<int>>{{}, {OP_CREATE}, {OP_CREATE, OP_CREATE}})
            for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) {
                if (!run.mine(idx++)) continue;
                std::vector<int> ops = {a}; bool en; uint64_t n = 0; if (b == 0) dfs(run, start, ops, 1); opSeq(start, ops, en, &n); if (!en) continue;
                ops.push_back(b); dfs(run, start, ops, run.thorough() ? 4 : start.size() == 2 ? 3 : 4);
            }
        return;
    }
    std::string fn = run.part.substr(4);            // asm-<family>
    for (int draft : {3, 4, 7}) {
        uint64_t idx = 0; bool deep = run.thorough();
        if (fam::ladder(fn, draft, deep, [&](const std::function<fam::Group()> &make) {
            if (!run.mine(idx++) || run.full() || (!deep && (idx / run.nshards) % 2)) return;
            fam::Group g = make(); std::vector<J> few; size_t st = 1 + g.instances.size() / (deep ? 200 : 25); for (size_t k = 0; k < g.instances.size(); k += st) few.push_back(g.instances[k]);
            Docs docs(few); for (auto &s : g.schemas) if (deep || s.str().size() < 3000) oneSchema(run, draft, s, docs, false, !deep);
        })) continue;
        fam::Family f = fam::make(fn, draft, false); std::vector<J> few; size_t st = 1 + f.instances.size() / (deep ? 400 : 70); for (size_t k = 0; k < f.instances.size(); k += st) few.push_back(f.instances[k]);
        Docs docs(few); uint64_t step = deep ? 1 : fn == "scalar" ? 7 : fn == "comb" ? 3 : 9, q = 0;
        f.schemas([&](const J &s) { q++; if (q > 400 && q % step) return; if (!run.mine(idx++)) return; oneSchema(run, draft, s, docs, deep && q % 7 == 0); });
    }
}
