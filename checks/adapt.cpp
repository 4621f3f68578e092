// C06, C15, C16, C17: every bundled adapter over a bounded value alphabet.
#include "../lib/adlib.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/ladder.hpp"
#include "../lib/harness.hpp"
#include <algorithm>
using namespace valijson;
using fam::O; using fam::A; using fam::nul;

static SchemaParser::Version ver(int draft) { return draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7; }

// ------------------------------------------------------------------ alphabets
static std::vector<J> leaves() {
    return {J(), J(true), J(false), J(0), J(1), J(-1), J(2), J(1.0), J(0.5), J(-0.0), J(2.0),
        J(9007199254740992LL), J(9007199254740993LL), J(-9007199254740993LL), J(9007199254740992.0), J((long long)INT64_MAX), J((long long)INT64_MIN), J((long long)INT64_MAX - 1),
        J(2147483647), J(2147483648LL), J(-2147483648LL), J(4294967295LL), J(4294967296LL), J(9223372036854775808.0), J(-9223372036854775808.0), J(-9223372036854777856.0), J(18446744073709551615.0), J(1e300), J(-1e300), J(5e-324), J(0.1), J(1.5),
        J(""), J("a"), J("b"), J("A"), J("ab"), J("1"), J("0"), J("1.0"), J("true"), J("false"), J("null"), J(nul("a", "b")), J(nul("a", "c")), J(nul("a", "")), J(nul("", "")), J("\xc3\xa9"), J("e\xcc\x81"), J("\xf0\x9f\x98\x80"), J("a/b~c"), J("\"\\\n")};
}
static std::vector<J> values(bool deep) {
    std::vector<J> lv = leaves(), out = lv;
    std::vector<J> sm = {J(), J(false), J(0), J(1), J(1.0), J("a"), J(""), J(9007199254740993LL), J(9007199254740992LL)};
    if (deep) { sm.push_back(J(1.5)); sm.push_back(J("1")); sm.push_back(J(nul("a", "b"))); }
    std::vector<J> c1 = {J::arr(), J::obj()};
    for (auto &x : lv) { c1.push_back(A({x})); c1.push_back(O({{"a", x}})); }
    std::vector<J> c1s = {J::arr(), J::obj()};
    for (auto &x : sm) {
        c1s.push_back(A({x})); c1s.push_back(O({{"a", x}}));
        for (auto &y : sm) { c1.push_back(A({x, y})); c1.push_back(O({{"a", x}, {"b", y}})); c1.push_back(O({{"b", y}, {"a", x}})); }
    }
    for (auto &n : {std::string(""), std::string("b"), std::string("A"), nul("a", ""), nul("a", "b"), std::string("\xc3\xa9"), std::string("a/b~1%41"), std::string("0")}) c1.push_back(O({{n, J(1)}}));
    c1.push_back(O({{nul("a", "b"), J(1)}, {nul("a", "c"), J(2)}})); c1.push_back(O({{nul("a", "c"), J(1)}, {nul("a", "b"), J(2)}}));
    c1.push_back(A({J(1), J(2), J(0)})); c1.push_back(A({J(0), J(2), J(1)})); c1.push_back(A({J(1), J(1), J(1)}));
    c1.push_back(O({{"a", J(1)}, {"b", J(2)}, {"c", J()}})); c1.push_back(O({{"c", J()}, {"a", J(1)}, {"b", J(2)}})); c1.push_back(O({{"c", J(1)}, {"a", J()}, {"b", J(2)}}));
    out.insert(out.end(), c1.begin(), c1.end());
    for (auto &x : c1s) { out.push_back(A({x})); out.push_back(O({{"a", x}})); out.push_back(A({J(1), x})); out.push_back(A({x, x})); out.push_back(O({{"a", J(1)}, {"b", x}})); }
    out.push_back(A({O({{"a", A({J(1), O({{"b", J()}, {"c", J("x")}})})}})}));
    out.push_back(A({O({{"a", A({J(1), O({{"c", J("x")}, {"b", J()}})})}})}));
    out.push_back(A({O({{"a", A({J(1), O({{"c", J("y")}, {"b", J()}})})}})}));
    if (deep) for (auto &x : c1s) for (auto &y : c1s) { out.push_back(A({x, y})); out.push_back(O({{"b", x}, {"a", y}})); }
    return out;
}
static std::vector<std::string> texts(bool deep) {   // lexical alphabet of numbers and words
    std::vector<std::string> out = {"", "true", "false", "null", "True", "TRUE", "~", "yes", "no", "inf", "-inf", "nan", ".inf", "0x10", "010", "1e400", "1e-400", "-1e400",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "9007199254740993", "12345678901234567890123",
        "1,5", "1.5,", "1_000", "1.5e3", "1E5", "1e+5", "1e-5", "1.e5", "1e5.0", "--1", "-+1", "1 ", " 1", "\t1", "1\n", nul("1", ""), nul("", "1"), nul("1", "0"), nul("true", ""), "1L", "1u", "1f", "\xd9\xa1"};
    const char al[] = "01-.+e ";
    std::vector<std::string> cur = {""};
    for (int n = 1; n <= (deep ? 5 : 4); n++) {
        std::vector<std::string> nx;
        for (auto &c : cur) for (const char *p = al; *p; p++) nx.push_back(c + *p);
        cur = nx; out.insert(out.end(), cur.begin(), cur.end());
    }
    return out;
}
static std::vector<const AdLib *> libs(bool typed) {
    std::vector<const AdLib *> r;
    for (auto &l : adLibs()) if (l.typed == typed) r.push_back(&l);
    std::sort(r.begin(), r.end(), [](const AdLib *a, const AdLib *b) { return a->name < b->name; });
    return r;
}

// ------------------------------------------------------------- many, long, large
static std::vector<J> ladderInts() {        // every integer near a power of two or ten, odd ones beyond 2^53 included
    std::vector<J> v; std::set<int64_t> seen;
    auto I = [&](int64_t x) { if (seen.insert(x).second) v.push_back(J((long long)x)); };
    for (int k = 0; k < 63; k++) { int64_t p = (int64_t)1 << k; for (int64_t d : {-1, 0, 1}) { I(p + d); I(-p + d); } }
    int64_t t = 1; for (int k = 0; k <= 18; k++, t *= 10) for (int64_t d : {-1, 0, 1}) { I(t + d); I(-t + d); }
    for (int64_t d = 0; d < 3; d++) { I(INT64_MAX - d); I(INT64_MIN + d); }
    return v;
}
// A container or string of n parts and every way it can differ in one of them.
static std::vector<J> manyGroup(int n, const std::vector<int> &places, int nest = 100) {
    J arr = J::arr(), ob = J::obj(), back = J::obj(), mixed = J::arr(), oo = J::arr(); std::string st;
    for (int k = 0; k < n; k++) { arr.push(J(k)); ob.set(fam::nm(k), J(k)); st += (char)('a' + k % 26); mixed.push(k % 3 == 0 ? J(k) : k % 3 == 1 ? J(fam::nm(k)) : J()); oo.push(O({{"a", J(k)}, {"b", J("x")}})); }
    for (int k = n; k--;) back.set(fam::nm(k), J(k));
    J o2 = J::arr(); for (int k = 0; k < n; k++) o2.push(O({{"b", J("x")}, {"a", J((double)k)}}));
    std::vector<J> out = {arr, ob, back, mixed, oo, o2, J(st)};
    for (int k : places) {
        J x = arr; x.a[k] = J(-1); out.push_back(x); x = arr; x.a[k] = J((double)k); out.push_back(x); x = mixed; x.a[k] = J(false); out.push_back(x);
        x = ob; x.o[k].second = J(-1); out.push_back(x); x = back; x.o[k].first = "other"; out.push_back(x); x = ob; x.o.erase(x.o.begin() + k); x.set("zz", J(k)); out.push_back(x);
        x = oo; x.a[k].o[1].second = J("y"); out.push_back(x);
        std::string w = st; w[k] = '#'; out.push_back(J(w)); w[k] = 0; out.push_back(J(w));
    }
    if (n <= nest) for (int leaf : {1, 2}) { J x = J(leaf), y = J(leaf); for (int k = 0; k < n; k++) { x = A({x}); y = O({{"a", y}}); } out.push_back(x); out.push_back(y); }
    return out;
}
static std::vector<int> manySizes(bool deep) { std::vector<int> v = {3, 4, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}; if (deep) for (int k : {255, 256, 257, 1023, 1024, 1025}) v.push_back(k); return v; }
static std::vector<int> fewPlaces(int n) { std::vector<int> v; for (int k : {0, 1, n / 2, n - 2, n - 1, 8, 16, 32, 64, 128}) if (k < n && k >= 0 && std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); return v; }

// ------------------------------------------------------------------------ C06
// One pair: x held by P, y by Q; live and frozen.
static std::string eqPair(const Handle &x, const Handle &y, const adapters::FrozenValue *fx, const adapters::FrozenValue *fy, bool want) {
    const auto &a = x.ad(), &b = y.ad();
    auto s = [](bool v) { return std::string(v ? "equal" : "different"); };
    bool r;
    if ((r = a.equalTo(b, true)) != want) return "live comparison says " + s(r) + ", the values are " + s(want);
    if ((r = b.equalTo(a, true)) != want) return "reversed comparison says " + s(r) + ", the values are " + s(want);
    if (fx && (r = fx->equalTo(b, true)) != want) return "frozen comparison says " + s(r) + ", the values are " + s(want);
    if (fy && (r = fy->equalTo(a, true)) != want) return "frozen comparison of the second value says " + s(r) + ", the values are " + s(want);
    return "";
}
static void schemaFor(const std::string &kind, const J &x, int &draft, J &s) {
    draft = kind == "const" ? 7 : 4;
    if (kind == "const") s = O({{"const", x}});
    else if (kind == "enum") s = O({{"enum", A({J("\x01other"), x})}});
    else s = O({{"uniqueItems", J(true)}});
}
static std::string eqSchema(const std::string &kind, const AdLib &P, const AdLib &Q, const J &x, const J &y) {
    int draft; J s; schemaFor(kind, x, draft, s);
    auto sh = P.build(s);
    Schema sc; SchemaParser p(ver(draft)); sh->populate(p, sc);
    bool eq = jeq(x, y), want = kind == "unique" ? !eq : eq;
    auto ih = Q.build(kind == "unique" ? A({x, y}) : y);
    Validator v;
    bool got = ih->validate(v, sc, nullptr);
    return got == want ? "" : kind + (got ? " accepts" : " rejects") + ", the values are " + (eq ? "equal" : "different");
}
static void c06(Run &run) {
    auto vs = values(run.thorough());
    auto ls = libs(true), tx = libs(false);
    std::vector<const AdLib *> all = ls; all.insert(all.end(), tx.begin(), tx.end());
    if (run.part == "pairs") {
        struct E { std::unique_ptr<Handle> h; std::unique_ptr<adapters::FrozenValue> f; J n; };
        std::vector<std::vector<E>> H(all.size());
        for (size_t l = 0; l < all.size(); l++) for (auto &v : vs) {
            E e;
            if (all[l]->can(v)) { e.h = all[l]->build(v); e.f.reset(e.h->ad().freeze()); e.n = e.h->native(); }
            H[l].push_back(std::move(e));
        }
        // frozen copies of frozen copies, and copies that outlive the value, behave alike: replace half of them by clones
        for (size_t l = 0; l < all.size(); l++) for (size_t k = 0; k < vs.size(); k += 2) if (H[l][k].f) H[l][k].f.reset(H[l][k].f->clone());
        for (size_t x = 0; x < vs.size(); x++) {
            if (!run.mine(x) || run.full()) continue;
            for (size_t P = 0; P < all.size(); P++) {
                if (!H[P][x].h) continue;
                run.c("values_held")++;
                run.distinct["held_values"].insert(Run::hash(all[P]->name + H[P][x].n.str()));
                std::string before = H[P][x].n.str();
                for (size_t Q = 0; Q < all.size(); Q++) for (size_t y = 0; y < vs.size() && !run.full(); y++) {
                    if (!H[Q][y].h) continue;
                    run.c("pairs")++; run.c("comparisons") += 4;
                    bool want = jeq(H[P][x].n, H[Q][y].n);
                    if (want) run.c("equal_pairs")++;
                    J cs = O({{"kind", J("pair")}, {"P", J(all[P]->name)}, {"Q", J(all[Q]->name)}, {"x", vs[x]}, {"y", vs[y]}});
                    if ((y & 15) == 0) run.slot(0, cs.str());
                    std::string m;
                    try { m = eqPair(*H[P][x].h, *H[Q][y].h, H[P][x].f.get(), H[Q][y].f.get(), want); }
                    catch (const std::exception &e) { m = std::string("comparison threw ") + e.what(); }
                    if (!m.empty()) run.violation(cs, all[P]->name + "/" + all[Q]->name + ": " + m);
                    if (x == 40 && y == 40 && P == Q) run.sample(cs);
                }
                if (H[P][x].h->native().str() != before) run.violation(O({{"kind", J("pair")}, {"P", J(all[P]->name)}, {"Q", J(all[P]->name)}, {"x", vs[x]}, {"y", vs[x]}}), "comparing changed the value");
            }
        }
        return;
    }
    if (run.part == "many") {
        std::vector<std::vector<J>> groups; for (int n : manySizes(run.thorough())) groups.push_back(manyGroup(n, fewPlaces(n)));
        { auto li = ladderInts(); std::vector<J> d; for (auto &x : li) d.push_back(x); for (auto &x : li) { double q = (double)x.i; d.push_back(J(q)); } for (int k = -60; k < 0; k++) d.push_back(J(std::ldexp(1.0, k))); for (size_t lo = 0; lo < d.size(); lo += 60) groups.push_back(std::vector<J>(d.begin() + lo, d.begin() + std::min(d.size(), lo + 60)));
          groups.push_back({}); for (size_t k = 0; k < d.size(); k += 7) groups.back().push_back(d[k]); }
        uint64_t idx = 0;
        for (auto &g : groups) for (size_t P = 0; P < all.size(); P++) {
            if (!run.mine(idx++) || run.full()) continue;
            struct E { std::unique_ptr<Handle> h; std::unique_ptr<adapters::FrozenValue> f; J n; };
            std::vector<E> X; for (auto &v : g) { E e; if (all[P]->can(v)) { e.h = all[P]->build(v); e.f.reset(e.h->ad().freeze()); e.n = e.h->native(); run.c("values_held")++; run.distinct["held_values"].insert(Run::hash(all[P]->name + e.n.str())); } X.push_back(std::move(e)); }
            for (size_t Q = 0; Q < all.size(); Q++) for (size_t y = 0; y < g.size(); y++) {
                if (!all[Q]->can(g[y])) continue;
                auto h = all[Q]->build(g[y]); std::unique_ptr<adapters::FrozenValue> f(h->ad().freeze()); J n = h->native();
                for (size_t x = 0; x < g.size() && !run.full(); x++) {
                    if (!X[x].h) continue;
                    J cs = O({{"kind", J("pair")}, {"P", J(all[P]->name)}, {"Q", J(all[Q]->name)}, {"x", g[x]}, {"y", g[y]}});
                    if ((x & 15) == 0) run.slot(0, cs.str());
                    run.c("pairs")++; run.c("comparisons") += 4; bool want = jeq(X[x].n, n); if (want) run.c("equal_pairs")++;
                    std::string m; try { m = eqPair(*X[x].h, *h, X[x].f.get(), f.get(), want); } catch (const std::exception &e) { m = std::string("comparison threw ") + e.what(); }
                    if (!m.empty()) run.violation(cs, all[P]->name + "/" + all[Q]->name + ": " + m);
                }
            }
        }
        return;
    }
    if (run.part == "triples") {
        // one adapter per value, rotating, so that triples mix adapters
        std::vector<std::unique_ptr<Handle>> h;
        for (size_t k = 0; k < vs.size(); k++) { const AdLib *l = ls[k % ls.size()]; if (!l->can(vs[k])) l = ls[0]; h.push_back(l->build(vs[k])); }
        size_t n = vs.size();
        std::vector<std::vector<char>> eq(n, std::vector<char>(n));
        for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++) eq[x][y] = h[x]->ad().equalTo(h[y]->ad(), true);
        for (size_t x = 0; x < n; x++) {
            if (!run.mine(x)) continue;
            run.progress++;
            if (!eq[x][x]) run.violation(O({{"kind", J("pair")}, {"P", J("rapidjson")}, {"Q", J("rapidjson")}, {"x", vs[x]}, {"y", vs[x]}}), "not reflexive");
            for (size_t y = 0; y < n; y++) for (size_t z = 0; z < n; z++) {
                run.c("triples")++;
                if (eq[x][y] && eq[y][z] && !eq[x][z]) { run.violation(O({{"kind", J("triple")}, {"x", vs[x]}, {"y", vs[y]}, {"z", vs[z]}}), "not transitive"); return; }
            }
        }
        return;
    }
    // const / enum / uniqueItems through the validator
    for (size_t x = 0; x < vs.size(); x++) {
        if (!run.mine(x) || run.full()) continue;
        std::vector<std::unique_ptr<Schema>> sc;
        std::vector<std::string> nm;
        for (auto *P : ls) for (std::string kind : {"const", "enum"}) {
            if (!P->can(vs[x])) continue;
            int draft; J s; schemaFor(kind, vs[x], draft, s);
            run.slot(0, O({{"kind", J(kind)}, {"P", J(P->name)}, {"Q", J(P->name)}, {"x", vs[x]}, {"y", vs[x]}}).str());
            auto sh = P->build(s); sc.emplace_back(new Schema); SchemaParser p(ver(draft)); sh->populate(p, *sc.back());
            nm.push_back(kind + " " + P->name);
            run.c("values_held")++;
        }
        for (auto *Q : ls) for (auto &y : vs) {
            if (!Q->can(y) || run.full()) continue;
            auto ih = Q->build(y);
            bool eq = jeq(vs[x], y);
            Validator v;
            for (size_t k = 0; k < sc.size(); k++) {
                run.c("pairs")++; run.c("comparisons")++;
                bool got = ih->validate(v, *sc[k], nullptr);
                if (got != eq) {
                    std::string kind = nm[k].substr(0, nm[k].find(' ')), P = nm[k].substr(kind.size() + 1);
                    run.violation(O({{"kind", J(kind)}, {"P", J(P)}, {"Q", J(Q->name)}, {"x", vs[x]}, {"y", y}}), nm[k] + "/" + Q->name + (got ? " accepts" : " rejects"));
                }
            }
        }
        Schema us; { int d; J s; schemaFor("unique", J(), d, s); auto sh = ls[0]->build(s); SchemaParser p(ver(d)); sh->populate(p, us); }
        for (auto *Q : ls) for (auto &y : vs) {
            if (!Q->can(A({vs[x], y})) || run.full()) continue;
            run.slot(0, O({{"kind", J("unique")}, {"P", J("rapidjson")}, {"Q", J(Q->name)}, {"x", vs[x]}, {"y", y}}).str());
            run.c("pairs")++; run.c("comparisons")++;
            auto ih = Q->build(A({vs[x], y}));
            Validator v;
            if (ih->validate(v, us, nullptr) == jeq(vs[x], y)) run.violation(O({{"kind", J("unique")}, {"P", J("rapidjson")}, {"Q", J(Q->name)}, {"x", vs[x]}, {"y", y}}), Q->name + ": uniqueItems wrong");
        }
    }
}

// ------------------------------------------------------------------------ C16
static const std::vector<uint64_t> &u64s() {
    static std::vector<uint64_t> v = {0, 1, 2147483648ull, 4294967295ull, 4294967296ull, 9007199254740993ull, 9223372036854775807ull, 9223372036854775808ull, 9223372036854775809ull, 18446744073709551615ull, 18446744073709551614ull};
    return v;
}
static std::string c16u(const AdLib &l, uint64_t u) {
    auto h = l.buildU64(u);
    const auto &a = h->ad();
    if (!a.isNumber() || a.isString() || a.isBool() || a.isNull() || a.isArray() || a.isObject()) return "not reported as a number";
    double d = 0;
    if (!a.getNumber(d) || d != (double)u) return "getNumber gives " + J::numText(d);
    if (a.asDouble() != (double)u) return "asDouble";
    int64_t i = 5;
    bool fits = u <= (uint64_t)INT64_MAX;
    bool r = a.getInteger(i);
    if (r && (!fits || i != (int64_t)u)) return "getInteger gives " + std::to_string(i);
    if (!r && i != 5) return "getInteger altered its output";
    if (fits && !r) return "getInteger refused";
    i = 5; r = a.asInteger(i);
    if (r && (!fits || i != (int64_t)u)) return "asInteger gives " + std::to_string(i);
    if (a.maybeInteger() && !r) return "maybeInteger but asInteger fails";
    if (a.isInteger() == false && a.isDouble() == false) return "neither integer nor double";
    auto h2 = l.buildU64(u);
    if (!a.equalTo(h2->ad(), true)) return "differs from itself";
    std::unique_ptr<adapters::FrozenValue> f(a.freeze());
    if (!f->equalTo(h2->ad(), true)) return "frozen copy differs";
    return "";
}
static std::string c16one(const AdLib &l, const J &v) {
    auto h = l.build(v);
    J n = h->native();
    // the library itself must have kept the value, or the alphabet is wrong for it
    if (l.typed && !jeq(n, v)) return "HARNESS: " + l.name + " holds " + n.str() + " for " + v.str();
    std::string m;
    try { m = h->walk(); } catch (const std::exception &e) { m = std::string("reading threw ") + e.what(); }
    if (!m.empty()) return l.name + ": " + m;
    if (h->ad().hasStrictTypes() != l.typed) return l.name + ": hasStrictTypes";
    return "";
}
static void c16(Run &run) {
    auto vs = values(run.thorough());
    if (run.part == "many") {
        vs = ladderInts(); for (auto &x : fam::ladderNumbers(run.thorough())) if (x.t == J::Dbl) vs.push_back(x);
        for (int n = 0; n <= 40; n++) { J a = J::arr(), o = J::obj(); for (int k = 0; k < n; k++) { a.push(J(k)); o.set(fam::nm(k), J(k)); } vs.push_back(a); vs.push_back(o); vs.push_back(J(std::string(n, 'x'))); vs.push_back(J(std::string(n, '\0'))); }
        for (int n : manySizes(true)) for (auto &x : manyGroup(n, {0, n - 1}, 130)) vs.push_back(x);
        for (int n : {255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537}) { vs.push_back(J(std::string(n, 'x'))); vs.push_back(O({{std::string(n, 'x'), J(1)}})); std::string s(n, 'y'); s[n - 1] = 0; vs.push_back(J(s)); }
    }
    if (run.thorough() && run.part != "many") { auto more = values(false); for (auto &x : more) for (auto &y : leaves()) { vs.push_back(A({x, y})); vs.push_back(O({{"k", x}, {"a", y}})); } }
    uint64_t idx = 0;
    for (auto &l : adLibs()) {
        if (run.mine(idx++)) {
            run.slot(0, O({{"lib", J(l.name)}, {"defaults", J(true)}}).str());
            std::string m;
            try { m = l.defaults(); } catch (const std::exception &e) { m = std::string("threw ") + e.what(); }
            run.c("values_held")++; run.c("walks")++;
            if (!m.empty()) run.violation(O({{"lib", J(l.name)}, {"defaults", J(true)}}), l.name + ": " + m);
        }
        if (l.buildU64) for (auto u : u64s()) if (run.mine(idx++)) {
            J cs = O({{"lib", J(l.name)}, {"u64", J(std::to_string(u))}});
            run.slot(0, cs.str());
            std::string m; try { m = c16u(l, u); } catch (const std::exception &e) { m = std::string("threw ") + e.what(); }
            run.c("values_held")++; run.c("walks")++;
            if (!m.empty()) run.violation(cs, l.name + ": " + std::to_string(u) + ": " + m);
        }
        for (auto &v : vs) {
            if (!run.mine(idx++) || run.full()) continue;
            if (!l.can(v)) { run.c("values_the_library_cannot_hold")++; continue; }
            J cs = O({{"lib", J(l.name)}, {"value", v}});
            run.slot(0, cs.str());
            run.c("values_held")++; run.c("walks")++;
            run.distinct["held_values"].insert(Run::hash(l.name + v.str()));
            std::string m = c16one(l, v);
            if (!m.empty()) run.violation(cs, m);
            if (idx % 331 == 7) run.sample(cs);
        }
    }
}

// ------------------------------------------------------------------------ C17
static std::string c17one(const AdLib &l, const J &v) {
    auto h = l.build(v);
    std::string m;
    try { m = h->weak(); } catch (const std::exception &e) { m = std::string("threw ") + e.what(); }
    return m.empty() ? "" : l.name + ": " + m;
}
static std::string stdStr(const std::string &s) {
    adapters::StdStringAdapter a(s);
    // empty text counts as an empty object here; leave that view to each adapter
    bool mo = a.maybeObject(), ma = a.maybeArray();
    std::string err;
    try {
        if (!a.isString() || a.isBool() || a.isNull() || a.isNumber() || a.isArray() || a.isObject()) return "type";
        if (a.maybeNull() != s.empty()) return "null view";
        if (a.maybeBool() != (s == "true" || s == "false")) return "boolean view";
        bool b = true; if (a.asBool(b) != a.maybeBool() || (!a.maybeBool() && !b)) return "asBool";
        if (a.maybeBool() && (b != (s == "true") || a.asBool() != b)) return "boolean value";
        int64_t i = 77; if (a.asInteger(i) != a.maybeInteger() || (!a.maybeInteger() && i != 77)) return "asInteger";
        double d = 5.25; if (a.asDouble(d) != a.maybeDouble() || (!a.maybeDouble() && d != 5.25)) return "asDouble";
        if (a.maybeInteger() && (!a.maybeDouble() || d != (double)i || a.asInteger() != i)) return "integer and number views differ";
        if (a.maybeDouble() && !(a.asDouble() == d) && d == d) return "asDouble value";
        std::string t; if (!a.asString(t) || t != s || a.asString() != s || a.getString() != s) return "string value";
        if (ma && !a.applyToArray([](const adapters::Adapter &) { return true; })) return "applyToArray";
        if (mo && !a.applyToObject([](const std::string &, const adapters::Adapter &) { return true; })) return "applyToObject";
        if (mo) (void)a.asObject();
        if (ma) (void)a.asArray();
    } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
    return err;
}
static std::vector<J> typeSchemas(int draft) {
    std::vector<J> out;
    std::vector<const char *> types = {"null", "boolean", "integer", "number", "string", "array", "object"};
    if (draft == 3) types.push_back("any");
    for (auto t : types) out.push_back(O({{"type", J(t)}}));
    for (auto t : types) for (auto u : types) if (t != u) out.push_back(O({{"type", A({J(t), J(u)})}}));
    size_t n = out.size();
    for (size_t k = 0; k < n; k++) {
        out.push_back(O({{"items", out[k]}}));
        out.push_back(O({{"properties", O({{"a", out[k]}})}}));
        out.push_back(O({{"additionalProperties", out[k]}}));
        out.push_back(O({{"items", A({out[k]})}, {"additionalItems", out[(k * 7) % n]}}));
        if (draft != 3) { out.push_back(O({{"allOf", A({out[k], out[(k * 5) % n]})}})); out.push_back(O({{"anyOf", A({out[k], out[(k * 3) % n]})}})); }
        else { out.push_back(O({{"extends", out[k]}})); out.push_back(O({{"type", A({J("null"), out[k]})}})); }
        out.push_back(O({{"dependencies", O({{"a", out[k]}})}}));
    }
    return out;
}
static std::string c17val(int draft, const J &schema, const AdLib &Q, const J &doc, bool typeOnly) {
    auto sh = adLib("rapidjson").build(schema);
    Schema s; SchemaParser p(ver(draft)); sh->populate(p, s);
    auto h = Q.build(doc);
    std::string before = h->native().str();
    Validator st(Validator::kStrongTypes), wk(Validator::kWeakTypes);
    bool a = false, b = false;
    try { b = h->validate(wk, s, nullptr); ValidationResults r; bool c = h->validate(wk, s, &r); if (b != c) return "weak verdicts differ with and without results"; }
    catch (const std::exception &e) { return Q.name + ": weak validation threw " + e.what(); }
    if (Q.typed && typeOnly) {
        a = h->validate(st, s, nullptr);
        if (a && !b) return Q.name + ": strict types accept what weak types reject";
    }
    if (h->native().str() != before) return "validation changed the document";
    return "";
}
static std::vector<J> weakDocs() {
    std::vector<J> out = {J(), J(true), J(1), J(-3), J(1.0), J(1.5), J(1e300), J(9223372036854775808.0), J(""), J("a"), J("true"), J("1"), J("1.5"), J("9223372036854775808"), J("-"), J(nul("a", "b")), J::arr(), J::obj()};
    size_t n = out.size();
    for (size_t k = 0; k < n; k++) { out.push_back(A({out[k]})); out.push_back(O({{"a", out[k]}})); out.push_back(A({out[k], J("x")})); out.push_back(O({{"a", J::obj()}, {"b", out[k]}})); }
    out.push_back(A({A({J("")}), O({{"a", J("")}}), J("")}));
    out.push_back(A({J(""), J(""), J()})); out.push_back(A({J(1), J("1"), J(1.0)})); out.push_back(A({J::arr(), J::obj(), J("")}));
    out.push_back(O({{"", J(1)}, {"a", J("")}})); out.push_back(O({{"true", J(1)}, {"1", J(2)}, {"1.5", J(3)}}));
    return out;
}
static void atoms(int draft, std::vector<J> &out) {
    out = fam::scalarAtoms(draft, false);
    std::vector<J> it, ad, rest; fam::arrayAtoms(draft, it, ad, rest);
    for (auto *l : {&it, &ad, &rest}) out.insert(out.end(), l->begin(), l->end());
    std::vector<J> pr, pp, ap, ro; fam::objectAtoms(draft, pr, pp, ap, ro);
    for (auto *l : {&pr, &pp, &ap, &ro}) out.insert(out.end(), l->begin(), l->end());
    std::vector<J> b = {O({{"type", J("integer")}}), O({{"minimum", J(2)}}), O({{"type", J("string")}}), J::obj()};
    if (draft == 7) { b.push_back(J(true)); b.push_back(J(false)); }
    auto c = fam::combOver(draft, b, false); out.insert(out.end(), c.begin(), c.end());
    J I = O({{"type", J("integer")}}), S = O({{"minLength", J(1)}});
    for (const char *f : {"date", "time", "date-time", "ipv4", "uri"}) out.push_back(O({{"format", J(f)}}));
    for (auto &x : {I, S}) { out.push_back(O({{"properties", O({{"a", x}, {"b", x}})}, {"additionalProperties", J(false)}, {"items", x}, {"maxItems", J(1)}})); out.push_back(O({{"items", O({{"items", x}, {"properties", O({{"a", x}})}})}, {"properties", O({{"a", O({{"items", x}})}})}})); }
}
static void c17(Run &run) {
    uint64_t idx = 0;
    if (run.part == "views") {
        std::vector<J> vs = values(run.thorough());
        for (auto &t : texts(run.thorough())) vs.push_back(J(t));
        for (auto &x : ladderInts()) { vs.push_back(x); vs.push_back(J(std::to_string(x.i))); vs.push_back(J(std::to_string(x.i) + ".0")); vs.push_back(J("0" + std::to_string(x.i))); }
        for (auto &x : fam::ladderNumbers(false)) if (x.t == J::Dbl) { vs.push_back(x); vs.push_back(J(J::numText(x.d))); }
        for (int n : {17, 18, 19, 20, 21, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 300, 309, 310, 400, 1000, 1100}) { std::string d(n, '7'), z(n, '0'); for (auto &t : {d, "-" + d, z + "1", "0." + z + "1", d + "." + d, d + "e-" + std::to_string(n), "1e" + d, d + "x", std::string(n, ' '), std::string(n, 'x'), d + " "}) vs.push_back(J(t)); }
        for (auto &l : adLibs()) for (auto &v : vs) {
            if (!run.mine(idx++) || run.full()) continue;
            if (!l.can(v)) { run.c("values_the_library_cannot_hold")++; continue; }
            J cs = O({{"lib", J(l.name)}, {"value", v}});
            run.slot(0, cs.str());
            run.c("values_held")++; run.c("view_checks")++;
            run.distinct["held_values"].insert(Run::hash(l.name + v.str()));
            std::string m = c17one(l, v);
            if (!m.empty()) run.violation(cs, m);
            if (idx % 1331 == 7) run.sample(cs);
        }
        for (auto &v : vs) if (v.t == J::Str) {
            if (!run.mine(idx++) || run.full()) continue;
            J cs = O({{"lib", J("std::string")}, {"value", v}});
            run.slot(0, cs.str()); run.c("values_held")++; run.c("view_checks")++;
            std::string m = stdStr(v.s);
            if (!m.empty()) run.violation(cs, "std::string adapter: " + m);
        }
        return;
    }
    if (run.part == "numeric") {
        // numeric keywords see the number a text denotes, in every library
        std::vector<J> nums; for (auto &x : fam::ladderNumbers(false)) if (std::fabs(x.num()) < 9e15 && std::fabs(x.num()) > 1e-6) nums.push_back(x); nums.push_back(J(0)); nums.push_back(J(1.5)); nums.push_back(J(7)); nums.push_back(J(9));
        for (int draft : {3, 4, 7}) for (auto &lim : {J(2), J(-2), J(1.5), J(1024), J(1024.5), J(7), J(0.5), J(3), J(100), J(0)}) {
            std::vector<J> ss = {O({{"minimum", lim}}), O({{"maximum", lim}})};
            if (draft == 7) { ss.push_back(O({{"exclusiveMinimum", lim}})); ss.push_back(O({{"exclusiveMaximum", lim}})); } else { ss.push_back(O({{"minimum", lim}, {"exclusiveMinimum", J(true)}})); ss.push_back(O({{"maximum", lim}, {"exclusiveMaximum", J(true)}})); }
            if (lim.num() > 0) ss.push_back(O({{draft == 3 ? "divisibleBy" : "multipleOf", lim}}));
            ss.push_back(O({{"type", J("number")}})); ss.push_back(O({{"type", J("integer")}}));
            for (auto &schema : ss) {
                if (!run.mine(idx++) || run.full()) continue;
                run.c("schemas")++; run.slot(0, O({{"draft", J(draft)}, {"numeric", J(true)}, {"schema", schema}, {"doc", J()}, {"lib", J("rapidjson")}}).str()); run.slot(1, "");
                auto sh = adLib("rapidjson").build(schema); Schema s; SchemaParser p(ver(draft)); sh->populate(p, s); ref::Eval ev(draft); Validator wk(Validator::kWeakTypes);
                for (auto &x : nums) {
                    bool want = ev.valid(schema, x); std::string t = x.t == J::Int ? std::to_string(x.i) : J::numText(x.d);
                    if (schema.get("type") && x.t == J::Dbl) continue;     // text with a point is no integer text
                    const J *dv = schema.get(draft == 3 ? "divisibleBy" : "multipleOf"); if (dv && ref::Eval::multipleIsOpen(x, *dv)) continue;
                    for (auto &l : adLibs()) for (auto &d : {x, J(t)}) {
                        if (!l.can(d) || run.full()) continue;
                        run.c("validations")++; auto h = l.build(d); bool got = h->validate(wk, s, nullptr);
                        if (got != want) run.violation(O({{"draft", J(draft)}, {"numeric", J(true)}, {"schema", schema}, {"doc", d}, {"number", x}, {"lib", J(l.name)}}), l.name + ": weak verdict " + std::to_string(got) + " on " + d.str() + ", the number gives " + std::to_string(want));
                    }
                }
            }
        }
        // and so do the keywords that compare values, at every depth
        std::vector<std::function<J(const J &)>> ws = {[](const J &x) { return x; }, [](const J &x) { return O({{"a", x}}); }, [](const J &x) { return A({x}); }, [](const J &x) { return O({{"a", A({J("z"), O({{"b", x}, {"c", J(true)}})})}}); },
            [](const J &x) { return A({A({A({x, x})}), J("q")}); }, [](const J &x) { J o = J::obj(), a = J::arr(); for (int k = 0; k < 12; k++) { o.set("m" + std::to_string(k), k == 7 ? x : J("s")); a.push(k == 9 ? x : J(k + 50)); } return O({{"o", o}, {"r", a}}); }};
        std::vector<J> some = {J(0), J(1), J(-1), J(2), J(1.5), J(1024), J(-2.5), J(999999999), J(4294967297), J(0.125)};
        for (int draft : {3, 4, 7}) for (size_t w = 0; w < ws.size(); w++) for (auto &lim : some) for (int kw = 0; kw < (draft == 7 ? 3 : 2); kw++) {
            if (!run.mine(idx++) || run.full()) continue;
            J L = ws[w](lim); J schema = kw == 2 ? O({{"const", L}}) : kw ? O({{"enum", A({J("other"), J(), ws[w](J("z")), L})}}) : O({{"enum", A({L})}});
            run.c("schemas")++; run.slot(0, O({{"draft", J(draft)}, {"numeric", J(true)}, {"schema", schema}, {"doc", J()}, {"lib", J("rapidjson")}}).str()); run.slot(1, "");
            auto sh = adLib("rapidjson").build(schema); Schema s; SchemaParser p(ver(draft)); sh->populate(p, s); ref::Eval ev(draft); Validator wk(Validator::kWeakTypes);
            for (auto &x : some) {
                J num = ws[w](x); bool want = ev.valid(schema, num); std::string t = x.t == J::Int ? std::to_string(x.i) : J::numText(x.d);
                for (auto &l : adLibs()) for (auto &d : {num, ws[w](J(t))}) {
                    if (!l.can(d) || run.full()) continue;
                    run.c("validations")++; auto h = l.build(d); bool got = h->validate(wk, s, nullptr);
                    if (got != want) run.violation(O({{"draft", J(draft)}, {"numeric", J(true)}, {"schema", schema}, {"doc", d}, {"number", num}, {"lib", J(l.name)}}), l.name + ": weak verdict " + std::to_string(got) + " on " + d.str() + ", the number gives " + std::to_string(want));
                }
            }
        }
        return;
    }
    auto docs = weakDocs();
    for (int draft : {3, 4, 7}) {
        std::vector<J> ss = typeSchemas(draft); size_t nt = ss.size();
        std::vector<J> at; atoms(draft, at); ss.insert(ss.end(), at.begin(), at.end());
        for (size_t k = 0; k < ss.size(); k++) {
            if (!run.mine(idx++) || run.full()) continue;
            run.c("schemas")++;
            auto sh = adLib("rapidjson").build(ss[k]);
            run.slot(0, "{\"draft\":" + std::to_string(draft) + ",\"typeOnly\":" + (k < nt ? "true" : "false") + ",\"schema\":" + ss[k].str());
            Schema s; SchemaParser p(ver(draft)); sh->populate(p, s);
            for (auto &l : adLibs()) for (auto &d : docs) {
                if (!l.can(d) || run.full()) continue;
                run.slot(1, ",\"lib\":\"" + l.name + "\",\"doc\":" + d.str() + "}");
                run.c("validations") += 3;
                std::string m;
                {
                    static std::map<std::string, std::unique_ptr<Handle>> cache;
                    auto &h = cache[l.name + d.str()];
                    if (!h) h = l.build(d);
                    Validator st(Validator::kStrongTypes), wk(Validator::kWeakTypes);
                    try {
                        bool b = h->validate(wk, s, nullptr); ValidationResults r; bool c = h->validate(wk, s, &r);
                        if (b != c) m = "x"; else if (l.typed && k < nt && !b && h->validate(st, s, nullptr)) m = "x";
                    } catch (const std::exception &) { m = "x"; }
                }
                if (!m.empty()) {
                    m = c17val(draft, ss[k], l, d, k < nt);
                    run.violation(O({{"draft", J(draft)}, {"typeOnly", J(k < nt)}, {"schema", ss[k]}, {"lib", J(l.name)}, {"doc", d}}), m.empty() ? "fails only after other validations" : m);
                }
            }
            run.slot(1, "");
        }
    }
}

// ------------------------------------------------------------------------ C15
struct Res { int v = -1; std::string errs; };
static Res validateOne(const Handle &h, const Schema &s, bool weak) {
    Res r; ValidationResults vr;
    Validator v(weak ? Validator::kWeakTypes : Validator::kStrongTypes);
    try { r.v = h.validate(v, s, &vr); } catch (const std::exception &e) { r.errs = std::string("threw ") + e.what(); return r; }
    std::vector<std::string> l;
    for (auto &e : vr) l.push_back(e.jsonPointer);
    std::sort(l.begin(), l.end());
    for (auto &x : l) r.errs += x + "\n";
    return r;
}
static std::vector<J> c15docs() {
    auto d = weakDocs();
    std::vector<J> more = {J(2), J(7.0), J(2.5), J(9007199254740993LL), J("b"), J("ab"), J("\xf0\x9f\x98\x80"), A({J(1), J(1)}), A({J(1), J("x"), J(), J(1.0)}), O({{"b", J(2)}, {"a", J(1)}}), O({{"a", J(1)}, {"b", J("x")}, {"c", J()}}),
        O({{"a/b", J(1)}, {"a~b", J(2)}, {"%41", J(3)}, {nul("a", "b"), J(4)}}), O({{"ab", J("x")}, {"ba", J("y")}, {"b", J("z")}}), A({A({J("x")}), O({{"a", J("x")}}), A({J(1)})}), J("2024-02-29"), J("12:00:00Z"), J("1.2.3.4"), J("2024-01-01T00:00:00Z")};
    d.insert(d.end(), more.begin(), more.end());
    return d;
}
static std::string c15one(int draft, const J &schema, const AdLib &P, const AdLib &Q, const J &doc, bool weak, bool textPair) {
    SchemaParser p1(ver(draft)), p2(ver(draft)); Schema s1, s2;
    auto h1 = (textPair ? P : adLib("rapidjson")).build(schema), h2 = (textPair ? P : P).build(schema);
    h1->populate(p1, s1); h2->populate(p2, s2);
    auto d1 = textPair ? adLib("ptree").build(doc) : adLib("rapidjson").build(doc);
    auto d2 = textPair ? adLib("yaml").build(doc) : Q.build(doc);
    Res a = validateOne(*d1, s1, weak), b = validateOne(*d2, s2, weak);
    if (a.v == b.v && a.errs == b.errs) return "";
    return (textPair ? "ptree" : "rapidjson") + std::string(" says ") + std::to_string(a.v) + " [" + a.errs + "], " + (textPair ? "yaml" : P.name + "/" + Q.name) + " says " + std::to_string(b.v) + " [" + b.errs + "]";
}
static void c15(Run &run) {
    auto docs = c15docs();
    auto ls = libs(true), tx = libs(false);
    static std::map<std::string, std::unique_ptr<Handle>> cache;
    auto held = [&](const AdLib &l, const J &d) -> Handle * {
        if (!l.can(d)) return nullptr;
        auto &h = cache[l.name + d.str()]; if (!h) h = l.build(d); return h.get();
    };
    uint64_t idx = 0;
    for (int draft : {3, 4, 7}) {
        auto one = [&](const J &schema, bool all) {
            if (!run.mine(idx++) || run.full()) return;
            run.c("schemas")++;
            std::string st = schema.str();
            run.slot(0, "{\"draft\":" + std::to_string(draft) + ",\"schema\":" + st + ",\"P\":");
            run.slot(1, "\"rapidjson\",\"Q\":\"rapidjson\",\"doc\":null}");
            Schema rs; { auto h = adLib("rapidjson").build(schema); SchemaParser p(ver(draft)); h->populate(p, rs); }
            std::vector<Res> want; ref::Eval ev(draft);
            for (auto &d : docs) { want.push_back(validateOne(*held(adLib("rapidjson"), d), rs, false)); }
            for (auto *P : ls) {
                if (!P->can(schema)) { run.c("schemas_not_representable")++; continue; }
                Schema s;
                run.slot(1, "\"" + P->name + "\",\"Q\":\"rapidjson\",\"doc\":null}");
                try { auto h = P->build(schema); SchemaParser p(ver(draft)); h->populate(p, s); }
                catch (const std::exception &e) { run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"P", J(P->name)}, {"Q", J("rapidjson")}, {"doc", J()}}), P->name + ": schema rejected: " + e.what()); continue; }
                for (auto *Q : ls) {
                    if (!all && P != ls[0] && Q != ls[0] && P != Q) continue;
                    for (size_t k = 0; k < docs.size() && !run.full(); k++) {
                        Handle *h = held(*Q, docs[k]);
                        if (!h) continue;
                        run.progress++;
                        run.c("validations")++;
                        Res r = validateOne(*h, s, false);
                        if (r.v != want[k].v || r.errs != want[k].errs)
                            run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"P", J(P->name)}, {"Q", J(Q->name)}, {"doc", docs[k]}}),
                                c15one(draft, schema, *P, *Q, docs[k], false, false));
                    }
                }
            }
            for (size_t k = 0; k < docs.size(); k++) { bool w; try { w = ev.valid(schema, docs[k]); } catch (const std::exception &) { continue; } run.c(w ? "reference_valid" : "reference_invalid")++; run.c("model_steps")++;
                if (!schema.get("format") && docs[k].str() != "9007199254740993" && want[k].v != (int)w) run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"P", J("rapidjson")}, {"Q", J("rapidjson")}, {"doc", docs[k]}, {"oracle", J(true)}}), "rapidjson verdict differs from the draft"); }
            // text-typed pair, weak types: schema held by a typed library, and by each text library
            std::vector<const AdLib *> sl = {ls[0]}; for (auto *t : tx) sl.push_back(t);
            for (auto *P : sl) {
                if (!P->can(schema)) continue;
                Schema s; SchemaParser p(ver(draft));
                try { auto h = P->build(schema); h->populate(p, s); } catch (const std::exception &) { run.c("text_schemas_refused")++; continue; }
                for (auto &d : docs) {
                    if (run.full()) break;
                    Handle *x = held(adLib("ptree"), d), *y = held(adLib("yaml"), d);
                    if (!x || !y) continue;
                    run.c("weak_validations") += 2;
                    Res a = validateOne(*x, s, true), b = validateOne(*y, s, true);
                    if (a.v != b.v || a.errs != b.errs)
                        run.violation(O({{"draft", J(draft)}, {"schema", schema}, {"P", J(P->name)}, {"Q", J("ptree/yaml")}, {"doc", d}}), c15one(draft, schema, *P, *P, d, true, true));
                }
            }
            run.distinct["schema_texts"].insert(Run::hash(std::to_string(draft) + st));
            if (idx % 501 == 3) run.sample(O({{"draft", J(draft)}, {"schema", schema}}));
        };
        std::vector<J> at; atoms(draft, at);
        if (run.part == "many") {
            // longer and larger: groups of the size ladders, schemas and documents in every library
            for (const char *f : {"many-scalar", "many-object", "many-array", "many-comb"}) {
                uint64_t gi = 0;
                fam::ladder(f, draft, false, [&](const std::function<fam::Group()> &make) {
                    if (!run.mine(gi++ / (run.thorough() ? 1 : 5)) || (!run.thorough() && gi % 5 != 1) || run.full()) return;
                    fam::Group g = make();
                    std::vector<size_t> pick; for (size_t k = 0; k < g.instances.size(); k += std::max<size_t>(1, g.instances.size() / 24)) pick.push_back(k);
                    std::vector<Schema> ss(g.schemas.size()); std::vector<J> hold;
                    for (auto *P : ls) for (size_t k = 0; k < g.schemas.size(); k++) {
                        if (!P->can(g.schemas[k])) continue;
                        run.slot(0, O({{"draft", J(draft)}, {"schema", g.schemas[k]}, {"P", J(P->name)}, {"Q", J("rapidjson")}, {"doc", J()}}).str()); run.slot(1, "");
                        Schema s; { auto h = P->build(g.schemas[k]); SchemaParser p(ver(draft)); h->populate(p, s); }
                        run.c("schemas")++; run.distinct["schema_texts"].insert(Run::hash(std::to_string(draft) + g.schemas[k].str()));
                        ref::Eval ev(draft);
                        for (auto *Q : ls) {
                            if (P != ls[0] && Q != ls[0] && P != Q) continue;
                            for (size_t q : pick) {
                                const J &d = g.instances[q]; Handle *h; if (run.full() || !(h = held(*Q, d))) continue;
                                bool w = ev.valid(g.schemas[k], d); run.c("validations")++; run.c("model_steps")++; if (Q == P) run.c(w ? "reference_valid" : "reference_invalid")++;
                                run.progress++; Res r = validateOne(*h, s, false);
                                if (r.v != (int)w) run.violation(O({{"draft", J(draft)}, {"schema", g.schemas[k]}, {"P", J(P->name)}, {"Q", J(Q->name)}, {"doc", d}, {"verdict", J(true)}}), P->name + "/" + Q->name + ": verdict " + std::to_string(r.v) + ", the draft says " + std::to_string(w) + " " + r.errs);
                            }
                        }
                    }
                    cache.clear();
                });
            }
            continue;
        }
        for (auto &s : at) one(s, true);
        if (run.thorough()) for (const char *f : {"array", "comb", "object", "scalar"}) fam::make(f, draft, false).schemas([&](const J &s) { one(s, false); });
    }
}

std::string replayCase(Run &run, const J &c) {
    auto S = [&](const char *k) { return c.get(k)->s; };
    if (run.prop == "C06") {
        std::string kind = S("kind");
        if (kind == "triple") {
            auto x = adLib("rapidjson").build(*c.get("x")), y = adLib("rapidjson").build(*c.get("y")), z = adLib("rapidjson").build(*c.get("z"));
            return x->ad().equalTo(y->ad(), true) && y->ad().equalTo(z->ad(), true) && !x->ad().equalTo(z->ad(), true) ? "not transitive" : "";
        }
        const AdLib &P = adLib(S("P")), &Q = adLib(S("Q"));
        if (kind == "pair") {
            auto x = P.build(*c.get("x")), y = Q.build(*c.get("y"));
            std::unique_ptr<adapters::FrozenValue> fx(x->ad().freeze()), fy(y->ad().freeze());
            try {
                std::string m = eqPair(*x, *y, fx.get(), fy.get(), jeq(x->native(), y->native())); if (!m.empty()) return m;
                fx.reset(fx->clone()); fy.reset(fy->clone());
                return eqPair(*x, *y, fx.get(), fy.get(), jeq(x->native(), y->native()));
            } catch (const std::exception &e) { return std::string("comparison threw ") + e.what(); }
        }
        return eqSchema(kind, P, Q, *c.get("x"), *c.get("y"));
    }
    if (run.prop == "C16") {
        const AdLib &l = adLib(S("lib"));
        if (c.get("defaults")) return l.defaults();
        if (c.get("u64")) return c16u(l, strtoull(S("u64").c_str(), nullptr, 10));
        return c16one(l, *c.get("value"));
    }
    if (run.prop == "C17") {
        if (c.get("numeric")) { int draft = (int)c.get("draft")->i; ref::Eval ev(draft); auto sh = adLib("rapidjson").build(*c.get("schema")); Schema s; SchemaParser p(ver(draft)); sh->populate(p, s); Validator wk(Validator::kWeakTypes); return adLib(S("lib")).build(*c.get("doc"))->validate(wk, s, nullptr) == ev.valid(*c.get("schema"), c.get("number") ? *c.get("number") : J()) ? "" : "weak verdict differs from that of the number"; }
        if (c.get("schema")) return c17val((int)c.get("draft")->i, *c.get("schema"), adLib(S("lib")), *c.get("doc"), c.get("typeOnly")->b);
        if (S("lib") == "std::string") return stdStr(c.get("value")->s);
        return c17one(adLib(S("lib")), *c.get("value"));
    }
    bool text = S("Q") == "ptree/yaml";
    if (c.get("verdict")) { int draft = (int)c.get("draft")->i; ref::Eval ev(draft); auto h = adLib(S("P")).build(*c.get("schema")); Schema s; SchemaParser p(ver(draft)); h->populate(p, s); auto d = adLib(S("Q")).build(*c.get("doc")); return validateOne(*d, s, false).v == (int)ev.valid(*c.get("schema"), *c.get("doc")) ? "" : "verdict"; }
    if (c.get("oracle")) { ref::Eval ev((int)c.get("draft")->i); auto h = adLib("rapidjson").build(*c.get("schema")); Schema s; SchemaParser p(ver((int)c.get("draft")->i)); h->populate(p, s); auto d = adLib("rapidjson").build(*c.get("doc")); return validateOne(*d, s, false).v == (int)ev.valid(*c.get("schema"), *c.get("doc")) ? "" : "verdict differs from the draft"; }
    return c15one((int)c.get("draft")->i, *c.get("schema"), adLib(S("P")), adLib(text ? S("P") : S("Q")), *c.get("doc"), text, text);
}
void explore(Run &run) {
    if (run.prop == "C06") c06(run);
    else if (run.prop == "C16") c16(run);
    else if (run.prop == "C17") c17(run);
    else c15(run);
}
