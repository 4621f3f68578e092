// C07 (string length), C13 (JSON Pointers), C14 (URI references), C24 (numbers
// in text): bounded languages of strings against small models.
#include "../lib/rj.hpp"
#include "../lib/ref.hpp"
#include "../lib/families.hpp"
#include "../lib/harness.hpp"
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include <valijson/internal/json_pointer.hpp>
#include <valijson/internal/uri.hpp>
#include <valijson/utils/utf8_utils.hpp>
#include <clocale>
#include <locale>
using namespace valijson;
using fam::O; using fam::A; using fam::nul;

static J hexJ(const std::string &s) {   // raw bytes survive JSON as hex
    static const char *h = "0123456789abcdef"; std::string r;
    for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
    return J(r);
}
static std::string unhex(const std::string &h) { std::string r; for (size_t k = 0; k + 1 < h.size(); k += 2) r += (char)(ref::hexv(h[k]) * 16 + ref::hexv(h[k + 1])); return r; }

// ======================================================================== C07
static int utf8len(const std::string &s) {   // code points, or -1 if not well-formed (RFC 3629)
    int n = 0; size_t k = 0;
    while (k < s.size()) {
        unsigned char c = s[k]; int l; uint32_t v, lo;
        if (c < 0x80) { k++; n++; continue; }
        if (c >= 0xc2 && c <= 0xdf) { l = 1; v = c & 31; lo = 0x80; }
        else if ((c & 0xf0) == 0xe0) { l = 2; v = c & 15; lo = 0x800; }
        else if (c >= 0xf0 && c <= 0xf4) { l = 3; v = c & 7; lo = 0x10000; }
        else return -1;
        for (int q = 0; q < l; q++) { k++; if (k >= s.size() || ((unsigned char)s[k] & 0xc0) != 0x80) return -1; v = v << 6 | ((unsigned char)s[k] & 63); }
        if (v < lo || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) return -1;
        k++; n++;
    }
    return n;
}
static char *g_guard = nullptr; static size_t g_page = 4096;
static char *guard() {   // one readable page between two unreadable ones
    if (!g_guard) {
        char *m = (char *)mmap(nullptr, 3 * g_page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m, g_page, PROT_NONE); mprotect(m + 2 * g_page, g_page, PROT_NONE);
        g_guard = m + g_page;
    }
    return g_guard;
}
static std::string c07guard(const std::string &s) {
    int want = utf8len(s);
    char *hi = guard() + g_page - s.size(), *lo = guard();
    memcpy(hi, s.data(), s.size());
    uint64_t a = utils::u8_strlen(hi, s.size());
    memcpy(lo, s.data(), s.size());
    lo[s.size()] = (char)0x80;      // what follows the string must not matter
    uint64_t b = utils::u8_strlen(lo, s.size());
    lo[s.size()] = 'a';
    uint64_t c = utils::u8_strlen(lo, s.size());
    if (a != b || a != c) return "the count depends on what follows the string: " + std::to_string(a) + "/" + std::to_string(b) + "/" + std::to_string(c);
    if (want >= 0 && a != (uint64_t)want) return "counts " + std::to_string(a) + " code points, there are " + std::to_string(want);
    if (a > s.size() || (!s.empty() && a == 0)) return "counts " + std::to_string(a) + " in " + std::to_string(s.size()) + " bytes";
    return "";
}
static std::string c07verdict(int draft, const std::string &s) {
    static std::map<std::string, std::unique_ptr<Schema>> cache;
    int want = utf8len(s);
    long count = -1;
    for (long n = 0; n <= (long)s.size() + 1; n++) for (int mx = 0; mx < 2; mx++) {
        auto &sc = cache[std::to_string(draft) + (mx ? "x" : "n") + std::to_string(n)];
        if (!sc) { rapidjson::Document d; rj::doc(d, O({{mx ? "maxLength" : "minLength", J(n)}})); sc.reset(new Schema); SchemaParser p(rj::ver(draft)); p.populateSchema(rj::Adapter(d), *sc); }
        rapidjson::Document d; d.SetString(s.data(), (rapidjson::SizeType)s.size(), d.GetAllocator());
        bool got[3];
        { Validator v; rj::Adapter ad(d); got[0] = v.validate(*sc, ad, nullptr); }
        { Validator v; ValidationResults r; rj::Adapter ad(d); got[1] = v.validate(*sc, ad, &r); }
        { Validator v(Validator::kWeakTypes); rj::Adapter ad(d); got[2] = v.validate(*sc, ad, nullptr); }
        if (got[0] != got[1] || got[0] != got[2]) return "verdict differs between modes";
        if (want >= 0) {
            if (got[0] != (mx ? want <= n : want >= n)) return std::string(mx ? "maxLength " : "minLength ") + std::to_string(n) + (got[0] ? " accepts " : " rejects ") + std::to_string(want) + " code points";
        } else if (!mx) { if (got[0]) { if (count != n - 1) return "minLength is not monotone"; count = n; } }
    }
    if (want < 0) for (long n = 0; n <= (long)s.size() + 1; n++) {
        rapidjson::Document d; d.SetString(s.data(), (rapidjson::SizeType)s.size(), d.GetAllocator());
        Validator v; rj::Adapter ad(d);
        if (v.validate(*cache[std::to_string(draft) + "x" + std::to_string(n)], ad, nullptr) != (count <= n)) return "minLength and maxLength disagree on the length";
    }
    return "";
}
static void c07(Run &run) {
    uint64_t idx = 0;
    if (run.part == "guard") {
        const std::string al = std::string("\0a\x7f\x80\x8f\xa0\xbf\xc0\xc3\xdf\xe0\xe2\xed\xef\xf0\xf4\xf7\xf8\xff", 19);
        int maxn = run.thorough() ? 6 : 5;
        for (int n = 0; n <= maxn; n++) {
            uint64_t total = 1; for (int k = 0; k < n; k++) total *= al.size();
            for (uint64_t q = 0; q < total; q++) {
                if (!run.mine(idx++ >> 6)) continue;
                if (run.full()) return;
                std::string s(n, 0); uint64_t r = q; for (int k = 0; k < n; k++) { s[k] = al[r % al.size()]; r /= al.size(); }
                if ((q & 63) == 0 || n < 3) run.slot(0, O({{"raw", J(true)}, {"hex", hexJ(s)}}).str()); else run.progress++;
                run.c("strings")++; run.c("length_computations") += 3;
                if (utf8len(s) >= 0) run.c("well_formed")++;
                std::string m = c07guard(s);
                if (!m.empty()) run.violation(O({{"raw", J(true)}, {"hex", hexJ(s)}}), m);
            }
        }
        // long strings: characters of every encoded length at every place and every pair of places, in ASCII text
        // and among each other, and at every offset from the ends
        const std::vector<std::string> u = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", std::string(1, 0), "\x7f"};
        auto one = [&](const std::string &s) {
            run.c("strings")++; run.c("length_computations") += 3; run.c("well_formed")++; run.progress++;
            std::string m = c07guard(s); if (!m.empty()) run.violation(O({{"raw", J(true)}, {"hex", hexJ(s)}}), m);
        };
        std::vector<int> ns; for (int n = 1; n <= (run.thorough() ? 140 : 72); n++) ns.push_back(n); for (int n : {96, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 4000}) ns.push_back(n);
        for (int n : ns) {
            if (!run.mine(idx++) || run.full()) continue;
            run.slot(0, O({{"raw", J(true)}, {"hex", hexJ(std::string(n, 'a'))}}).str());
            std::vector<std::string> base = u; base.push_back("a");
            for (auto &b : base) if ((int)b.size() * n <= 4080) {
                std::string all; for (int k = 0; k < n; k++) all += b; one(all);
                for (auto &x : base) if (x != b && (int)(b.size() * (n - 1) + x.size() * 2) <= 4080) for (int k = 0; k < n; k += n > 300 ? 7 : 1) {
                    std::string s; for (int q = 0; q < n; q++) s += q == k ? x : b; one(s);
                    if (n <= 40 && b == "a") for (auto &y : u) for (int l = k + 1; l < n; l++) { std::string t; for (int q = 0; q < n; q++) t += q == k ? x : q == l ? y : b; one(t); }
                }
            }
        }
        return;
    }
    std::vector<std::string> unit = {"a", std::string(1, 0), "\x7f", "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xed\x9f\xbf", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf"};
    std::vector<std::string> bad = {"\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80", "\xc0\x80"};
    auto test = [&](const std::string &s) {
        int draft = (int[]){3, 4, 7}[idx % 3];
        if (!run.mine(idx++) || run.full()) return;
        J cs = O({{"draft", J(draft)}, {"hex", hexJ(s)}});
        run.slot(0, cs.str());
        run.c("strings")++; run.c("length_computations") += 6 * (s.size() + 2);
        if (utf8len(s) >= 0) run.c("well_formed")++;
        std::string m = c07verdict(draft, s);
        if (!m.empty()) run.violation(cs, m);
        if (idx % 1009 == 5) run.sample(cs);
    };
    for (std::string pad : {std::string(), std::string(17, 'x')}) {
        std::vector<std::string> cur = {pad};
        for (int n = 0; n <= (run.thorough() ? 4 : 3); n++) {
            for (auto &s : cur) test(s);
            std::vector<std::string> nx;
            for (auto &c : cur) { for (auto &u : unit) nx.push_back(c + u); }
            if (n < 3) for (auto &c : cur) for (auto &b : bad) { test(c + b); for (auto &u : unit) { test(c + b + u); if (n < 2) for (auto &w : bad) test(c + b + u + w); } }
            cur = nx;
        }
    }
    for (int n : {60, 255, 256, 1000, 4096}) for (auto &u : unit) { std::string s; for (int k = 0; k < n && (int)s.size() < 300; k++) s += u; test(s); }
}

// ======================================================================== C13
static const std::vector<J> &ptrDocs() {
    static std::vector<J> v;
    if (v.empty()) {
        J in = O({{"a", J(10)}, {"", J(11)}, {"0", J(12)}, {"~", J(13)}, {"/", J(14)}, {"1", J(15)}});
        J big = O({{"", O({{"", J(1)}, {"a", J(2)}})}, {"a", A({J(3), in, A({J(4), J(5)}), O({{"b", J(55)}})})}, {"b", in}, {"~", J(6)}, {"/", J(7)}, {"~1", J(8)}, {"~0", J(9)}, {"~01", J(20)}, {"a/b", O({{"a", J(21)}})}, {"a~b", J(22)}, {"%", J(23)}, {"%41", J(24)}, {"A", J(25)},
            {"0", J(26)}, {"00", J(27)}, {"-", J(28)}, {"1", A({J(29)})}, {nul("a", ""), J(30)}, {nul("a", "b"), J(31)}, {" ", J(32)}, {"#", J(33)}, {"\xc3\xa9", J(34)}, {"%7E", J(35)}, {"+", J(36)}, {"%2", J(37)}, {"b\"c", J(38)}, {"null", J()}, {"e", A({A({A({J(40)})})})}});
        v = {big, A({J(0), J(1), A({J(2), J(3)}), O({{"a", J(4)}, {"0", J(5)}}), J(4), J(5), J(6), J(7), J(8), J(9), J(10), J("eleven")}), J(5), J("a"), J(), J::arr(), J::obj(), A({J::arr(), J::obj()})};
    }
    return v;
}
// what RFC 6901 section 6 designates, nullptr if nothing
static const J *wantPtr(const J &doc, const std::string &p, bool &ambiguous) {
    // an encoded '/' may be read as a separator (decode, then split) or as part of a token (the
    // library splits first); both readings are accepted
    ambiguous = false;
    for (size_t k = 0; k + 2 < p.size() + 0; k++) if (p[k] == '%' && p[k + 1] == '2' && (p[k + 2] == 'F' || p[k + 2] == 'f')) ambiguous = true;
    std::string dec;
    if (!ref::pctDecode(p, dec)) return nullptr;
    return ref::pointer(doc, dec);
}
template <class A, class D> static int gotPtr(const A &root, const D &, const std::string &p, J &out, std::string &err) {
    try {
        A r = internal::json_pointer::resolveJsonPointerStrict(root, p);
        if (r.isNull()) out = J(); else if (r.isInteger()) out = J((long long)r.asInteger()); else if (r.isString()) out = J(r.asString());
        else if (r.isArray()) { out = J::arr(); out.push(J((long long)r.getArraySize())); }
        else if (r.isObject()) { out = J::obj(); out.set("n", J((long long)r.getObjectSize())); }
        return 1;
    } catch (const std::exception &e) { err = e.what(); return 0; }
}
static std::string c13one(size_t di, const std::string &p) {
    static std::vector<std::unique_ptr<rapidjson::Document>> docs; static std::vector<nlohmann::json> nd;
    if (docs.empty()) for (auto &d : ptrDocs()) {
        docs.push_back(std::make_unique<rapidjson::Document>()); rj::doc(*docs.back(), d);
        std::function<nlohmann::json(const J &)> mk = [&](const J &j) -> nlohmann::json {
            if (j.t == J::Null) return nullptr; if (j.t == J::Int) return j.i; if (j.t == J::Str) return j.s;
            if (j.t == J::Arr) { auto r = nlohmann::json::array(); for (auto &x : j.a) r.push_back(mk(x)); return r; }
            auto r = nlohmann::json::object(); for (auto &m : j.o) r[m.first] = mk(m.second); return r; };
        nd.push_back(mk(d));
    }
    const J &doc = ptrDocs()[di];
    bool amb; const J *w = wantPtr(doc, p, amb);
    J flat;
    if (w) { flat = *w; if (w->t == J::Arr) flat = J::arr({J((long long)w->a.size())}); if (w->t == J::Obj) flat = J::obj({{"n", J((long long)w->o.size())}}); }
    J out[2]; std::string err[2]; int r[2];
    r[0] = gotPtr(rj::Adapter(*docs[di]), 0, p, out[0], err[0]);
    r[1] = gotPtr(adapters::NlohmannJsonAdapter(nd[di]), 0, p, out[1], err[1]);
    if (r[0] != r[1] || (r[0] && !jeq(out[0], out[1]))) return "two adapters resolve it differently";
    if (amb) return "";
    if (r[0] && !w) return "resolves to " + out[0].str() + ", but designates nothing";
    if (!r[0] && w) return "is rejected (" + err[0] + "), but designates " + flat.str();
    if (w && !jeq(flat, out[0])) return "resolves to " + out[0].str() + " instead of " + flat.str();
    return "";
}
// a schema that refers to every named node through its pointer
static const J &refTree() {
    static J t;
    if (t.t == J::Null) {
        int k = 100;
        auto leaf = [&]() { return O({{"const", J(k++)}}); };
        J m = J::obj();
        for (auto n : {std::string("a"), std::string(""), std::string("~"), std::string("/"), std::string("~1"), std::string("~0"), std::string("a/b"), std::string("%"), std::string("%41"), std::string("A"), std::string("0"), std::string("-"), nul("a", "b"), std::string("\xc3\xa9"), std::string(" "), std::string("%7E")}) m.set(n, leaf());
        J list = A({leaf(), leaf(), O({{"anyOf", A({leaf(), leaf()})}})});
        t = O({{"definitions", m}, {"allOf", A({O({{"properties", O({{"zz", leaf()}})}})})}, {"anyOf", A({J::obj(), list.a[0], list.a[1], list.a[2]})}});
    }
    return t;
}
static std::string c13ref(int draft, const std::string &p) {
    J s = refTree(); J x = O({{"$ref", J("#" + p)}});
    if (draft != 7) { std::function<void(J &)> fix = [&](J &j) { if (j.t == J::Obj) { for (auto &m : j.o) { fix(m.second); if (m.first == "const" && m.second.t == J::Int) { m.first = "enum"; m.second = A({m.second}); } if (draft == 3 && m.first == "anyOf") m.first = "type"; } } else for (auto &e : j.a) fix(e); }; fix(s); }
    s.set("properties", O({{"x", x}}));
    bool amb; const J *w = wantPtr(s, p, amb);
    if (amb || p.empty()) return "";
    rapidjson::Document d; rj::doc(d, s);
    Schema sc; SchemaParser ps(rj::ver(draft));
    std::string err; bool ok = true;
    try { ps.populateSchema(rj::Adapter(d), sc); } catch (const std::exception &e) { ok = false; err = e.what(); }
    if (!w) return ok && p[0] == '/' && p != "/" ? "$ref #" + p + " is accepted, but designates nothing" : "";
    bool schemaShaped = w->t == J::Obj && (w->get("const") || w->get("enum") || w->get("anyOf") || w->get("type") || w->get("properties"));
    if (!schemaShaped || w == s.get("definitions") || w == s.get("properties")) return "";
    if (!ok) return "$ref #" + p + " is rejected: " + err;
    ref::Eval ev(draft); ev.index(s, "");
    for (int k = 99; k <= 124; k++) {
        J inst = O({{"x", J(k)}}); rapidjson::Document id; rj::doc(id, inst);
        Validator v; rj::Adapter ad(id);
        bool got = v.validate(sc, ad, nullptr), want = ev.valid(s, inst);
        if (got != want) return "$ref #" + p + ": value " + std::to_string(k) + (got ? " accepted" : " rejected");
    }
    return "";
}
static void c13(Run &run) {
    uint64_t idx = 0;
    auto test = [&](const std::string &p) {
        if (!run.mine(idx++ >> 4) || run.full()) return;
        run.c("pointers")++;
        for (size_t d = 0; d < ptrDocs().size(); d++) {
            if ((idx & 15) == 0 || d) run.progress++; 
            run.slot(0, O({{"doc", J((long)d)}, {"hex", hexJ(p)}}).str());
            run.c("resolutions") += 2;
            std::string m = c13one(d, p);
            bool amb; if (d == 0 && wantPtr(ptrDocs()[0], p, amb)) run.c("designating")++;
            if (!m.empty()) run.violation(O({{"doc", J((long)d)}, {"hex", hexJ(p)}}), "pointer " + J(p).str() + " " + m);
        }
        if (idx % 40009 == 9) run.sample(O({{"pointer", J(p)}, {"hex", hexJ(p)}}));
    };
    std::vector<std::string> tok = {"", "a", "b", "e", "A", "0", "1", "2", "3", "9", "11", "12", "00", "01", "-", "-1", "+1", " 1", "1 ", "1a", "0x1", "1e0", "99999999999999999999", "18446744073709551616", "4294967296", "~", "~0", "~1", "~01", "~00", "~10", "~2", "~a", "a~1b", "a~0b", "%", "%4", "%41", "%4g", "%g1", "%25", "%2541", "%7E1", "%7e0", "%7E", "~%30", "~%31", "%2", "%00", "a%00", "a%00b", "0%00", "%30", "%20", " ", "#", "%23", "\xc3\xa9", "%C3%A9", "%c3%a9", "%2F", "a%2Fb", "~1~1", "+", "null", "%-1", "% 1", "%+1", "b%22c"};
    if (run.part == "refs") {
        for (int draft : {3, 4, 7}) for (auto &a : tok) for (auto &b : tok) for (std::string p : {"/definitions/" + a + (&b == &tok[0] ? "" : "/" + b), "/anyOf/" + a + (&b == &tok[0] ? "" : "/" + b), "/" + a + "/" + b, "/anyOf/3/anyOf/" + a + (&b == &tok[0] ? "" : "/" + b)}) {
            if (draft == 3) for (size_t q; (q = p.find("/anyOf")) != std::string::npos;) p.replace(q, 6, "/type");
            if (!run.mine(idx++) || run.full()) continue;
            J cs = O({{"draft", J(draft)}, {"ref", J(true)}, {"hex", hexJ(p)}});
            run.slot(0, cs.str()); run.c("pointers")++; run.c("resolutions")++;
            std::string m = c13ref(draft, p);
            if (!m.empty()) run.violation(cs, m);
            if (idx % 20011 == 9) run.sample(O({{"ref", J("#" + p)}}));
        }
        return;
    }
    const std::string al = "/~01%2FaAb-Ee4";
    int maxn = run.thorough() ? 6 : 5;
    for (int n = 0; n <= maxn; n++) {
        uint64_t total = 1; for (int k = 0; k < n; k++) total *= al.size();
        for (uint64_t q = 0; q < total; q++) {
            std::string s(n, 0); uint64_t r = q; for (int k = n - 1; k >= 0; k--) { s[k] = al[r % al.size()]; r /= al.size(); }
            if (n && s[0] != '/' && n > 3) continue;       // without the leading slash nothing after matters
            test(s);
        }
    }
    for (auto &a : tok) { test("/" + a); test(a); for (auto &b : tok) { test("/" + a + "/" + b); for (auto &c : tok) if (run.thorough() || c.size() < 3) test("/" + a + "/" + b + "/" + c); } }
    for (auto &a : tok) for (auto &b : tok) test("/" + a + b);
}

// ======================================================================== C14
static std::string c14one(const std::string &base, const std::string &rel) {
    std::string got;
    try { got = internal::uri::resolveRelativeUri(base, rel); } catch (const std::exception &e) { return std::string("throws ") + e.what(); }
    ref::Uri r = ref::Uri::parse(rel);
    std::string want = r.hasS ? rel : ref::Uri::resolve(base, rel);
    return got == want ? "" : "gives " + got + " instead of " + want;
}
static std::vector<std::string> paths(int n, bool abs, const std::vector<std::string> &seg) {   // n segments
    std::vector<std::string> cur = {""};
    for (int k = 0; k < n; k++) { std::vector<std::string> nx; for (auto &c : cur) for (auto &s : seg) nx.push_back(k ? c + "/" + s : s); cur = nx; }
    if (abs) for (auto &c : cur) c = "/" + c;
    return cur;
}
static std::string c14fetch(int draft, const std::string &base, const std::string &rel) {
    const char *id = draft == 7 ? "$id" : "id";
    J s = O({{id, J(base)}, {"properties", O({{"x", O({{"$ref", J(rel)}})}})}});
    rapidjson::Document d; rj::doc(d, s);
    std::vector<std::string> log;
    Schema sc; SchemaParser p(rj::ver(draft)); std::string err;
    try {
        p.populateSchema<rj::Adapter>(rj::Adapter(d), sc, [&](const std::string &u) -> const rapidjson::Document * { log.push_back(u); auto *x = new rapidjson::Document; rj::doc(*x, O({{"type", J("integer")}})); return x; },
            [](const rapidjson::Document *v) { delete v; });
    } catch (const std::exception &e) { err = e.what(); }
    ref::Uri r = ref::Uri::parse(rel);
    std::string t = r.hasS ? rel : ref::Uri::resolve(base, rel);
    t = t.substr(0, t.find('#'));
    std::string b = base.substr(0, base.find('#'));
    std::vector<std::string> want; if (t != b) want.push_back(t);
    if (log != want) return "requested " + (log.empty() ? "nothing" : log[0]) + (log.size() > 1 ? " and more" : "") + (err.empty() ? "" : " (" + err + ")") + " instead of " + (want.empty() ? "nothing" : want[0]);
    if (!want.empty()) {
        if (!err.empty()) return "threw " + err;
        rapidjson::Document i; rj::doc(i, O({{"x", J("s")}})); Validator v; rj::Adapter ad(i);
        if (v.validate(sc, ad, nullptr)) return "the fetched schema is not applied";
    }
    return "";
}
static void c14(Run &run) {
    uint64_t idx = 0;
    auto test = [&](const std::string &b, const std::string &r) {
        if (run.full()) return;
        run.c("resolutions")++;
        std::string m = c14one(b, r);
        if (!m.empty()) run.violation(O({{"base", hexJ(b)}, {"rel", hexJ(r)}}), J(r).str() + " against " + J(b).str() + " " + m);
    };
    if (run.part == "raw") {
        const std::string al = ":/?#.auU%-[@ ";
        std::vector<std::string> all = {""}, cur = all;
        for (int n = 1; n <= (run.thorough() ? 4 : 3); n++) { std::vector<std::string> nx; for (auto &c : cur) for (char ch : al) nx.push_back(c + ch); cur = nx; all.insert(all.end(), cur.begin(), cur.end()); }
        std::vector<std::string> second = {""}; cur = second;
        for (int n = 1; n <= 3; n++) { std::vector<std::string> nx; for (auto &c : cur) for (char ch : al) nx.push_back(c + ch); cur = nx; second.insert(second.end(), cur.begin(), cur.end()); }
        for (auto pre : {"", "a:", "a://", "urn:a", "http://h/x"}) second.push_back(pre);
        for (auto &a : all) {
            if (!run.mine(idx++)) continue;
            run.distinct["uris"].insert(Run::hash("raw" + a));
            for (auto &b : second) {
                run.slot(0, O({{"crash", J(true)}, {"base", hexJ(a)}, {"rel", hexJ(b)}}).str());
                run.c("resolutions")++; run.c("raw_pairs")++;
                try { internal::uri::resolveRelativeUri(a, b); } catch (const std::exception &) {}
            }
        }
        return;
    }
    std::vector<std::string> seg = {"", ".", "..", "b", "c;d=1", "..g", ".g.", "%2e"};
    std::vector<std::string> refs = {"", "?", "?y", "#", "#s", "?y#s", "//", "//g", "//g/", "//g/../x", "//g?y", "//u@h:8/p/./q#s", "g:h", "http:g", "mailto:a@b.c", "urn:example:animal:ferret:nose", "urn:a", "data:,x", "file:/x/../y", "HTTP://H/a/../b", "x+y.z-1:p", "urn:mvn:example.schema.common:status:1.1.0#frag"};
    bool fetch = run.part == "fetch";
    std::vector<std::string> rseg = fetch ? std::vector<std::string>{".", "..", "b", "..g"} : seg;
    int depth = run.thorough() && !fetch ? 4 : 3;
    if (fetch) depth = 2;
    for (bool abs : {false, true}) for (int n = 1; n <= depth; n++) for (auto &p : paths(n, abs, rseg)) {
        if (p.compare(0, 2, "//") == 0) continue;                                    // that is an authority
        if (p.empty()) continue;
        if (n == 4 && abs) continue;
        for (const char *suf : {"", "?", "?y/../z", "#", "#s/../t", "?q#f?g"}) { if (n > 2 && suf[0] && !(run.thorough() && n == 3) && suf != std::string("?y/../z")) continue; refs.push_back(p + suf); }
    }
    if (fetch) for (const char *r : {"", "#", "#s", "?", "mailto:a@b.c", "g:h"}) refs.erase(std::remove(refs.begin(), refs.end(), std::string(r)), refs.end());
    std::vector<std::string> bases;
    for (std::string a : {"http://a", "x+y.z-1://u:p@h:8080", "file://", "https://[::1]"}) for (int n = 0; n <= 3; n++) for (auto &p : n ? paths(n, true, fetch ? std::vector<std::string>{"b", "c.json", "d"} : seg) : std::vector<std::string>{""})
        for (const char *suf : {"", "?q", "?", "#f", "?q/../r#g/../h", "#"}) { if (!fetch && n > 2 && suf != std::string("?q")) continue; if (n && a != "http://a" && n > 2) continue; if (fetch && (strchr(suf, '#'))) continue; bases.push_back(a + p + suf); }
    for (auto &b : bases) {
        if (!run.mine(idx++) || run.full()) continue;
        run.distinct["uris"].insert(Run::hash(b));
        run.slot(0, O({{"base", hexJ(b)}, {"rel", J("")}}).str());
        if (fetch) {
            for (auto &r : refs) {
                if (r.find('#') != std::string::npos && r.find('#') + 1 < r.size()) continue;     // the fragment must name something
                J cs = O({{"fetch", J((int)(idx % 3 == 0 ? 3 : idx % 3 == 1 ? 4 : 7))}, {"base", hexJ(b)}, {"rel", hexJ(r)}});
                run.slot(0, cs.str());
                run.c("resolutions")++; run.c("fetch_runs")++;
                std::string m = c14fetch((int)cs.get("fetch")->i, b, r);
                if (!m.empty()) run.violation(cs, "$ref " + J(r).str() + " under " + J(b).str() + " " + m);
            }
        } else for (auto &r : refs) test(b, r);
        if (idx % 401 == 3) run.sample(O({{"base", J(b)}, {"references", J((long)refs.size())}}));
        run.progress++;
    }
    run.c("references_per_base") = refs.size();
}

// ======================================================================== C24
struct NumShape { bool decimal = false, plus = false, integer = false; };   // -?digits[.digits][e[+-]digits] (decimal); with a leading '+'; integer form
static NumShape shape(const std::string &s) {
    NumShape r; size_t k = 0, n = s.size();
    if (k < n && s[k] == '+') { r.plus = true; k++; } else if (k < n && s[k] == '-') k++;
    auto dig = [&]() { size_t b = k; while (k < n && s[k] >= '0' && s[k] <= '9') k++; return k - b; };
    size_t a = dig(); if (!a) return r;
    r.integer = k == n;
    if (k < n && s[k] == '.') { k++; if (!dig()) return r; }
    if (k < n && (s[k] == 'e' || s[k] == 'E')) { k++; if (k < n && (s[k] == '+' || s[k] == '-')) k++; if (!dig()) return r; }
    r.decimal = k == n;
    return r;
}
// a looser form whose value is still that of the whole text: "5.", ".5", "inf", "nan"
static bool looseNumber(const std::string &t) {
    std::string s = t; if (!s.empty() && (s[0] == '-' || s[0] == '+')) s.erase(0, 1);
    std::string l; for (char c : s) l += (char)tolower((unsigned char)c);
    if (l == "inf" || l == "infinity" || l == "nan" || (l.compare(0, 4, "nan(") == 0 && l.back() == ')')) return true;
    size_t k = 0, d = 0; while (k < s.size() && isdigit((unsigned char)s[k])) { k++; d++; }
    if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && isdigit((unsigned char)s[k])) { k++; d++; } }
    if (!d) return false;
    if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) { k++; if (k < s.size() && (s[k] == '-' || s[k] == '+')) k++; size_t b = k; while (k < s.size() && isdigit((unsigned char)s[k])) k++; if (k == b) return false; }
    return k == s.size();
}
static locale_t cLoc() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); return l; }
static std::string c24dbl(const std::string &who, const std::string &s, bool ok, double v, bool mustRead) {
    NumShape sh = shape(s);
    double w = s.find('\0') == std::string::npos ? strtod_l(s.c_str(), nullptr, cLoc()) : 0;
    if (!ok) {
        if (mustRead && sh.decimal && !sh.plus && std::isfinite(w) && (w == 0 ? s.find_first_of("123456789") == std::string::npos || s.find_first_of("123456789") > s.find_first_of("eE") : std::fabs(w) > 1e-300)) return who + " refuses a number";
        return "";
    }
    if (!sh.decimal && !looseNumber(s)) return who + " reads " + J::numText(v) + " from text that is no number";
    if (!(v == w || (v != v && w != w))) return who + " reads " + J::numText(v) + " instead of " + J::numText(w);
    return "";
}
static std::string c24int(const std::string &who, const std::string &s, bool ok, int64_t v, bool mustRead) {
    NumShape sh = shape(s);
    if (!sh.integer) return ok ? who + " reads " + std::to_string(v) + " from text that is no integer" : "";
    errno = 0; long long w = strtoll(s.c_str(), nullptr, 10); bool fits = errno == 0;
    if (ok && (!fits || w != v)) return who + " reads " + std::to_string(v);
    if (!ok && fits && mustRead && !sh.plus) return who + " refuses an integer";
    return "";
}
static std::string c24one(const std::string &s) {
    std::string m;
    double d = 5.25; bool r = internal::parseDouble(s, d);
    m = c24dbl("parseDouble", s, r, d, true); if (!m.empty()) return m;
    auto both = [&](const char *who, const adapters::Adapter &a) {
        double x = 5.25; int64_t i = 77; std::string e;
        bool rd = a.asDouble(x), ri = a.asInteger(i);
        e = c24dbl(std::string(who) + ".asDouble", s, rd, x, true); if (!e.empty()) return e;
        e = c24int(std::string(who) + ".asInteger", s, ri, i, true); if (!e.empty()) return e;
        if (a.maybeDouble() != rd || a.maybeInteger() != ri) return std::string(who) + ": maybe and as disagree";
        if (ri && rd && x != (double)i) return std::string(who) + ": integer and number views differ";
        return e;
    };
    { adapters::StdStringAdapter a(s); m = both("std::string", a); if (!m.empty()) return m; }
    { rapidjson::Value v; v.SetString(s.data(), (rapidjson::SizeType)s.size()); rj::Adapter a(v); m = both("rapidjson", a); if (!m.empty()) return m; }
    if (!s.empty()) { boost::property_tree::ptree t; t.data() = s; adapters::PropertyTreeAdapter a(t); m = both("property tree", a); if (!m.empty()) return m; }
    { YAML::Node n(s); adapters::YamlCppAdapter a(n); m = both("yaml", a); if (!m.empty()) return m; }
    return "";
}
// weak verdicts over text follow the numbers in it
static std::string c24val(const std::string &s) {
    static std::unique_ptr<Schema> mn, mx, ti, tn, mu;
    if (!mn) {
        auto mk = [](std::unique_ptr<Schema> &p, const J &j) { rapidjson::Document d; rj::doc(d, j); p.reset(new Schema); SchemaParser ps(SchemaParser::kDraft7); ps.populateSchema(rj::Adapter(d), *p); };
        mk(mn, O({{"minimum", J(1.25)}})); mk(mx, O({{"maximum", J(1.25)}})); mk(ti, O({{"type", J("integer")}})); mk(tn, O({{"type", J("number")}})); mk(mu, O({{"multipleOf", J(3)}}));
    }
    NumShape sh = shape(s); if (!sh.decimal || sh.plus) return "";
    double w = strtod_l(s.c_str(), nullptr, cLoc()); if (!std::isfinite(w) || (w != 0 && std::fabs(w) < 1e-300) || (w == 0 && s.find_first_of("123456789") < s.find_first_of("eE"))) return "";
    boost::property_tree::ptree t; t.data() = s; adapters::PropertyTreeAdapter a(t);
    Validator v(Validator::kWeakTypes);
    if (v.validate(*mn, a, nullptr) != (w >= 1.25)) return "minimum on text";
    if (v.validate(*mx, a, nullptr) != (w <= 1.25)) return "maximum on text";
    if (!v.validate(*tn, a, nullptr)) return "type number on text";
    errno = 0; long long i = strtoll(s.c_str(), nullptr, 10); bool in = sh.integer && errno == 0;
    if (v.validate(*ti, a, nullptr) != in && sh.integer) return "type integer on text";
    if (in && v.validate(*mu, a, nullptr) != (i % 3 == 0)) return "multipleOf on text";
    return "";
}
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1\2\3"; } };
struct Odd : std::numpunct<char> { char do_decimal_point() const override { return 'e'; } char do_thousands_sep() const override { return '0'; } std::string do_grouping() const override { return "\1"; } };
static int setLoc(const std::string &l) {   // 0: not available
    if (l == "C") { setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); return 1; }
    if (l == "comma") { std::locale::global(std::locale(std::locale::classic(), new Comma)); return 1; }
    if (l == "odd") { std::locale::global(std::locale(std::locale::classic(), new Odd)); return 1; }
    static std::string dir;
    if (dir.empty()) {
        char b[] = "/tmp/vh-loc-XXXXXX"; if (!mkdtemp(b)) return 0;
        dir = b;
        std::string cmd = "localedef -i de_DE -f UTF-8 " + dir + "/de_DE.UTF-8 >/dev/null 2>&1"; int r = system(cmd.c_str()); (void)r;
        setenv("LOCPATH", dir.c_str(), 1);
    }
    int ok = 0;
    if (l == "de") ok = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
    else if (l == "de-thread") { locale_t t = newlocale(LC_ALL_MASK, "de_DE.UTF-8", (locale_t)0); if (t) { uselocale(t); ok = 1; } }
    else if (l == "de-global") { try { std::locale::global(std::locale("de_DE.UTF-8")); ok = 1; } catch (const std::exception &) {} }
    std::string rm = "rm -rf " + dir; int r = system(rm.c_str()); (void)r; dir.clear();
    if (ok) { char b[16]; snprintf(b, sizeof b, "%.1f", 1.5); if (strchr(b, '.')) ok = 0; }
    return ok;
}
static void c24(Run &run) {
    int have = setLoc(run.part);
    run.c(have ? "locales_active" : "locales_unavailable")++;
    if (!have) return;
    uint64_t idx = 0;
    auto test = [&](const std::string &s) {
        if (!run.mine(idx++ >> 4) || run.full()) return;
        J cs = O({{"locale", J(run.part)}, {"hex", hexJ(s)}});
        run.slot(0, cs.str());
        run.c("strings")++; run.c("readings") += 9;
        if (shape(s).decimal) run.c("numbers")++;
        std::string m = c24one(s);
        if (m.empty()) m = c24val(s);
        if (!m.empty()) run.violation(cs, J(s).str() + " under locale " + run.part + ": " + m);
        if (idx % 30011 == 77) run.sample(O({{"locale", J(run.part)}, {"text", J(s)}}));
    };
    const std::string al = std::string("019.,-+eE x\0", 12);
    int maxn = run.thorough() ? 6 : run.part == "C" ? 5 : 4;
    for (int n = 0; n <= maxn; n++) {
        uint64_t total = 1; for (int k = 0; k < n; k++) total *= al.size();
        for (uint64_t q = 0; q < total; q++) { std::string s(n, 0); uint64_t r = q; for (int k = n - 1; k >= 0; k--) { s[k] = al[r % al.size()]; r /= al.size(); } test(s); }
    }
    // grammar product with long parts
    std::vector<std::string> sg = {"", "-", "+"}, in = {"0", "1", "12", "007", "1234567", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "1.234", "1,234", "1.234.567"},
        fr = {"", ".", ".5", ",5", ".25", ".000000000000000000000000000001", ".1234567890123456789", ".5.5"}, ex = {"", "e0", "E5", "e-5", "e+5", "e", "e-", "e309", "e-330", "e22", "e23", "e5.0", "e99999999999"}, tail = {"", " ", "x", ",", ".", "\n", std::string(1, 0), "f", "L", "%"};
    for (auto &a : sg) for (auto &b : in) for (auto &c : fr) for (auto &d : ex) for (auto &e : tail) test(a + b + c + d + e);
    for (const char *w : {"inf", "nan", "-inf", "infinity", "NaN", "INF", "nan(1)", "0x10", "0x1p3", "1e5e5", "1_0", "true", "--1", "\xd9\xa1", "1\xc2\xa0""000", "1'000", "0b1", "1/2", "1:30", ".inf", "~", "null"}) test(w);
    // halfway and boundary values
    for (const char *w : {"4.35", "2.2250738585072011e-308", "2.2250738585072014e-308", "1.7976931348623157e308", "1.7976931348623159e308", "9007199254740992.5", "9007199254740993.0", "0.1", "0.30000000000000004", "179769313486231580793728971405301e276"}) test(w);
    for (int k = -20; k <= 20; k++) { test(std::to_string((long long)(INT64_MAX - 20 + (k > 0 ? k : 0)))); }
    for (int k = 0; k < 10; k++) for (int z = 0; z < 10; z++) { test("92233720368547758" + std::to_string(k) + std::to_string(z)); test("-92233720368547758" + std::to_string(k) + std::to_string(z)); test("1844674407370955161" + std::to_string(k)); }
    setLoc("C");
}

std::string replayCase(Run &run, const J &c) {
    auto H = [&](const char *k) { return unhex(c.get(k)->s); };
    if (run.prop == "C07") return c.get("raw") ? c07guard(H("hex")) : c07verdict((int)c.get("draft")->i, H("hex"));
    if (run.prop == "C13") return c.get("ref") ? c13ref((int)c.get("draft")->i, H("hex")) : c13one((size_t)c.get("doc")->i, H("hex"));
    if (run.prop == "C14") {
        if (c.get("crash")) { try { internal::uri::resolveRelativeUri(H("base"), H("rel")); } catch (const std::exception &) {} return ""; }
        if (c.get("fetch")) return c14fetch((int)c.get("fetch")->i, H("base"), H("rel"));
        return c14one(H("base"), H("rel"));
    }
    if (!setLoc(c.get("locale")->s)) return "";
    std::string m = c24one(H("hex")); if (m.empty()) m = c24val(H("hex"));
    return m;
}
void explore(Run &run) {
    if (run.prop == "C07") c07(run);
    else if (run.prop == "C13") c13(run);
    else if (run.prop == "C14") c14(run);
    else c24(run);
}
