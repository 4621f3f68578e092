// C25: loadDocument of every bundled library on every text of a bounded
// family, on every truncation and single-byte corruption of a set of
// documents, on absent and unusual files, and with every read failing.
#include "../lib/loadlib.hpp"
#include "../lib/harness.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <iostream>
#include <malloc.h>
#include <sys/stat.h>
// ---- faults of read(2) ----
static bool g_armed = false; static int g_reads = 0, g_failAt = -1, g_fault = 0;   // 1 EIO, 2 EINTR once, 3 one byte at a time
extern "C" ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t) = nullptr; if (!real) real = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (g_armed) {
        int k = g_reads++;
        if (g_fault == 1 && k >= g_failAt && g_failAt >= 0) { errno = EIO; return -1; }
        if (g_fault == 2 && k == g_failAt) { errno = EINTR; return -1; }
        if (g_fault == 3 && n > 1) n = 1;
    }
    return real(fd, b, n);
}
// ---- RFC 8259 ----
struct Strict {
    const std::string &t; size_t p = 0; bool odd = false;               // odd: duplicated names, \u, bytes above 127: left to the library
    explicit Strict(const std::string &s) : t(s) {}
    int c() { return p < t.size() ? (unsigned char)t[p] : -1; }
    void ws() { while (c() == ' ' || c() == '\n' || c() == '\t' || c() == '\r') p++; }
    bool digits() { size_t q = p; while (c() >= '0' && c() <= '9') p++; return p > q; }
    bool str(std::string *out) {
        if (c() != '"') return false;
        size_t q = ++p;
        for (; c() >= 0 && c() != '"'; p++) {
            if (c() < 0x20) return false;
            if (c() > 127) odd = true;
            if (c() == '\\') { p++; int e = c(); if (e == 'u') { odd = true; for (int k = 0; k < 4; k++) { p++; if (!isxdigit(c())) return false; } } else if (e < 0 || !strchr("\"\\/bfnrt", e)) return false; }
        }
        if (c() != '"') return false;
        if (out) *out = t.substr(q, p - q);
        p++; return true;
    }
    bool lit(const char *w) { if (t.compare(p, strlen(w), w)) return false; p += strlen(w); return true; }
    bool value(int depth = 0) {
        ws(); if (depth > 30) odd = true;
        if (c() == '{') {
            p++; ws(); std::set<std::string> names; if (c() == '}') { p++; return true; }
            for (;;) { ws(); std::string n; if (!str(&n)) return false; if (!names.insert(n).second) odd = true; ws(); if (c() != ':') return false; p++; if (!value(depth + 1)) return false; ws(); if (c() == ',') { p++; continue; } if (c() == '}') { p++; return true; } return false; }
        }
        if (c() == '[') { p++; ws(); if (c() == ']') { p++; return true; } for (;;) { if (!value(depth + 1)) return false; ws(); if (c() == ',') { p++; continue; } if (c() == ']') { p++; return true; } return false; } }
        if (c() == '"') return str(nullptr);
        if (lit("true") || lit("false") || lit("null")) return true;
        if (c() == '-') p++;
        { size_t q = p; if (c() == '0') p++; else if (!digits()) return false; if (p - q > 18) odd = true; }
        if (c() == '.') { p++; if (!digits()) return false; }
        if (c() == 'e' || c() == 'E') { p++; if (c() == '+' || c() == '-') p++; if (!digits()) return false; odd = true; }
        return true;
    }
    bool text() { bool r = value(); ws(); return r && p == t.size(); }
};
static const LoadLib &lib(const std::string &n) { for (auto &l : loadLibs()) if (l.name == n) return l; throw std::runtime_error("no library " + n); }
static std::string g_path = "doc.json", g_before = "before.json", g_before2 = "before2.json";
static void put(const std::string &path, const std::string &bytes) { std::ofstream(path, std::ios::binary | std::ios::trunc) << bytes; }
static std::string hex(const std::string &s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static std::string unhex(const std::string &s) { std::string r; for (size_t k = 0; k + 1 < s.size(); k += 2) r += (char)strtol(s.substr(k, 2).c_str(), nullptr, 16); return r; }
static std::string show(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 120)) if (c >= 32 && c < 127) r += (char)c; else { char b[6]; snprintf(b, 6, "\\x%02x", c); r += b; } return r; }
struct Got { int r; J v; std::string ex; };                             // -1: an exception
static Got loadOne(const LoadLib &l, const std::string &path, const std::string *before) {
    Got g; g.r = -1;
    try { g.r = l.load(path, before, g.v); } catch (const std::exception &e) { g.ex = e.what(); } catch (...) { g.ex = "an exception of another kind"; }
    g_armed = false; return g;
}
static bool same(const J &a, const J &b) { return jeq(a, b) || a.str() == b.str(); }    // the second for names that occur twice
// One text in a file. fault: 0 none; otherwise as above, at read number `at`.
static std::string texts(Run &run, const LoadLib &l, const std::string &bytes, int before, int fault = 0, int at = -1) {
    Strict s(bytes); bool well = s.text(); J own; bool ownOk = l.own(bytes, own), nul = bytes.find('\0') != std::string::npos;
    run.c("loads")++; run.c(well ? "well_formed" : "malformed")++;
    g_reads = 0; g_fault = fault; g_failAt = at;
    const std::string *b = before == 1 ? &g_before : before == 2 ? &g_before2 : nullptr;
    if (fault) { b = nullptr; g_armed = true; }
    Got g = loadOne(l, g_path, b);
    std::string what = l.name + " on " + show(bytes) + ": ";
    if (fault == 1 && g_reads > at) {                                   // a read failed for good
        run.c("failed_reads")++;
        if (g.r == 1 && !(ownOk && same(g.v, own))) return what + "read " + std::to_string(at) + " fails, and the document " + g.v.str().substr(0, 200) + " is returned";
        return "";
    }
    if (g.r < 0) return what + "throws " + g.ex;
    if (g.r == 1 && !well && !ownOk) return what + "malformed, but loaded as " + g.v.str().substr(0, 200);
    if (g.r == 0 && ownOk) return what + "refused, but the library reads it";
    if (g.r == 1 && ownOk && !same(g.v, own)) return what + "loaded as " + g.v.str().substr(0, 200) + " instead of " + own.str().substr(0, 200);
    if (g.r == 1 && !ownOk) return what + "loaded, but the library itself refuses it";
    if (well && !s.odd && l.typed && !nul) {
        J want = J::parse(bytes); bool qt = l.name == "qtjson" || l.name == "qvariant", root = want.t == J::Arr || want.t == J::Obj;
        if (qt && !root) return g.r == 0 ? "" : what + "a scalar document";
        if (l.name == "poco" && !root && g.r == 0) return "";
        if (g.r != 1) return what + "well-formed, but refused";
        if (!jeq(g.v, want)) return what + "loaded as " + g.v.str().substr(0, 200);
        run.c("matched_the_value")++;
    } else if (!well && g.r == 1) run.c("accepted_by_the_library_too")++;
    return "";
}
static std::string special(Run &run, const LoadLib &l, const std::string &kind) {
    run.c("loads")++; run.c("special_files")++;
    auto expectFail = [&](const std::string &path) -> std::string { Got g = loadOne(l, path, nullptr); if (g.r == 0) return ""; return l.name + ": " + kind + (g.r < 0 ? " throws " + g.ex : " loads as " + g.v.str()); };
    auto expectDoc = [&](const std::string &path) -> std::string { Got g = loadOne(l, path, nullptr); J own; if (g.r == 1 && l.own("[1,{\"a\":\"b\"}]", own) && jeq(own, g.v)) return ""; return l.name + ": " + kind + (g.r < 0 ? " throws " + g.ex : g.r ? " loads as " + g.v.str() : " is refused"); };
    ::unlink("special"); ::unlink("special-link"); ::unlink("sp ace\xc3\xa9.json");
    if (kind == "missing") return expectFail("special");
    if (kind == "missing directory") return expectFail("nowhere/special");
    if (kind == "empty path") return expectFail("");
    if (kind == "directory") { Got g = loadOne(l, ".", nullptr); return g.r == 1 ? l.name + ": a directory loads as " + g.v.str() : ""; }   // a read that fails may also be an exception
    if (kind == "dangling link") { if (symlink("special", "special-link")) {} return expectFail("special-link"); }
    if (kind == "path through a file") { put("special", "[1]"); return expectFail("special/x"); }
    if (kind == "link") { put("special", "[1,{\"a\":\"b\"}]"); if (symlink("special", "special-link")) {} return expectDoc("special-link"); }
    if (kind == "unusual name") { put("sp ace\xc3\xa9.json", "[1,{\"a\":\"b\"}]"); return expectDoc("sp ace\xc3\xa9.json"); }
    if (kind == "dotted path") { put("special", "[1,{\"a\":\"b\"}]"); return expectDoc("././/special"); }
    return "";
}
static const char *kSpecial[] = {"missing", "missing directory", "empty path", "directory", "dangling link", "path through a file", "link", "unusual name", "dotted path"};
static std::vector<std::string> g_docs;
static void prepare() {
    static std::ofstream null("/dev/null"); std::cerr.rdbuf(null.rdbuf()); std::cout.rdbuf(null.rdbuf());
    put(g_before, "[1,[2],{\"a\":3}]"); put(g_before2, "{\"old\":{\"x\":[1,2]},\"a\":\"old\"}");
    g_docs = {"[]", "{}", "[null,true,false]", "{\"a\":1,\"b\":[-2,3.5,{\"c\":\"d\"}]}", " [ 1 , \"x\\n\\\"y\\\\\" ] \n", "{\"a\":{\"a\":{\"a\":[[[]]]}},\"\":0}", "\"text\"", "12", "-0.25", "null", "true", "[\"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\",\"\\u00e9\\ud83d\\ude00\"]",
        "{\"$schema\":\"http://json-schema.org/draft-07/schema#\",\"type\":\"object\",\"properties\":{\"a\":{\"minimum\":0}}}", "[1e999]", "[1e308,-1e-320,1E+2]", "[9007199254740993,9223372036854775807,-9223372036854775808,0.1]", "\r\n\t{\"k\"\t:\r\n[ ]}"};
}
static std::string big(const std::string &kind, long n) {
    if (kind == "string") return "[\"" + std::string((size_t)n - 4, 'x') + "\"]";
    if (kind == "space") return "[1]" + std::string((size_t)n - 3, ' ');
    if (kind == "spacefirst") return std::string((size_t)n - 3, '\n') + "[1]";
    if (kind == "array") { std::string r = "[1"; while ((long)r.size() < n - 1) r += ",1"; return r.substr(0, (size_t)((n - 1) | 1) - 1) + "]"; }
    if (kind == "deep") return std::string((size_t)n, '[') + std::string((size_t)n, ']');
    if (kind == "open") return std::string((size_t)n, '[');
    return "[" + std::string((size_t)n - 2, ' ') + "]";
}
static J caseOf(const LoadLib &l, const std::string &bytes, int before, int fault, int at) { return J::obj({{"lib", J(l.name)}, {"hex", J(hex(bytes))}, {"before", J(before)}, {"fault", J(fault)}, {"at", J(at)}}); }
void explore(Run &run) {
    prepare(); uint64_t idx = 0; bool T = run.thorough();
    auto go = [&](const std::string &bytes, int before, int fault = 0, int at = -1, const LoadLib *only = nullptr) {
        for (auto &l : loadLibs()) {
            if ((only && &l != only) || run.full()) continue;
            J c = caseOf(l, bytes.size() < 20000 ? bytes : bytes.substr(0, 20000), before, fault, at); run.slot(0, c.str()); run.slot(1, "");
            std::string m = texts(run, l, bytes, before, fault, at); if (!m.empty()) run.violation(c, m);
        }
    };
    if (run.part == "tokens") {
        static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"", "1", "-", ".5", "e", "true", "nul", "null", " ", "\\", "x", "0", "/"};
        const int N = sizeof tok / sizeof *tok, L = T ? 5 : 4; uint64_t total = 1, span = 1; for (int k = 1; k <= L; k++) { span *= N; total += span; }
        for (uint64_t k = 0; k < total && !run.full(); k++) {
            if (!run.mine(idx++)) continue;
            uint64_t x = k, len = 0, w = 1; std::string s; while (x >= w) { x -= w; w *= N; len++; }
            for (uint64_t q = 0; q < len; q++) { s += tok[x % N]; x /= N; }
            put(g_path, s); go(s, (int)(k % 3)); run.c("texts")++; if (k % 5000 == 7) run.sample(J(s));
        }
    } else if (run.part == "damage") {
        for (auto &d : g_docs) {
            std::set<std::string> all; all.insert(d);
            for (size_t n = 0; n <= d.size(); n++) { all.insert(d.substr(0, n)); all.insert(d.substr(n)); }
            for (size_t n = 0; n < d.size(); n++) {
                for (int b = 0; b < 256; b++) { if (!T && b > 0x7f && b != 0x80 && b != 0xc3 && b != 0xff && b != 0xef) continue; std::string e = d; e[n] = (char)b; all.insert(e); }
                std::string e = d; e.erase(n, 1); all.insert(e); for (char c : {'"', ',', ']', '}', ' ', '0'}) { e = d; e.insert(n, 1, c); all.insert(e); }
            }
            for (const char *x : {"x", ",", "]", "1", " ", "\n\n", "{}"}) all.insert(d + x);
            all.insert(d + std::string(1, '\0')); all.insert("\xef\xbb\xbf" + d);
            // yaml aliases can build a node that contains itself; the harness cannot walk those
            for (auto &s : all) { if (run.full()) return; if (!run.mine(idx++) || s.find('*') != std::string::npos || s.find('&') != std::string::npos) continue; put(g_path, s); for (int b = 0; b < 3; b++) go(s, b); run.c("texts")++; }
        }
    } else if (run.part == "special") {
        for (auto &l : loadLibs()) for (auto k : kSpecial) { if (!run.mine(idx++) || run.full()) continue; J c = J::obj({{"lib", J(l.name)}, {"special", J(k)}}); run.slot(0, c.str()); run.slot(1, ""); std::string m = special(run, l, k); if (!m.empty()) run.violation(c, m); run.c("texts")++; }
    } else if (run.part == "sizes") {
        for (const char *kind : {"string", "space", "spacefirst", "array", "hollow"}) for (long base : {512L, 1024L, 4096L, 8192L, 16384L, 32768L, 65536L, 131072L}) for (long o = T ? -9 : -2; o <= (T ? 9 : 2); o++) {
            if (!run.mine(idx++) || run.full()) continue;
            std::string s = big(kind, base + o); put(g_path, s); J c = J::obj({{"big", J(kind)}, {"n", J((long long)(base + o))}}); run.slot(0, c.str()); run.slot(1, ""); run.c("texts")++;
            for (auto &l : loadLibs()) for (int b = 0; b < 2; b++) { std::string m = texts(run, l, s, b); if (!m.empty()) { c.set("lib", J(l.name)); run.violation(c, m); } }
        }
        for (const char *kind : {"deep", "open"}) for (long n : {10L, 50L, 100L, 200L, 300L}) { if (!run.mine(idx++) || run.full()) continue; std::string s = big(kind, n); put(g_path, s); go(s, 0); run.c("texts")++; }
    } else if (run.part == "faults") {
        std::vector<std::string> ds = g_docs; ds.push_back("{}    "); ds.push_back("[1]x"); ds.push_back(big("string", 9000)); ds.push_back(big("array", 40000)); ds.push_back(big("space", 20000));
        for (auto &d : ds) for (auto &l : loadLibs()) {
            if (!run.mine(idx++) || run.full()) continue;
            put(g_path, d); g_reads = 0; g_fault = 0; g_armed = true; loadOne(l, g_path, nullptr); int n = g_reads; run.c("reads") += n;
            if (n < 1) { run.violation(J::obj({{"lib", J(l.name)}, {"reads", J(0)}}), "harness: reads are not observed"); continue; }
            for (int k = 0; k < n; k++) { go(d, 0, 1, k, &l); go(d, 0, 2, k, &l); }
            go(d, 0, 3, 0, &l); run.c("texts")++;
        }
    } else if (run.part == "leaks") {
        std::vector<std::string> ds = g_docs; for (const char *x : {"", "[1", "{\"a\":[1,{\"b\":", "[1,{\"a\":2}]]", "x", "{\"a\":1,}", "\"abc"}) ds.push_back(x);
        for (auto &d : ds) for (auto &l : loadLibs()) {
            if (!run.mine(idx++) || run.full()) continue;
            J c = J::obj({{"lib", J(l.name)}, {"leak", J(hex(d))}}); run.slot(0, c.str()); run.slot(1, "");
            std::string m = replayCase(run, c); if (!m.empty()) run.violation(c, m); run.c("texts")++;
        }
    }
}
std::string replayCase(Run &run, const J &j) {
    if (run.replaying) prepare();
    const LoadLib &l = j.get("lib") ? lib(j.get("lib")->s) : loadLibs()[0];
    if (j.get("special")) return special(run, l, j.get("special")->s);
    if (j.get("big")) { std::string s = big(j.get("big")->s, (long)j.get("n")->i); put(g_path, s); for (int b = 0; b < 2; b++) { std::string m = texts(run, l, s, b); if (!m.empty()) return m; } return ""; }
    if (j.get("leak")) {
        put(g_path, unhex(j.get("leak")->s)); size_t at[6];
        for (int k = 0; k < 120; k++) { if (k % 20 == 19) at[k / 20] = mallinfo2().uordblks; Got g = loadOne(l, g_path, k % 2 ? &g_before : nullptr); run.c("loads")++; }
        for (int k = 2; k < 6; k++) if (at[k] < at[k - 1] + 20 * 8 || at[k] - at[k - 1] != at[2] - at[1]) return "";      // freed chunks kept in caches settle long before this
        return l.name + " on " + show(unhex(j.get("leak")->s)) + ": every load leaves more memory allocated";
    }
    std::string s = unhex(j.get("hex")->s); put(g_path, s);
    return texts(run, l, s, (int)j.get("before")->i, (int)j.get("fault")->i, (int)j.get("at")->i);
}
