// Reference evaluator for JSON Schema drafts 3, 4 and 7 (strict types).
// Written from the drafts, not from the library: it interprets the schema
// document directly, resolving references through identifiers as the drafts say.
#pragma once
#include "mj.hpp"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>

namespace ref {

// ---------------------------------------------------------------- code points
inline size_t codePoints(const std::string &s) {
    size_t n = 0;
    for (unsigned char c : s) if ((c & 0xc0) != 0x80) n++;
    return n;
}

// -------------------------------------------------- tiny backtracking matcher
// Literals, '.', '^', '$', '\\x', [set], (?:) free; postfix * + ?. Enough for
// the pattern alphabets; anything else is a bug in the alphabet.
struct Rx {
    static bool single(const std::string &p, size_t i, size_t &j, char c, bool have) {
        // element at p[i]; j := index after it; true if c matches
        if (p[i] == '[') {
            size_t k = i + 1; bool neg = false, hit = false;
            if (p[k] == '^') { neg = true; k++; }
            while (p[k] != ']') {
                if (k + 2 < p.size() && p[k + 1] == '-' && p[k + 2] != ']') {
                    if (have && (unsigned char)c >= (unsigned char)p[k] && (unsigned char)c <= (unsigned char)p[k + 2]) hit = true;
                    k += 3;
                } else { if (have && c == p[k]) hit = true; k++; }
            }
            j = k + 1; return have && hit != neg;
        }
        if (p[i] == '\\') { j = i + 2; return have && c == p[i + 1]; }
        j = i + 1;
        if (p[i] == '.') return have && c != '\n' && c != '\r';
        return have && c == p[i];
    }
    static bool here(const std::string &p, size_t i, const std::string &s, size_t k) {
        if (i == p.size()) return true;
        if (p[i] == '$') return k == s.size() && here(p, i + 1, s, k);
        if (p[i] == '^') return k == 0 && here(p, i + 1, s, k);
        size_t j; bool m = single(p, i, j, k < s.size() ? s[k] : 0, k < s.size());
        char q = j < p.size() ? p[j] : 0;
        if (q == '*' || q == '+' || q == '?') {
            if (q != '+' && here(p, j + 1, s, k)) return true;
            size_t kk = k; size_t jj;
            while (kk < s.size() && single(p, i, jj, s[kk], true)) {
                kk++;
                if (here(p, j + 1, s, kk)) return true;
                if (q == '?') break;
            }
            return false;
        }
        return m && here(p, j, s, k + 1);
    }
    static bool search(const std::string &p, const std::string &s) {
        for (size_t k = 0; k <= s.size(); k++) if (here(p, 0, s, k)) return true;
        return false;
    }
};

// A backtracking matcher for the byte-wise part of ECMAScript patterns:
// groups, alternatives, counted and lazy repetition, classes, word
// boundaries, lookahead and back references to groups that took part.
struct Rx2 {
    struct Node; typedef std::vector<Node> Seq; typedef std::vector<Seq> Alts;
    struct Node { int kind = 0; bool set[256] = {}; int cap = -1, lo = 1, hi = 1; bool lazy = false, neg = false; Alts alts; };   // 0 byte, 1 ^, 2 $, 3 \b, 4 group, 5 lookahead, 6 back reference
    Alts top; int caps = 0;
    static void cls(char c, bool *set) {
        for (int b = 0; b < 256; b++) {
            bool d = b >= '0' && b <= '9', w = d || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || b == '_', s = b == ' ' || (b >= 9 && b <= 13), h;
            switch (c) { case 'd': h = d; break; case 'D': h = !d; break; case 'w': h = w; break; case 'W': h = !w; break; case 's': h = s; break; default: h = !s; }
            if (h) set[b] = true;
        }
    }
    static bool esc(const std::string &p, size_t &i, bool *set) {       // p[i] follows the backslash
        char c = p[i++];
        if (strchr("dDwWsS", c)) { cls(c, set); return true; }
        int v = (unsigned char)c;
        if (c == 't') v = 9; else if (c == 'n') v = 10; else if (c == 'v') v = 11; else if (c == 'f') v = 12; else if (c == 'r') v = 13; else if (c == '0') v = 0;
        else if (c == 'x') { v = (int)strtol(p.substr(i, 2).c_str(), nullptr, 16); i += 2; } else if (c == 'u') { v = (int)strtol(p.substr(i, 4).c_str(), nullptr, 16); i += 4; }
        set[v & 255] = true; return false;
    }
    Alts parse(const std::string &p, size_t &i) {
        Alts r(1);
        while (i < p.size() && p[i] != ')') {
            char c = p[i++]; Node n;
            if (c == '|') { r.emplace_back(); continue; }
            if (c == '^') n.kind = 1; else if (c == '$') n.kind = 2;
            else if (c == '(') {
                n.kind = 4;
                if (p[i] == '?') { char k = p[i + 1]; i += 2; if (k != ':') { n.kind = 5; n.neg = k == '!'; } } else n.cap = caps++;
                n.alts = parse(p, i); i++;
            } else if (c == '[') {
                bool in[256] = {}, neg = p[i] == '^'; if (neg) i++;
                while (p[i] != ']') {
                    bool one[256] = {}, klass = false; int lo = (unsigned char)p[i];
                    if (p[i] == '\\') { i++; klass = esc(p, i, one); for (int b = 0; b < 256; b++) if (one[b]) { lo = b; break; } } else i++;
                    if (klass) { for (int b = 0; b < 256; b++) in[b] = in[b] || one[b]; continue; }
                    int hi = lo; if (p[i] == '-' && p[i + 1] != ']') { hi = (unsigned char)p[i + 1]; i += 2; }
                    for (int b = lo; b <= hi; b++) in[b] = true;
                }
                i++; for (int b = 0; b < 256; b++) n.set[b] = in[b] != neg;
            } else if (c == '.') { for (int b = 0; b < 256; b++) n.set[b] = b != '\n' && b != '\r'; }
            else if (c == '\\' && (p[i] == 'b' || p[i] == 'B')) { n.kind = 3; n.neg = p[i++] == 'B'; }
            else if (c == '\\' && p[i] >= '1' && p[i] <= '9') { n.kind = 6; n.cap = p[i++] - '1'; }
            else if (c == '\\') esc(p, i, n.set);
            else n.set[(unsigned char)c] = true;
            if (i < p.size() && strchr("*+?{", p[i])) {
                char q = p[i++];
                if (q == '{') { char *e; n.lo = (int)strtol(p.c_str() + i, &e, 10); n.hi = n.lo; if (*e == ',') { n.hi = e[1] == '}' ? 1 << 20 : (int)strtol(e + 1, &e, 10); if (*e == ',') e++; } i = (size_t)(e - p.c_str()) + 1; }
                else { n.lo = q == '+'; n.hi = q == '?' ? 1 : 1 << 20; }
                if (i < p.size() && p[i] == '?') { n.lazy = true; i++; }
            }
            r.back().push_back(n);
        }
        return r;
    }
    explicit Rx2(const std::string &p) { size_t i = 0; top = parse(p, i); }
    typedef std::function<bool(size_t)> K;
    struct M { const std::string &s; std::vector<std::pair<long, long>> cap; };
    static bool word(const std::string &s, long k) { if (k < 0 || k >= (long)s.size()) return false; unsigned char c = (unsigned char)s[k]; return c == '_' || (c < 128 && isalnum(c)); }
    static bool alt(M &m, const Alts &a, size_t k, const K &next) { for (auto &q : a) if (seq(m, q, 0, k, next)) return true; return false; }
    static bool once(M &m, const Node &n, size_t k, const K &next) {
        switch (n.kind) {
        case 0: return k < m.s.size() && n.set[(unsigned char)m.s[k]] && next(k + 1);
        case 1: return k == 0 && next(k);
        case 2: return k == m.s.size() && next(k);
        case 3: return (word(m.s, (long)k - 1) != word(m.s, (long)k)) != n.neg && next(k);
        case 4: return alt(m, n.alts, k, [&](size_t e) { if (n.cap < 0) return next(e); auto old = m.cap[n.cap]; m.cap[n.cap] = {(long)k, (long)e}; if (next(e)) return true; m.cap[n.cap] = old; return false; });
        case 5: return alt(m, n.alts, k, [](size_t) { return true; }) != n.neg && next(k);
        default: { auto c = m.cap[n.cap]; if (c.first < 0) return next(k); size_t l = (size_t)(c.second - c.first); return m.s.compare(k, l, m.s, (size_t)c.first, l) == 0 && k + l <= m.s.size() && next(k + l); }
        }
    }
    static bool rep(M &m, const Node &n, int done, size_t k, const K &next) {
        if (done < n.lo) return once(m, n, k, [&](size_t e) { return rep(m, n, done + 1, e, next); });
        if (n.lazy && next(k)) return true;
        if (done < n.hi && once(m, n, k, [&](size_t e) { return e != k && rep(m, n, done + 1, e, next); })) return true;
        return !n.lazy && next(k);
    }
    static bool seq(M &m, const Seq &q, size_t at, size_t k, const K &next) {
        if (at == q.size()) return next(k);
        const Node &n = q[at]; K rest = [&](size_t e) { return seq(m, q, at + 1, e, next); };
        return n.lo == 1 && n.hi == 1 ? once(m, n, k, rest) : rep(m, n, 0, k, rest);
    }
    bool find(const std::string &s) const { for (size_t k = 0; k <= s.size(); k++) { M m{s, std::vector<std::pair<long, long>>((size_t)caps + 1, {-1, -1})}; if (alt(m, top, k, [](size_t) { return true; })) return true; } return false; }
    static bool needed(const std::string &p) { for (size_t k = 0; k < p.size(); k++) { if (strchr("(|{", p[k])) return true; if (p[k] == '\\' && (isalnum((unsigned char)p[k + 1]) || p[k + 1] == ']')) return true; if (p[k] == '?' && k && strchr("*+?", p[k - 1])) return true; } return false; }
    static bool search(const std::string &p, const std::string &s) { thread_local std::map<std::string, std::unique_ptr<Rx2>> c; auto &r = c[p]; if (!r) { if (c.size() > 4000) { c.clear(); return search(p, s); } r.reset(new Rx2(p)); } return r->find(s); }
};
inline bool matches(const std::string &p, const std::string &s) { return Rx2::needed(p) ? Rx2::search(p, s) : Rx::search(p, s); }

// ------------------------------------------------------------ RFC 6901 / URIs
inline std::string escTok(const std::string &t) {
    std::string r;
    for (char c : t) { if (c == '~') r += "~0"; else if (c == '/') r += "~1"; else r += c; }
    return r;
}
inline int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline bool pctDecode(const std::string &in, std::string &out) {
    out.clear();
    for (size_t k = 0; k < in.size(); k++) {
        if (in[k] != '%') { out += in[k]; continue; }
        if (k + 2 >= in.size()) return false;
        int h = hexv(in[k + 1]), l = hexv(in[k + 2]);
        if (h < 0 || l < 0) return false;
        out += (char)(h * 16 + l); k += 2;
    }
    return true;
}
// Resolve a (non percent-encoded) pointer; nullptr if it designates nothing.
inline const J *pointer(const J &doc, const std::string &p) {
    if (p.empty()) return &doc;
    if (p[0] != '/') return nullptr;
    const J *n = &doc;
    size_t k = 0;
    while (k < p.size()) {
        size_t e = p.find('/', k + 1);
        std::string raw = p.substr(k + 1, e == std::string::npos ? std::string::npos : e - k - 1), tok;
        for (size_t q = 0; q < raw.size(); q++) {
            if (raw[q] != '~') { tok += raw[q]; continue; }
            if (q + 1 >= raw.size()) return nullptr;
            if (raw[q + 1] == '0') tok += '~'; else if (raw[q + 1] == '1') tok += '/'; else return nullptr;
            q++;
        }
        if (n->t == J::Obj) { n = n->get(tok); if (!n) return nullptr; }
        else if (n->t == J::Arr) {
            if (tok.empty() || tok.size() > 9) return nullptr;
            for (char c : tok) if (c < '0' || c > '9') return nullptr;
            if (tok.size() > 1 && tok[0] == '0') return nullptr;
            size_t ix = strtoul(tok.c_str(), nullptr, 10);
            if (ix >= n->a.size()) return nullptr;
            n = &n->a[ix];
        } else return nullptr;
        k = e == std::string::npos ? p.size() : e;
    }
    return n;
}

// ------------------------------------------------- RFC 3986 section 5.2 model
struct Uri {
    bool hasS = false, hasA = false, hasQ = false, hasF = false;
    std::string s, a, p, q, f;
    static Uri parse(const std::string &u) {   // appendix B
        Uri r; size_t i = 0;
        size_t c = u.find_first_of(":/?#");
        if (c != std::string::npos && u[c] == ':' && c > 0) { r.hasS = true; r.s = u.substr(0, c); i = c + 1; }
        if (u.compare(i, 2, "//") == 0) {
            size_t e = u.find_first_of("/?#", i + 2); if (e == std::string::npos) e = u.size();
            r.hasA = true; r.a = u.substr(i + 2, e - i - 2); i = e;
        }
        size_t e = u.find_first_of("?#", i); if (e == std::string::npos) e = u.size();
        r.p = u.substr(i, e - i); i = e;
        if (i < u.size() && u[i] == '?') {
            e = u.find('#', i); if (e == std::string::npos) e = u.size();
            r.hasQ = true; r.q = u.substr(i + 1, e - i - 1); i = e;
        }
        if (i < u.size() && u[i] == '#') { r.hasF = true; r.f = u.substr(i + 1); }
        return r;
    }
    std::string str() const {
        return (hasS ? s + ":" : "") + (hasA ? "//" + a : "") + p + (hasQ ? "?" + q : "") + (hasF ? "#" + f : "");
    }
    static std::string dots(std::string in) {  // 5.2.4
        std::string out;
        auto pre = [&](const char *x) { return in.compare(0, strlen(x), x) == 0; };
        while (!in.empty()) {
            if (pre("../")) in.erase(0, 3);
            else if (pre("./")) in.erase(0, 2);
            else if (pre("/./")) in.erase(0, 2);
            else if (in == "/.") in = "/";
            else if (pre("/../") || in == "/..") {
                in = in == "/.." ? "/" : in.substr(3);
                size_t k = out.rfind('/'); out.erase(k == std::string::npos ? 0 : k);
            } else if (in == "." || in == "..") in.clear();
            else {
                size_t k = in.find('/', 1); if (k == std::string::npos) k = in.size();
                out += in.substr(0, k); in.erase(0, k);
            }
        }
        return out;
    }
    static std::string resolve(const std::string &base, const std::string &rel) {
        Uri B = parse(base), R = parse(rel), T;
        if (R.hasS) { T = R; T.p = dots(R.p); }
        else {
            if (R.hasA) { T.hasA = true; T.a = R.a; T.p = dots(R.p); T.hasQ = R.hasQ; T.q = R.q; }
            else {
                if (R.p.empty()) { T.p = B.p; T.hasQ = R.hasQ ? true : B.hasQ; T.q = R.hasQ ? R.q : B.q; }
                else {
                    if (R.p[0] == '/') T.p = dots(R.p);
                    else {
                        std::string m;
                        if (B.hasA && B.p.empty()) m = "/" + R.p;
                        else { size_t k = B.p.rfind('/'); m = (k == std::string::npos ? "" : B.p.substr(0, k + 1)) + R.p; }
                        T.p = dots(m);
                    }
                    T.hasQ = R.hasQ; T.q = R.q;
                }
                T.hasA = B.hasA; T.a = B.a;
            }
            T.hasS = B.hasS; T.s = B.s;
        }
        T.hasF = R.hasF; T.f = R.f;
        return T.str();
    }
};

// ------------------------------------------------------------------ evaluator
struct Undefined : std::runtime_error { using std::runtime_error::runtime_error; };
struct Excluded : std::runtime_error { using std::runtime_error::runtime_error; };   // outside what the properties cover

typedef std::vector<std::pair<bool, std::string>> Path;   // (isIndex, token)
inline std::string ptrOf(const Path &p) {
    std::string r; for (auto &s : p) { r += '/'; r += escTok(s.second); } return r;
}
struct Sites {
    std::set<std::string> failing;   // locations where some contributing subschema application fails
    std::set<std::string> direct;    // subset: reached only through directly applied subschemas
};

struct Eval {
    int draft;                                   // 3, 4, 7
    std::map<std::string, const J *> resources;  // absolute URI (no fragment) -> resource root
    std::map<std::string, const J *> anchors;    // URI#name -> node
    std::map<const J *, std::string> baseOf;     // schema node -> base URI in force inside it
    std::map<const J *, const J *> rootOf;       // schema node -> resource root
    uint64_t steps = 0;
    int depth = 0, maxDepth = 400, maxHops = 64;   // beyond these, a cycle
    bool useIds = false;
    std::function<bool(const J &kwValue, const J &inst)> custom;  // C22: hook for keyword "x-custom"
    std::string customKey;

    explicit Eval(int d) : draft(d) {}

    const char *idKw() const { return draft == 7 ? "$id" : "id"; }

    // Record a document and the identifiers of its schemas.
    void index(const J &doc, const std::string &retrievalUri) {
        useIds = true;
        resources[retrievalUri] = &doc;
        walk(doc, retrievalUri, &doc, true);
    }
    // `schema`: the node may be a schema, as opposed to a map from names to schemas
    void walk(const J &n, std::string base, const J *root, bool schema) {
        if (n.t == J::Obj) {
            const J *r = n.get("$ref");
            if (schema && !(r && r->t == J::Str)) {
                const J *id = n.get(idKw());
                if (id && id->t == J::Str && !id->s.empty()) {
                    if (id->s[0] == '#') { if (!anchors.emplace(base + id->s, &n).second) dupIds = true; }
                    else {
                        std::string u = join(base, id->s);
                        size_t h = u.find('#');
                        if (h != std::string::npos && h + 1 < u.size()) dupIds = true;   // excluded: fragment and URI
                        if (h != std::string::npos) u.erase(h);
                        base = u; root = &n;
                        auto e = resources.emplace(u, &n);
                        if (!e.second && e.first->second != &n) dupIds = true;
                    }
                }
            }
            baseOf[&n] = base; rootOf[&n] = root;
            for (auto &m : n.o) {
                // literal-valued keywords hold data, not schemas
                if (schema && (m.first == "enum" || m.first == "const" || m.first == "default" || m.first == "examples")) continue;
                bool map = schema && (m.first == "properties" || m.first == "patternProperties" || m.first == "definitions" || m.first == "dependencies");
                walk(m.second, base, root, !map);
            }
        } else if (n.t == J::Arr) {
            baseOf[&n] = base; rootOf[&n] = root;
            for (auto &x : n.a) walk(x, base, root, true);
        } else { baseOf[&n] = base; rootOf[&n] = root; }
    }
    bool dupIds = false;
    // Only bases with an authority take relative references (C14).
    static std::string join(const std::string &base, const std::string &r) {
        Uri R = Uri::parse(r);
        if (R.hasS) return r;
        if (!base.empty() && !Uri::parse(base).hasA && !R.p.empty()) throw Excluded("relative to " + base);
        if (base.empty() && !R.p.empty()) throw Excluded("relative to nothing");
        return Uri::resolve(base, r);
    }
    std::set<std::string> entered;               // resources that references went to
    // Everything population has to look at from here; throws Undefined if some
    // reference on the way designates nothing or only other references.
    void reach(const J &n, std::set<const J *> &seen) {
        if (n.t == J::Bool) return;
        if (n.t != J::Obj) throw Undefined("not a schema");
        if (!seen.insert(&n).second) return;
        if (const J *r = n.get("$ref")) {
            const J *t = &n; int hops = 0;
            while (t->t == J::Obj && (r = t->get("$ref"))) { if (++hops > maxHops) throw Undefined("references only"); if (r->t != J::Str) throw Undefined("$ref type"); t = deref(*t, r->s); }
            return reach(*t, seen);
        }
        auto one = [&](const char *k) { if (const J *x = n.get(k)) { if (x->t == J::Obj) reach(*x, seen); } };
        auto list = [&](const char *k) { if (const J *x = n.get(k)) if (x->t == J::Arr) for (auto &e : x->a) if (e.t == J::Obj) reach(e, seen); };
        auto map = [&](const char *k) { if (const J *x = n.get(k)) if (x->t == J::Obj) for (auto &m : x->o) if (m.second.t == J::Obj) reach(m.second, seen); };
        map("properties"); map("patternProperties"); map("dependencies"); one("additionalProperties"); one("items"); list("items");
        if (n.get("items") && n.get("items")->t == J::Arr) one("additionalItems");
        if (draft >= 4) { list("allOf"); list("anyOf"); list("oneOf"); one("not"); }
        if (draft == 3) { one("extends"); list("extends"); list("type"); one("type"); }
        if (draft == 7) { one("contains"); one("propertyNames"); if (n.get("if")) { one("if"); one("then"); one("else"); } }
    }
    const J *deref(const J &node, const std::string &r) {
        const std::string base = baseOf.at(&node);
        std::string u = join(base, r), frag;
        size_t h = u.find('#');
        if (h != std::string::npos) { frag = u.substr(h + 1); u.erase(h); }
        auto it = resources.find(u);
        entered.insert(u);
        if (it == resources.end()) throw Undefined("no resource " + u);
        if (frag.empty()) return it->second;
        if (frag == "/") throw Excluded("#/");
        std::string dec;
        if (!pctDecode(frag, dec)) throw Undefined("bad escape");
        if (dec[0] == '/') {
            const J *t = pointer(*it->second, dec);
            if (!t) throw Undefined("no target " + r);
            return t;
        }
        auto a = anchors.find(u + "#" + frag);
        if (a == anchors.end()) throw Undefined("no anchor " + r);
        return a->second;
    }

    bool typeIs(const std::string &t, const J &v) const {
        if (t == "any") return draft == 3;
        if (t == "null") return v.t == J::Null;
        if (t == "boolean") return v.t == J::Bool;
        if (t == "string") return v.t == J::Str;
        if (t == "array") return v.t == J::Arr;
        if (t == "object") return v.t == J::Obj;
        if (t == "number") return v.isNum();
        if (t == "integer") return v.isIntegral();
        return false;
    }
    static int cmp(const J &x, const J &y) {   // numeric order by mathematical value
        if (x.t == J::Int && y.t == J::Int) return x.i < y.i ? -1 : x.i > y.i;
        long double p = x.t == J::Int ? (long double)x.i : (long double)x.d;
        long double q = y.t == J::Int ? (long double)y.i : (long double)y.d;
        return p < q ? -1 : p > q;
    }
    static bool multiple(const J &v, const J &d) {
        if (d.isIntegral()) {
            if (v.t == J::Int && d.t == J::Int) return v.i % d.i == 0;
            return fmodl(v.t == J::Int ? (long double)v.i : (long double)v.d,
                         d.t == J::Int ? (long double)d.i : (long double)d.d) == 0;
        }
        double q = v.num() / d.num();
        if (!std::isfinite(q)) return v.num() == 0;
        double r = std::round(q);
        if (r == 0) return v.num() == 0;
        return std::fabs(q - r) <= 16 * 2.220446049250313e-16 * std::max(1.0, std::fabs(q));
    }
    // Pairs on which rounding of the quotient decides: the property leaves them open.
    static bool multipleIsOpen(const J &v, const J &d) {
        if (d.isIntegral() && std::fabs(d.num()) <= 9e18) return false;     // 64-bit integers divide exactly
        double q = v.num() / d.num(), r = std::round(q), gap = std::fabs(q - r);
        if (!std::isfinite(q) || (gap > 0 && gap <= 16 * 2.220446049250313e-16 * std::max(1.0, std::fabs(q)))) return true;
        return gap == 0 && std::fmod(v.num(), d.num()) != 0;
    }

    bool valid(const J &schema, const J &v) { Path p; depth = 0; return ev(schema, v, p, nullptr, true); }

    // sc collects failing locations when non-null; `direct` tells whether this
    // application is reached only through directly applied subschemas.
    bool ev(const J &schema, const J &v, Path &path, Sites *sc, bool direct) {
        steps++;
        if (++depth > maxDepth) { depth = 0; throw Undefined("unbounded reference cycle"); }
        bool ok = ev1(schema, v, path, sc, direct);
        depth--;
        if (!ok && sc) { auto p = ptrOf(path); sc->failing.insert(p); if (direct) sc->direct.insert(p); }
        return ok;
    }
    static void merge(Sites *to, const Sites &from) {
        if (!to) return;
        to->failing.insert(from.failing.begin(), from.failing.end());
        to->direct.insert(from.direct.begin(), from.direct.end());
    }

    bool ev1(const J &schema, const J &v, Path &path, Sites *sc, bool direct) {
        if (schema.t == J::Bool && draft == 7) return schema.b;
        if (schema.t != J::Obj) throw Undefined("not a schema");
        if (const J *r = schema.get("$ref")) {
            if (r->t != J::Str) throw Undefined("$ref type");
            return ev(*deref(schema, r->s), v, path, sc, direct);
        }
        bool ok = true;
        auto kw = [&](const char *k) -> const J * { const J *x = schema.get(k); if (x) steps++; return x; };
        const J *x;
        // ---- any type
        if ((x = kw("type"))) {
            bool m = false; Sites tmp;
            auto one = [&](const J &t) {
                if (t.t == J::Str) m = typeIs(t.s, v) || m;
                else m = ev(t, v, path, sc ? &tmp : nullptr, false) || m;
            };
            if (x->t == J::Arr) for (auto &t : x->a) one(t); else one(*x);
            if (!m) merge(sc, tmp);
            ok = m && ok;
        }
        if ((x = kw("enum"))) { bool m = false; for (auto &e : x->a) m = m || jeq(e, v); ok = m && ok; }
        if (draft == 7 && (x = kw("const"))) ok = jeq(*x, v) && ok;
        // ---- combinators
        if (draft >= 4) {
            if ((x = kw("allOf"))) for (auto &s : x->a) ok = ev(s, v, path, sc, direct) && ok;
            if ((x = kw("anyOf"))) {
                bool m = false; Sites tmp;
                for (auto &s : x->a) m = ev(s, v, path, sc ? &tmp : nullptr, false) || m;
                if (!m) merge(sc, tmp);
                ok = m && ok;
            }
            if ((x = kw("oneOf"))) {
                int n = 0; Sites tmp;
                for (auto &s : x->a) n += ev(s, v, path, sc ? &tmp : nullptr, false);
                if (n == 0) merge(sc, tmp);
                ok = n == 1 && ok;
            }
            if ((x = kw("not"))) ok = !ev(*x, v, path, nullptr, false) && ok;
        }
        if (draft == 3 && (x = kw("extends"))) {
            if (x->t == J::Arr) { for (auto &s : x->a) ok = ev(s, v, path, sc, direct) && ok; }
            else ok = ev(*x, v, path, sc, direct) && ok;
        }
        if (draft == 7 && (x = kw("if"))) {
            bool c = ev(*x, v, path, nullptr, false);
            const J *br = c ? kw("then") : kw("else");
            if (br) {
                Sites tmp;
                bool m = ev(*br, v, path, sc ? &tmp : nullptr, false);
                if (!m) merge(sc, tmp);
                ok = m && ok;
            }
        }
        // ---- numbers
        if (v.isNum()) {
            if (draft == 7) {
                if ((x = kw("minimum"))) ok = cmp(v, *x) >= 0 && ok;
                if ((x = kw("maximum"))) ok = cmp(v, *x) <= 0 && ok;
                if ((x = kw("exclusiveMinimum"))) ok = cmp(v, *x) > 0 && ok;
                if ((x = kw("exclusiveMaximum"))) ok = cmp(v, *x) < 0 && ok;
            } else {
                if ((x = kw("minimum"))) {
                    const J *e = schema.get("exclusiveMinimum");
                    ok = (e && e->b ? cmp(v, *x) > 0 : cmp(v, *x) >= 0) && ok;
                }
                if ((x = kw("maximum"))) {
                    const J *e = schema.get("exclusiveMaximum");
                    ok = (e && e->b ? cmp(v, *x) < 0 : cmp(v, *x) <= 0) && ok;
                }
            }
            if ((x = kw(draft == 3 ? "divisibleBy" : "multipleOf"))) ok = multiple(v, *x) && ok;
        }
        // ---- strings
        if (v.t == J::Str) {
            if ((x = kw("minLength"))) ok = (double)codePoints(v.s) >= x->num() && ok;
            if ((x = kw("maxLength"))) ok = (double)codePoints(v.s) <= x->num() && ok;
            if ((x = kw("pattern"))) ok = matches(x->s, v.s) && ok;
        }
        // ---- arrays
        if (v.t == J::Arr) {
            auto item = [&](const J &s, size_t k) {
                path.push_back({true, std::to_string(k)});
                bool m = ev(s, v.a[k], path, sc, direct);
                path.pop_back();
                return m;
            };
            if ((x = kw("items"))) {
                if (x->t == J::Arr) {
                    const J *ad = kw("additionalItems");
                    for (size_t k = 0; k < v.a.size(); k++) {
                        if (k < x->a.size()) ok = item(x->a[k], k) && ok;
                        else if (ad && ad->t == J::Bool) ok = ad->b && ok;
                        else if (ad) ok = item(*ad, k) && ok;
                    }
                } else for (size_t k = 0; k < v.a.size(); k++) ok = item(*x, k) && ok;
            }
            if (draft == 7 && (x = kw("contains"))) {
                bool m = false; Path q;
                for (auto &e : v.a) m = ev(*x, e, q, nullptr, false) || m;
                ok = m && ok;
            }
            if ((x = kw("minItems"))) ok = (double)v.a.size() >= x->num() && ok;
            if ((x = kw("maxItems"))) ok = (double)v.a.size() <= x->num() && ok;
            if ((x = kw("uniqueItems")) && x->b)
                for (size_t k = 0; k < v.a.size(); k++)
                    for (size_t l = 0; l < k; l++) if (jeq(v.a[k], v.a[l])) ok = false;
        }
        // ---- objects
        if (v.t == J::Obj) {
            auto member = [&](const J &s, const std::pair<std::string, J> &m) {
                path.push_back({false, m.first});
                bool r = ev(s, m.second, path, sc, direct);
                path.pop_back();
                return r;
            };
            const J *pr = kw("properties"), *pp = kw("patternProperties"), *ap = kw("additionalProperties");
            for (auto &m : v.o) {
                bool matched = false;
                if (pr) if (const J *s = pr->get(m.first)) { matched = true; ok = member(*s, m) && ok; }
                if (pp) for (auto &q : pp->o) if (matches(q.first, m.first)) { matched = true; ok = member(q.second, m) && ok; }
                if (!matched && ap) {
                    if (ap->t == J::Bool) ok = ap->b && ok;
                    else ok = member(*ap, m) && ok;
                }
            }
            if (draft == 3 && pr)
                for (auto &m : pr->o) {
                    const J *s = &m.second;
                    int hops = 0;
                    while (s->t == J::Obj && s->get("$ref") && s->get("$ref")->t == J::Str && hops++ < 64) s = deref(*s, s->get("$ref")->s);
                    const J *rq = s->get("required");
                    if (rq && rq->b && !v.get(m.first)) ok = false;
                }
            if (draft >= 4 && (x = kw("required")))
                for (auto &n : x->a) if (!v.get(n.s)) ok = false;
            if (draft == 7 && (x = kw("propertyNames")))
                for (auto &m : v.o) { J n(m.first); Path q; ok = ev(*x, n, q, nullptr, false) && ok; }
            if ((x = kw("dependencies")))
                for (auto &m : x->o) if (v.get(m.first)) {
                    if (m.second.t == J::Str) { if (!v.get(m.second.s)) ok = false; }
                    else if (m.second.t == J::Arr) { for (auto &n : m.second.a) if (!v.get(n.s)) ok = false; }
                    else ok = ev(m.second, v, path, sc, direct) && ok;
                }
            if (draft >= 4) {
                if ((x = kw("minProperties"))) ok = (double)v.o.size() >= x->num() && ok;
                if ((x = kw("maxProperties"))) ok = (double)v.o.size() <= x->num() && ok;
            }
        }
        if (custom && (x = schema.get(customKey))) ok = custom(*x, v) && ok;
        return ok;
    }
};

} // namespace ref
