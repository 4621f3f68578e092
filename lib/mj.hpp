// A boring JSON data model: the reference side of every check.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum T { Null, Bool, Int, Dbl, Str, Arr, Obj };
    T t = Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(std::nullptr_t) {}
    J(bool v) : t(Bool), b(v) {}
    J(int v) : t(Int), i(v) {}
    J(long v) : t(Int), i(v) {}
    J(long long v) : t(Int), i(v) {}
    J(unsigned v) : t(Int), i((int64_t)v) {}
    J(unsigned long v) : t(Int), i((int64_t)v) {}
    J(double v) : t(Dbl), d(v) {}
    J(const char *v) : t(Str), s(v) {}
    J(const std::string &v) : t(Str), s(v) {}

    bool isNum() const { return t == Int || t == Dbl; }
    double num() const { return t == Int ? (double)i : d; }
    // The mathematical value is an integer.
    bool isIntegral() const { return t == Int || (t == Dbl && std::isfinite(d) && d == std::floor(d)); }

    const J *get(const std::string &k) const {
        if (t != Obj) return nullptr;
        for (auto &m : o) if (m.first == k) return &m.second;
        return nullptr;
    }
    J *get(const std::string &k) {
        return const_cast<J *>(static_cast<const J *>(this)->get(k));
    }
    J &set(const std::string &k, const J &v) {
        if (J *p = get(k)) *p = v; else o.emplace_back(k, v);
        return *this;
    }
    J &push(const J &v) { a.push_back(v); return *this; }
    static J arr() { J j; j.t = Arr; return j; }
    static J obj() { J j; j.t = Obj; return j; }
    static J arr(std::initializer_list<J> l) { J j; j.t = Arr; for (auto &x : l) j.a.push_back(x); return j; }
    static J obj(std::initializer_list<std::pair<std::string, J>> l) { J j; j.t = Obj; for (auto &x : l) j.o.push_back(x); return j; }

    // ---- text -------------------------------------------------------------
    static void quote(const std::string &v, std::string &out) {
        out += '"';
        for (unsigned char c : v) {
            if (c == '"') out += "\\\"";
            else if (c == '\\') out += "\\\\";
            else if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
            else out += (char)c;
        }
        out += '"';
    }
    static std::string numText(double v) {
        char b[40];
        for (int p = 1; p <= 17; p++) {
            snprintf(b, sizeof b, "%.*g", p, v);
            if (strtod(b, nullptr) == v) break;
        }
        if (!strpbrk(b, ".eEn")) strcat(b, ".0");
        return b;
    }
    void dump(std::string &out) const {
        switch (t) {
        case Null: out += "null"; break;
        case Bool: out += b ? "true" : "false"; break;
        case Int: out += std::to_string(i); break;
        case Dbl: out += numText(d); break;
        case Str: quote(s, out); break;
        case Arr: {
            out += '[';
            for (size_t k = 0; k < a.size(); k++) { if (k) out += ','; a[k].dump(out); }
            out += ']'; break; }
        case Obj: {
            out += '{';
            for (size_t k = 0; k < o.size(); k++) {
                if (k) out += ',';
                quote(o[k].first, out); out += ':'; o[k].second.dump(out);
            }
            out += '}'; break; }
        }
    }
    std::string str() const { std::string r; dump(r); return r; }

    struct Parser {
        const char *p, *e;
        void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
        [[noreturn]] void bad(const char *m) { throw std::runtime_error(std::string("json: ") + m); }
        J value() {
            ws();
            if (p >= e) bad("eof");
            if (*p == '{') {
                J r = J::obj(); p++; ws();
                if (p < e && *p == '}') { p++; return r; }
                for (;;) {
                    ws(); std::string k = string_(); ws();
                    if (p >= e || *p != ':') bad(":"); p++;
                    J v = value(); r.o.emplace_back(k, v); ws();
                    if (p < e && *p == ',') { p++; continue; }
                    if (p < e && *p == '}') { p++; return r; }
                    bad("}");
                }
            }
            if (*p == '[') {
                J r = J::arr(); p++; ws();
                if (p < e && *p == ']') { p++; return r; }
                for (;;) {
                    r.a.push_back(value()); ws();
                    if (p < e && *p == ',') { p++; continue; }
                    if (p < e && *p == ']') { p++; return r; }
                    bad("]");
                }
            }
            if (*p == '"') return J(string_());
            if (lit("true")) return J(true);
            if (lit("false")) return J(false);
            if (lit("null")) return J();
            const char *q = p; bool isd = false;
            while (p < e && strchr("+-0123456789.eE", *p)) { if (strchr(".eE", *p)) isd = true; p++; }
            if (p == q) bad("token");
            std::string n(q, p);
            if (isd) return J(strtod(n.c_str(), nullptr));
            return J((long long)strtoll(n.c_str(), nullptr, 10));
        }
        bool lit(const char *w) {
            size_t n = strlen(w);
            if ((size_t)(e - p) >= n && !memcmp(p, w, n)) { p += n; return true; }
            return false;
        }
        std::string string_() {
            if (p >= e || *p != '"') bad("string");
            p++; std::string r;
            while (p < e && *p != '"') {
                if (*p != '\\') { r += *p++; continue; }
                p++; if (p >= e) bad("esc");
                char c = *p++;
                switch (c) {
                case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case 'u': {
                    if (e - p < 4) bad("\\u");
                    unsigned v = (unsigned)strtoul(std::string(p, p + 4).c_str(), nullptr, 16); p += 4;
                    if (v < 0x80) r += (char)v;
                    else if (v < 0x800) { r += (char)(0xc0 | v >> 6); r += (char)(0x80 | (v & 63)); }
                    else { r += (char)(0xe0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); }
                    break; }
                default: r += c;
                }
            }
            if (p >= e) bad("string end");
            p++; return r;
        }
    };
    static J parse(const std::string &t) {
        Parser q{t.data(), t.data() + t.size()};
        J r = q.value(); q.ws();
        if (q.p != q.e) throw std::runtime_error("json: trailing text");
        return r;
    }
};

// JSON equality by the data model: numbers by mathematical value, objects as
// unordered sets of members.
inline bool numEq(const J &x, const J &y) {
    if (x.t == J::Int && y.t == J::Int) return x.i == y.i;
    if (x.t == J::Dbl && y.t == J::Dbl) return x.d == y.d;
    const J &in = x.t == J::Int ? x : y, &db = x.t == J::Int ? y : x;
    if (!(db.d >= -9223372036854775808.0 && db.d < 9223372036854775808.0)) return false;
    return db.d == std::floor(db.d) && (int64_t)db.d == in.i;
}
inline bool jeq(const J &x, const J &y) {
    if (x.isNum() && y.isNum()) return numEq(x, y);
    if (x.t != y.t) return false;
    switch (x.t) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Str: return x.s == y.s;
    case J::Arr:
        if (x.a.size() != y.a.size()) return false;
        for (size_t k = 0; k < x.a.size(); k++) if (!jeq(x.a[k], y.a[k])) return false;
        return true;
    case J::Obj:
        if (x.o.size() != y.o.size()) return false;
        for (auto &m : x.o) { const J *v = y.get(m.first); if (!v || !jeq(m.second, *v)) return false; }
        return true;
    default: return false;
    }
}
