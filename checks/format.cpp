// C05: format strings, every member of four bounded string languages and all
// their one- and two-edit neighbours, against hand-written recognizers.
#include "../lib/rj.hpp"
#include "../lib/harness.hpp"

using namespace valijson;

// ------------------------------------------------------------------- model
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool two(const std::string &s, size_t i, int &v) {
    if (i + 2 > s.size() || !dig(s[i]) || !dig(s[i + 1])) return false;
    v = (s[i] - '0') * 10 + s[i + 1] - '0'; return true;
}
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static bool mDate(const std::string &s, size_t i, size_t &j) {
    int a, b, m, d;
    if (!two(s, i, a) || !two(s, i + 2, b) || i + 10 > s.size() || s[i + 4] != '-' || !two(s, i + 5, m) || s[i + 7] != '-' || !two(s, i + 8, d)) return false;
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    if (m < 1 || m > 12) return false;
    int n = len[m - 1] + (m == 2 && leap(a * 100 + b));
    j = i + 10;
    return d >= 1 && d <= n;
}
static bool mTime(const std::string &s, size_t i, size_t &j, bool strict) {
    int h, m, c;
    if (!two(s, i, h) || i + 8 > s.size() || s[i + 2] != ':' || !two(s, i + 3, m) || s[i + 5] != ':' || !two(s, i + 6, c)) return false;
    if (h > 23 || m > 59 || c > 60) return false;
    i += 8;
    if (i < s.size() && s[i] == '.') {
        size_t k = i + 1; while (k < s.size() && dig(s[k])) k++;
        if (k == i + 1) return false;
        i = k;
    }
    int off = 0;
    if (i < s.size() && (s[i] == 'Z' || s[i] == 'z')) i++;
    else if (i < s.size() && (s[i] == '+' || s[i] == '-')) {
        int oh, om;
        if (!two(s, i + 1, oh) || i + 6 > s.size() || s[i + 3] != ':' || !two(s, i + 4, om) || oh > 23 || om > 59) return false;
        off = (s[i] == '-' ? -1 : 1) * (oh * 60 + om); i += 6;
    } else if (strict) return false;
    j = i;
    if (c == 60) { int u = ((h * 60 + m - off) % 1440 + 1440) % 1440; if (u != 1439) return false; }
    return true;
}
static bool model(const std::string &f, const std::string &s, bool strict) {
    size_t j;
    if (f == "date") return mDate(s, 0, j) && j == s.size();
    if (f == "time") return mTime(s, 0, j, strict) && j == s.size();
    if (f == "date-time") {
        if (!mDate(s, 0, j) || j >= s.size() || (s[j] != 'T' && s[j] != 't')) return false;
        return mTime(s, j + 1, j, strict) && j == s.size();
    }
    if (f == "ipv4") {
        size_t i = 0;
        for (int k = 0; k < 4; k++) {
            int n = 0, v = 0;
            while (i < s.size() && dig(s[i]) && n < 4) { v = v * 10 + s[i] - '0'; i++; n++; }
            if (n < 1 || n > 3 || v > 255) return false;
            if (k < 3) { if (i >= s.size() || s[i] != '.') return false; i++; }
        }
        return i == s.size();
    }
    return true;
}

// --------------------------------------------------------------- real code
struct Fmt {
    Schema s[3];
    Fmt(const std::string &f) {
        int drafts[] = {3, 4, 7};
        for (int k = 0; k < 3; k++) {
            J sc = J::obj({{"format", J(f)}});
            rapidjson::Document d; rj::doc(d, sc);
            SchemaParser p(rj::ver(drafts[k])); p.populateSchema(rj::Adapter(d), s[k]);
        }
    }
};
static std::string one(Fmt &fm, int dk, const std::string &f, const J &v, bool strict, int *verdict) {
    rapidjson::Document d; rj::doc(d, v);
    rj::Adapter a(d);
    bool want = v.t != J::Str || model(f, v.s, strict);
    if (verdict) *verdict = want;
    for (int collect = 0; collect < 2; collect++) {
        Validator val(Validator::kStrongTypes, strict ? Validator::kStrictDateTime : Validator::kPermissiveDateTime);
        ValidationResults r; bool got;
        try { got = val.validate(fm.s[dk], a, collect ? &r : nullptr); }
        catch (const std::exception &e) { return "format " + f + " threw " + e.what(); }
        if (got != want) return "format " + f + (strict ? " (strict)" : " (permissive)") + ": library says " + (got ? "valid" : "invalid") + " for " + v.str();
        if (collect && got != (r.numErrors() == 0)) return "format " + f + ": verdict and error count disagree for " + v.str();
    }
    return "";
}
std::string replayCase(Run &, const J &c) {
    std::string f = c.get("format")->s;
    Fmt fm(f);
    if (c.get("n")) return one(fm, (int)c.get("schema")->i, f, J(c.get("before")->s + std::string((size_t)c.get("n")->i, c.get("run")->s[0]) + c.get("after")->s), c.get("strict")->b, nullptr);
    return one(fm, (int)c.get("schema")->i, f, *c.get("value"), c.get("strict")->b, nullptr);
}

typedef std::vector<std::string> L;
static L cat(const L &a, const L &b) { L r; for (auto &x : a) for (auto &y : b) r.push_back(x + y); return r; }
static L dd(int lo, int hi) { L r; for (int k = lo; k <= hi; k++) { char b[8]; snprintf(b, 8, "%02d", k); r.push_back(b); } return r; }

void explore(Run &run) {
    const std::string f = run.part;
    bool deep = run.thorough();
    Fmt fm(f);
    std::set<uint64_t> seen;
    uint64_t idx = 0;
    auto test = [&](const J &v) {
        if (run.full() || !run.mine(idx++)) return;
        if (v.t == J::Str) { if (!seen.insert(Run::hash(v.s)).second) return; }
        run.c("strings")++;
        int dk = (int)(idx % 3);
        int a = 0, b = 0;
        for (bool strict : {true, false}) {
            J c = J::obj({{"format", J(f)}, {"schema", J(dk)}, {"strict", J(strict)}, {"value", v}});
            if ((idx & 15) < 8 || v.t != J::Str || v.s.size() < 300) run.slot(0, c.str());
            std::string m = one(fm, dk, f, v, strict, strict ? &a : &b);
            run.c("validations") += 2; run.c("comparisons")++;
            if (!m.empty()) run.violation(c, m);
        }
        run.c(a ? "accepted" : "rejected")++;
        if (a != b) run.c("accepted_only_permissively")++;
        if (idx % 99991 == 7) run.sample(J::obj({{"format", J(f)}, {"value", v}, {"model_strict", J((bool)a)}}), 1);
    };
    std::string al = "0123456789-:+.TtZz ,/aé";
    al += std::string("\0\n", 2);
    auto edits = [&](const std::string &s, const std::function<void(const std::string &)> &g) {
        for (size_t k = 0; k <= s.size(); k++) {
            for (char ch : al) { g(s.substr(0, k) + ch + s.substr(k)); if (k < s.size()) g(s.substr(0, k) + ch + s.substr(k + 1)); }
            if (k < s.size()) { g(s.substr(0, k) + s.substr(k + 1)); g(s.substr(0, k)); g(s.substr(k)); }
            if (k + 1 < s.size()) { std::string t = s; std::swap(t[k], t[k + 1]); g(t); }
        }
    };
    auto T = [&](const std::string &s) { test(J(s)); };
    L years = {"0000", "0001", "0004", "0100", "0400", "1582", "1600", "1700", "1899", "1900", "1970", "1999", "2000", "2001", "2004", "2019", "2020", "2023", "2024", "2038", "2100", "2200", "2400", "9999", "999", "10000", "20200", "-001", "+2020", "02020"};
    if (deep) { years.clear(); for (int y = 0; y <= 9999; y++) { char b[8]; snprintf(b, 8, "%04d", y); years.push_back(b); } }
    L fr = {"", ".0", ".5", ".123456789", ".", ",5", ".1.2", ". 1", "." + std::string(1000, '9')};
    L off = {"", "Z", "z", "ZZ", "+00:00", "-00:00", "+23:59", "-23:59", "+24:00", "+00:60", "+12:30", "-12:30", "+01:00", "-01:00", "+00:01", "-00:01", "+23:00", "-23:00", "+0100", "+1:00", "+01", "01:00", "+ 1:00", "+01:0", "+99:99", "+05:45", "-03:30"};
    if (f == "date") {
        for (auto &s : cat(cat(years, cat({"-"}, dd(0, 13))), cat({"-"}, dd(0, 32)))) T(s);
        for (auto &s : cat(cat({"2020", "2021"}, {"/", "", ".", "--", " "}), {"02-29", "02/29", "0229", "02--29"})) T(s);
        for (const char *s : {"2020-02-29", "2021-02-28", "2019-12-31", "2000-02-29", "1900-02-28"}) {
            edits(s, T);
            if (deep || std::string(s) == "2020-02-29") edits(s, [&](const std::string &t) { edits(t, T); });
        }
    } else if (f == "time") {
        L hm = cat(cat(dd(0, 24), {":"}), deep ? dd(0, 60) : dd(0, 60));
        L secs = {"00", "01", "09", "30", "58", "59", "60", "61", "99"};
        for (auto &s : cat(cat(hm, cat({":"}, secs)), deep ? off : L{"", "Z", "+01:00", "-12:30", "+23:59", "-23:59", "+00:01"})) T(s);
        for (auto &s : cat(cat({"00:00", "12:34", "23:59", "24:00", "22:59", "11:29"}, cat({":00", ":59", ":60", ":61", ":6", ":600", "", ":"}, fr)), off)) T(s);
        // leap seconds: every offset on the half hour against every hour and minute class
        for (auto &s : cat(cat(cat(dd(0, 23), {":"}), cat(deep ? dd(0, 59) : L{"00", "14", "29", "30", "44", "58", "59"}, {":60"})), cat({"+", "-"}, cat(dd(0, 23), {":00", ":30", ":45", ":59"})))) T(s);
        for (const char *s : {"12:34:56Z", "23:59:60Z", "00:29:60+00:30", "12:34:56.78-01:30", "12:34:56"}) {
            edits(s, T);
            if (deep || std::string(s) == "12:34:56") edits(s, [&](const std::string &t) { edits(t, T); });
        }
    } else if (f == "date-time") {
        L dates = {"2020-02-29", "2021-02-29", "1900-02-29", "2016-12-31", "2020-13-01", "2020-00-10", "2020-04-31", "2020-1-01", "10000-01-01", "0000-01-01"};
        L times = {"00:00:00", "23:59:59", "23:59:60", "22:59:60", "24:00:00", "12:60:00", "1:00:00", "15:59:60", "00:00"};
        for (auto &s : cat(cat(dates, cat({"T", "t", " ", "", "TT", "_"}, times)), cat(fr, off))) T(s);
        for (auto &s : cat(cat({"2021-", "2020-"}, cat(dd(0, 13), cat({"-"}, dd(0, 32)))), {"T00:00:00Z", "t23:59:60.5+00:00"})) T(s);
        for (const char *s : {"2020-02-29T12:34:56Z", "2016-12-31T15:59:60.5-08:00", "2020-02-29t12:34:56"}) {
            edits(s, T);
            if (deep) edits(s, [&](const std::string &t) { edits(t, T); });
        }
    } else if (f == "ipv4") {
        L oct = {"", "0", "00", "000", "0000", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "299", "300", "999", "1000", "01", "001", "0255", "a", "-1", "+1", " 1", "1 ", "0x1", "1e1"};
        if (deep) for (int k = 2; k < 300; k += 7) oct.push_back(std::to_string(k));
        L small = deep ? oct : L{"", "0", "1", "00", "10", "255", "256", "01", "249", "1000", "a", "099"};
        L d = {"."};
        for (auto &s : cat(cat(oct, cat(d, small)), cat(d, cat(small, cat(d, L{"0", "1", "255", "256", ""}))))) T(s);
        for (int k = 0; k < 4; k++) for (int v = 0; v <= 1100; v++) { std::string s; for (int q = 0; q < 4; q++) { if (q) s += '.'; s += q == k ? std::to_string(v) : std::string("7"); } T(s); }
        for (int k = 0; k < 4; k++) for (auto &o : oct) { std::string s; for (int q = 0; q < 4; q++) { if (q) s += '.'; s += q == k ? o : std::string("192"); } T(s); T(s + "."); T("." + s); T(s + ".1"); T(s + "\n"); T(" " + s); }
        for (const char *s : {"1.2.3.4", "255.249.100.0"}) {
            edits(s, T);
            if (deep || s[1] == '.') edits(s, [&](const std::string &t) { edits(t, T); });
        }
    } else {
        for (const char *s : {"", "x", "2020-02-30", "24:00:00Z", "999.1.1.1", "not a thing", "\xff"}) T(s);
        T(std::string(1000, 'a'));
    }
    // values that are not strings, and long strings
    for (auto &v : {J(), J(true), J(5), J(1.5), J::arr({J("x")}), J::obj({{"a", J("x")}}), J::arr(), J::obj(), J(-1)}) test(v);
    for (char c : al) { T(std::string(1000, c)); T(std::string(1, c)); for (char e : al) { T(std::string(1, c) + e); for (char g : al) T(std::string(1, c) + e + g); } }
    T("");
    std::string nines = "2020-01-01T00:00:00." + std::string(900, '9') + "Z"; T(nines);
    // runs of one character, up to a million of them, at the start, in the middle and at the end
    std::vector<size_t> sizes; for (int k = 10; k <= (deep ? 22 : 20); k += deep ? 1 : 2) for (int q : {-1, 0, 1}) sizes.push_back(((size_t)1 << k) + q);
    struct Place { const char *before, *after; };
    std::vector<Place> places = {{"", ""}};
    if (f == "date") places = {{"", "2020-01-02"}, {"2020-01-02", ""}, {"2020-", "-02"}, {"2020-01-", ""}};
    if (f == "time") places = {{"12:34:56.", ""}, {"12:34:56.", "Z"}, {"12:34:56.", "z"}, {"12:34:56.", "+01:00"}, {"12:34:56.", "+24:00"}, {"12:34:56.", ".1Z"}, {"12:34:56", "Z"}, {"", "12:34:56Z"}, {"23:59:60.", "Z"}, {"23:58:60.", "Z"}, {"00:59:60.", "+01:00"}, {"12:34:", "Z"}, {"12:34:56Z", ""}, {"12:34:56+", ":00"}};
    if (f == "date-time") places = {{"2020-01-02T12:34:56.", "Z"}, {"2020-01-02T12:34:56.", ""}, {"2020-01-02T12:34:56.", "-23:59"}, {"2021-02-29T12:34:56.", "Z"}, {"2020-01-02T23:59:60.", "z"}, {"2020-01-02T23:59:60.", "+00:01"}, {"", "2020-01-02T12:34:56Z"}, {"2020-01-02T12:34:56Z", ""}, {"2020-01-02T12:34:56", "Z"}};
    if (f == "ipv4") places = {{"", ".2.3.4"}, {"1.2.3.", ""}, {"1.", ".3.4"}, {"1.2.3.4", ""}};
    for (auto &pl : places) for (size_t n : sizes) for (char ch : {'9', '0', 'a', '.', ':', '1'}) {
        if (run.full() || !run.mine(idx++)) continue;
        J v(pl.before + std::string(n, ch) + pl.after); int acc = 0;
        for (bool strict : {true, false}) {
            J c = J::obj({{"format", J(f)}, {"schema", J((int)(n % 3))}, {"strict", J(strict)}, {"before", J(pl.before)}, {"run", J(std::string(1, ch))}, {"n", J((long long)n)}, {"after", J(pl.after)}});
            run.slot(0, c.str());
            std::string m = one(fm, (int)(n % 3), f, v, strict, &acc);
            if (m.size() > 300) m = m.substr(0, 150) + "..." + m.substr(m.size() - 100);
            run.c("validations") += 2; run.c("comparisons")++; if (!m.empty()) run.violation(c, m);
        }
        run.c("strings")++; run.c("long_strings")++; run.c(acc ? "accepted" : "rejected")++;
    }
    T(nines.substr(11)); T(std::string(900, '1') + "-01-01"); T(std::string(900, '1') + ".1.1.1");
}
