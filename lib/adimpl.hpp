// Generic part of an adapter translation unit. The including file defines
//   Doc            the library's document type
//   void put(Doc &, const J &)      build
//   J    take(const Doc &)          read back natively
// and instantiates Impl<AdapterT, Doc>.
#pragma once
#include "adlib.hpp"
#include <cerrno>
#include <type_traits>

namespace adimpl {
using valijson::adapters::Adapter;
// some bundled iterators only move forward
template <class T> auto canDec(int) -> decltype(--std::declval<T &>(), std::true_type());
template <class T> std::false_type canDec(...);
template <class It> void checkDec(It &it, const It &expected, std::function<void(const std::string &)> bad) {
    if constexpr (decltype(canDec<It>(0))::value) { --it; if (!(it == expected)) bad("decrement"); } else it = expected;
}

// Reconstruct the value through the typed adapter interface, checking that the
// ways of asking agree with each other. err is set on disagreement.
template <class A> J present(const A &a, std::string &err, bool typed, int depth = 0) {
    auto bad = [&](const std::string &m) { if (err.empty()) err = m; };
    int kinds = a.isNull() + a.isBool() + a.isNumber() + a.isString() + a.isArray() + a.isObject();
    if (kinds != 1) { bad("reports " + std::to_string(kinds) + " types"); return J(); }
    if (a.isNumber() != (a.isInteger() || a.isDouble())) bad("isNumber disagrees with isInteger/isDouble");
    // tentative reads: succeed exactly for the type, never touch the output otherwise
    { bool b = true, c = false; bool r = a.getBool(b), q = a.getBool(c);
      if (r != q) bad("getBool unstable");
      if (typed && r != a.isBool()) bad("getBool");
      if (!r && (b != true || c != false)) bad("getBool altered its output");
      if (r && b != c) bad("getBool value unstable"); }
    { double d = 123.25; bool r = a.getDouble(d);
      if (typed && r != a.isDouble()) bad("getDouble");
      if (!r && d != 123.25) bad("getDouble altered its output"); }
    { int64_t i = 77; bool r = a.getInteger(i);
      if (typed && r && !a.isInteger()) bad("getInteger on a non-integer");
      if (typed && a.isInteger() && !r && !a.isDouble()) bad("getInteger refused");
      if (!r && i != 77) bad("getInteger altered its output"); }
    { double d = 5.5; bool r = a.getNumber(d);
      if (r != a.isNumber()) bad("getNumber");
      if (!r && d != 5.5) bad("getNumber altered its output"); }
    { std::string s = "k"; bool r = a.getString(s);
      if (r != a.isString()) bad("getString");
      if (!r && s != "k") bad("getString altered its output"); }
    { size_t n = 99; bool r = a.getArraySize(n);
      if (r != a.isArray()) bad("getArraySize");
      if (!r && n != 99) bad("getArraySize altered its output"); }
    { size_t n = 99; bool r = a.getObjectSize(n);
      if (r != a.isObject()) bad("getObjectSize");
      if (!r && n != 99) bad("getObjectSize altered its output"); }
    auto throws = [&](auto f) { try { f(); return false; } catch (const std::exception &) { return true; } };
    if (typed) {
        if (throws([&] { (void)a.getBool(); }) != !a.isBool()) bad("getBool()");
        if (throws([&] { (void)a.getNumber(); }) != !a.isNumber()) bad("getNumber()");
    }
    if (throws([&] { (void)a.getString(); }) != !a.isString()) bad("getString()");
    if (throws([&] { (void)a.getArraySize(); }) != !a.isArray()) bad("getArraySize()");
    if (throws([&] { (void)a.getObjectSize(); }) != !a.isObject()) bad("getObjectSize()");
    if (throws([&] { (void)a.getArray(); }) != !a.isArray()) bad("getArray()");
    if (throws([&] { (void)a.getObject(); }) != !a.isObject()) bad("getObject()");

    if (a.isNull()) return J();
    if (a.isBool()) { bool b; a.getBool(b); if (b != a.asBool()) bad("asBool"); return J(b); }
    if (a.isInteger()) {
        int64_t i;
        if (a.getInteger(i)) {
            if (a.asInteger() != i || a.getInteger() != i) bad("asInteger");
            double n = 0; if (!a.getNumber(n) || n != (double)i) bad("getNumber of an integer");
            if (a.asDouble() != (double)i) bad("asDouble of an integer");
            return J((long long)i);
        }
    }
    if (a.isDouble()) { double d = 0; a.getDouble(d); if (a.asDouble() != d || a.getNumber() != d || a.getDouble() != d) bad("asDouble"); return J(d); }
    if (a.isString()) { std::string s = a.getString(), t; if (a.asString() != s) bad("asString"); if (!a.getString(t) || t != s) bad("getString value"); return J(s); }
    if (a.isArray()) {
        J r = J::arr();
        auto arr = a.getArray();
        auto arr2 = a.asArray();
        size_t n = a.getArraySize();
        if (arr.size() != n || arr2.size() != n) bad("array sizes disagree");
        for (const A e : arr) r.push(present(e, err, typed, depth + 1));
        if (r.a.size() != n) bad("iteration visits " + std::to_string(r.a.size()) + " of " + std::to_string(n) + " elements");
        // by callback
        size_t k = 0; bool same = true;
        bool done = a.applyToArray([&](const Adapter &e) { same = same && k < r.a.size() && e.isArray() == (r.a[k].t == J::Arr) && e.isString() == (r.a[k].t == J::Str); k++; return true; });
        if (!done || k != n || !same) bad("applyToArray disagrees with iteration");
        k = 0; done = a.applyToArray([&](const Adapter &) { k++; return false; });
        if (n && (done || k != 1)) bad("applyToArray does not stop");
        // iterator algebra: every (advance, step) reaches the same element
        for (size_t x = 0; x < n && x < 4; x++) {
            auto it = arr.begin(); it.advance((std::ptrdiff_t)x);
            auto jt = arr.begin(); for (size_t y = 0; y < x; y++) ++jt;
            if (!(it == jt) || it != jt) bad("advance and ++ disagree");
            std::string e2; J v = depth < 6 ? present(*it, e2, typed, depth + 1) : r.a[x];    // twice per level: bounded
            if (!e2.empty()) bad(e2);
            if (!jeq(v, r.a[x])) bad("advance reaches another element");
            if (!it->equalTo(*jt, true) && typed) bad("element differs from itself");
            auto pre = it++; if (!(pre == jt) || it == jt) bad("post-increment");
            checkDec(it, jt, bad);
            if (x > 0 && decltype(canDec<decltype(it)>(0))::value) { it.advance(-(std::ptrdiff_t)x); if (it != arr.begin()) bad("advance backwards"); }
        }
        return r;
    }
    J r = J::obj();
    auto obj = a.getObject();
    auto obj2 = a.asObject();
    size_t n = a.getObjectSize();
    if (obj.size() != n || obj2.size() != n) bad("object sizes disagree");
    for (const auto m : obj) { J v = present(A(m.second), err, typed, depth + 1); r.o.emplace_back(m.first, v); }
    if (r.o.size() != n) bad("iteration visits " + std::to_string(r.o.size()) + " of " + std::to_string(n) + " members");
    size_t k = 0; bool same = true;
    bool done = a.applyToObject([&](const std::string &nm, const Adapter &) { same = same && k < r.o.size() && r.o[k].first == nm; k++; return true; });
    if (!done || k != n || !same) bad("applyToObject disagrees with iteration");
    k = 0; done = a.applyToObject([&](const std::string &, const Adapter &) { k++; return false; });
    if (n && (done || k != 1)) bad("applyToObject does not stop");
    auto itn = obj.begin();
    for (auto &m : r.o) {
        auto f = obj.find(m.first);
        if (f == obj.end()) { bad("find misses the member " + m.first); continue; }
        if ((*f).first != m.first || f->first != m.first) bad("find returns another member");
        std::string e2; J v = depth < 6 ? present(A((*f).second), e2, typed, depth + 1) : m.second;
        if (!jeq(v, m.second)) bad("find returns another value");
        auto pre = itn++; if ((*pre).first != m.first) bad("post-increment of a member iterator");
        if (itn == pre) bad("member iterator did not advance");
        checkDec(itn, pre, bad); ++itn;
    }
    if (itn != obj.end()) bad("member iteration does not end");
    for (std::string absent : {std::string("absent"), std::string(""), std::string("a\0x", 3), std::string("A")})
        if (!r.get(absent) && obj.find(absent) != obj.end()) bad("find invents a member");
    return r;
}

// Number texts the weak conversions must read, and their values.
inline bool numText(const std::string &s, bool &integral, double &d, int64_t &i, bool &fits) {
    size_t k = 0, n = s.size(); integral = true;
    if (k < n && s[k] == '-') k++;
    size_t d0 = k; while (k < n && s[k] >= '0' && s[k] <= '9') k++;
    if (k == d0) return false;
    if (k < n && s[k] == '.') { integral = false; size_t f = ++k; while (k < n && s[k] >= '0' && s[k] <= '9') k++; if (k == f) return false; }
    if (k < n && (s[k] == 'e' || s[k] == 'E')) { integral = false; k++; if (k < n && (s[k] == '+' || s[k] == '-')) k++; size_t f = k; while (k < n && s[k] >= '0' && s[k] <= '9') k++; if (k == f) return false; }
    if (k != n) return false;
    d = strtod(s.c_str(), nullptr);
    if (integral) { errno = 0; i = strtoll(s.c_str(), nullptr, 10); fits = errno == 0; }
    return true;
}
// The documented loose conversions of a value, against every maybe/as pair.
inline std::string weakBase(const Adapter &a, const J &n, bool texty) {
    std::string err;
    auto bad = [&](const std::string &m) { if (err.empty()) err = m; };
    auto throws = [&](auto f) { try { f(); return false; } catch (const std::exception &) { return true; } };
    bool mB = false, mI = false, mD = false, mN = false, mS = false, mA = false, mO = false;
    try { mB = a.maybeBool(); mI = a.maybeInteger(); mD = a.maybeDouble(); mN = a.maybeNull(); mS = a.maybeString(); mA = a.maybeArray(); mO = a.maybeObject(); }
    catch (const std::exception &e) { return std::string("a maybe query threw ") + e.what(); }
    bool oB = true, oB2 = false; int64_t oI = 77; double oD = 5.25; std::string oS = "keep";
    bool rB, rB2, rI, rD, rS;
    try { rB = a.asBool(oB); rB2 = a.asBool(oB2); rI = a.asInteger(oI); rD = a.asDouble(oD); rS = a.asString(oS); }
    catch (const std::exception &e) { return std::string("a tentative read threw ") + e.what(); }
    if (rB != rB2) bad("asBool unstable");
    if (mB && !rB) bad("maybeBool but asBool fails");
    if (mI && !rI) bad("maybeInteger but asInteger fails");
    if (mD && !rD) bad("maybeDouble but asDouble fails");
    if (mS && !rS) bad("maybeString but asString fails");
    if (!rB && (oB != true || oB2 != false)) bad("a failing asBool altered its output");
    if (!rI && oI != 77) bad("a failing asInteger altered its output");
    if (!rD && oD != 5.25) bad("a failing asDouble altered its output");
    if (!rS && oS != "keep") bad("a failing asString altered its output");
    if (throws([&] { if (a.asBool() != oB) bad("asBool values differ"); }) == rB) bad("throwing asBool disagrees");
    if (throws([&] { if (a.asInteger() != oI) bad("asInteger values differ"); }) == rI) bad("throwing asInteger disagrees");
    if (throws([&] { double x = a.asDouble(); if (x != oD && !(x != x && oD != oD)) bad("asDouble values differ"); }) == rD) bad("throwing asDouble disagrees");
    if (throws([&] { if (a.asString() != oS) bad("asString values differ"); }) == rS) bad("throwing asString disagrees");
    if (rI && (!rD || oD != (double)oI)) bad("integer and number views differ");
    // values by the documented conversions
    bool isInt = false, fits = false; double d = 0; int64_t i = 0;
    bool num = n.t == J::Str && numText(n.s, isInt, d, i, fits);
    bool wB = n.t == J::Bool || (n.t == J::Str && (n.s == "true" || n.s == "false"));
    if (mB != wB || rB != wB) bad("boolean view");
    if (rB && oB != (n.t == J::Bool ? n.b : n.s == "true")) bad("boolean value");
    if (n.t == J::Int) { if (!mI || oI != n.i || !mD || oD != (double)n.i) bad("number views of an integer"); }
    else if (n.t == J::Dbl) {
        bool in = n.isIntegral() && n.d >= -9223372036854775808.0 && n.d < 9223372036854775808.0;
        if (!mD || oD != n.d) bad("number view of a double");
        if (mI != in || rI != in || (in && oI != (int64_t)n.d)) bad("integer view of a double");
    } else if (n.t == J::Str) {
        if (num) {
            if (std::isinf(d) || (d == 0 && strpbrk(n.s.c_str(), "123456789"))) {}       // out of range: either refusal or the limit
            else if (!mD || oD != d) bad("number view of text");
            bool in = isInt && fits;
            if (mI != in || rI != in || (in && oI != i)) bad("integer view of text");
        } else {
            if (mI || rI) bad("integer view of text that is no integer");
            // "5.", ".5", "inf" and "nan" are left to the conversion functions (C24)
            if ((mD || rD) && (n.s.empty() || strpbrk(n.s.c_str(), " +") == n.s.c_str() || n.s.find_first_not_of("0123456789.-+eEinfatyINFATY") != std::string::npos)) bad("number view of text that is no number");
        }
    } else if (mI || rI || mD || rD) bad("number view of another type");
    if (mN != (n.t == J::Null || (n.t == J::Str && n.s.empty()))) bad("null view");
    bool empty = (n.t == J::Arr && n.a.empty()) || (n.t == J::Obj && n.o.empty());
    if (mS != (n.t == J::Str || n.t == J::Bool || n.isNum() || empty)) bad("string view");
    if (rS) {
        std::string w = n.t == J::Str ? n.s : n.t == J::Bool ? (n.b ? "true" : "false") : n.t == J::Int ? std::to_string(n.i) : "";
        if (n.t != J::Dbl ? oS != w : strtod(oS.c_str(), nullptr) != strtod(std::to_string(n.d).c_str(), nullptr) && oS.find_first_not_of("-0123456789") != std::string::npos) bad("string value");
    }
    bool emptyText = texty && n.t == J::Str && n.s.empty();
    if (!emptyText) {
        if (mA != (n.t == J::Arr || (n.t == J::Obj && n.o.empty()))) bad("array view");
        if (mO != (n.t == J::Obj || (n.t == J::Arr && n.a.empty()))) bad("object view");
    }
    size_t want = n.t == J::Arr ? n.a.size() : n.t == J::Obj ? n.o.size() : 0, got = 0;
    try {
        bool r = a.applyToArray([&](const Adapter &) { got++; return true; });
        if (r != mA || (mA && got != (n.t == J::Arr ? want : 0))) bad("applyToArray on an array view");
        got = 0;
        r = a.applyToObject([&](const std::string &, const Adapter &) { got++; return true; });
        if (r != mO || (mO && got != (n.t == J::Obj ? want : 0))) bad("applyToObject on an object view");
    } catch (const std::exception &e) { bad(std::string("iteration threw ") + e.what()); }
    return err;
}
template <class A> std::string weakTyped(const A &a, const J &n) {
    std::string err = weakBase(a, n, false);
    if (!err.empty()) return err;
    try {
        if (a.maybeArray()) { auto x = a.asArray(); size_t k = 0; for (const A e : x) { (void)e; k++; } if (k != x.size() || k != (n.t == J::Arr ? n.a.size() : 0)) return "asArray"; }
        if (a.maybeObject()) { auto x = a.asObject(); size_t k = 0; for (const auto m : x) { (void)m; k++; } if (k != x.size() || k != (n.t == J::Obj ? n.o.size() : 0)) return "asObject"; if (n.t == J::Arr && x.find("a") != x.end()) return "asObject find"; }
    } catch (const std::exception &e) { return std::string("reading a value as the type it may be read as threw ") + e.what(); }
    try { auto x = a.asArray(); if (!a.maybeArray() && x.size()) return "asArray of something else"; } catch (const std::exception &) { if (a.maybeArray()) return "asArray"; }
    try { auto x = a.asObject(); if (!a.maybeObject() && x.size()) return "asObject of something else"; } catch (const std::exception &) { if (a.maybeObject()) return "asObject"; }
    if (n.t == J::Arr) for (size_t k = 0; k < n.a.size(); k++) { auto it = a.getArray().begin(); it.advance((std::ptrdiff_t)k); A e(*it); err = weakTyped(e, n.a[k]); if (!err.empty()) return err; }
    if (n.t == J::Obj) for (auto &m : n.o) { auto o = a.getObject(); auto it = o.find(m.first); if (it == o.end()) return "find"; A e((*it).second); err = weakTyped(e, m.second); if (!err.empty()) return err; }
    return "";
}

template <class A, class Doc> struct Impl : Handle {
    Doc doc;
    std::unique_ptr<A> a;
    bool typed;
    void (*putf)(Doc &, const J &);
    J (*takef)(const Doc &);
    Impl(bool t, void (*p)(Doc &, const J &), J (*k)(const Doc &)) : typed(t), putf(p), takef(k) {}
    const valijson::adapters::Adapter &ad() const override { return *a; }
    J native() const override { return takef(doc); }
    std::string walk() const override {
        std::string err;
        J before = takef(doc);
        J p = present(*a, err, typed);
        if (!err.empty()) return err;
        if (!jeq(p, before)) return "adapter presents " + p.str() + " for " + before.str();
        if constexpr (std::is_copy_assignable<A>::value) {
            A c; c = *a; std::string e3; J q = present(c, e3, typed);
            if (!e3.empty() || !jeq(q, p)) return "an assigned adapter presents " + q.str();
            A &self = c; c = self; q = present(c, e3, typed);
            if (!e3.empty() || !jeq(q, p)) return "a self-assigned adapter presents " + q.str();
        }
        A copy(*a); std::string e2; J q = present(copy, e2, typed);
        if (!e2.empty() || !jeq(q, p)) return "a copied adapter presents " + q.str();
        J after = takef(doc);
        if (after.str() != before.str()) return "reading changed the document from " + before.str() + " to " + after.str();
        return "";
    }
    std::string weak() const override {
        J before = takef(doc);
        std::string err = weakTyped(*a, before);
        if (!err.empty()) return err;
        J after = takef(doc);
        return after.str() == before.str() ? "" : "reading changed the document to " + after.str();
    }
    int populateRemote(valijson::SchemaParser &p, valijson::Schema &s, const std::vector<std::pair<std::string, J>> &docs) const override {
        typedef typename valijson::adapters::AdapterTraits<A>::DocumentType DT;
        int n = 0;
        p.populateSchema<A>(*a, s,
            [&](const std::string &uri) -> const DT * {
                for (auto &d : docs) if (d.first == uri) { auto x = std::make_unique<Doc>(); putf(*x, d.second); n++; return x.release(); }
                return nullptr;
            },
            [&](const DT *x) { Doc *d = const_cast<Doc *>(static_cast<const Doc *>(x)); { HarnessWork w; putf(*d, J::arr({J(7), J("freed")})); } delete d; });
        return n;
    }
    void populate(valijson::SchemaParser &p, valijson::Schema &s) const override { p.populateSchema(*a, s); }
    bool validate(valijson::Validator &v, const valijson::Schema &s, valijson::ValidationResults *r) const override { return v.validate(s, *a, r); }
    void scramble() override { J v = J::arr({J(4242), J("scrambled")}); putf(doc, v); }
};

template <class A, class Doc>
AdLib make(const char *name, bool typed, void (*put)(Doc &, const J &), J (*take)(const Doc &), bool (*can)(const J &)) {
    AdLib l; l.name = name; l.typed = typed; l.can = can;
    l.build = [=](const J &j) {
        auto h = std::make_unique<Impl<A, Doc>>(typed, put, take);
        put(h->doc, j); h->a = std::make_unique<A>(h->doc); return std::unique_ptr<Handle>(std::move(h));
    };
    l.defaults = [=]() -> std::string {
        A a, b(a); std::string err;
        for (const A *x : {&a, &b}) {
            J v = present(*x, err, typed);
            if (!err.empty()) return "default-constructed adapter: " + err;
            if (v.t != J::Obj || !v.o.empty()) return "default-constructed adapter presents " + v.str();
        }
        if (!a.equalTo(b, true)) return "default-constructed adapters differ";
        std::unique_ptr<valijson::adapters::FrozenValue> f(a.freeze());
        if (!f->equalTo(a, typed)) return "frozen empty object differs";   // a property tree cannot tell {} from []
        return "";
    };
    return l;
}
inline bool anyJ(const J &) { return true; }
} // namespace adimpl
