// C09: what the errors of one run must look like.
#pragma once
#include "ref.hpp"
#include "rj.hpp"
namespace ej {
// the list form that agrees with a pointer into this document, empty if the pointer designates nothing
inline std::vector<std::string> contextOf(const J &doc, const std::string &ptr) {
    std::vector<std::string> c = {"<root>"}; const J *n = &doc; size_t k = 0;
    while (k < ptr.size()) {
        if (ptr[k] != '/') return {};
        size_t e = ptr.find('/', k + 1); if (e == std::string::npos) e = ptr.size();
        std::string raw = ptr.substr(k + 1, e - k - 1), one = "/" + raw, tok;
        const J *t = ref::pointer(*n, one); if (!t) return {};
        for (size_t q = 0; q < raw.size(); q++) { if (raw[q] == '~') tok += raw[++q] == '0' ? '~' : '/'; else tok += raw[q]; }
        c.push_back(n->t == J::Arr ? "[" + tok + "]" : "[\"" + tok + "\"]");
        n = t; k = e;
    }
    return c;
}
inline std::string judge(const ref::Sites &st, const J &inst, const valijson::ValidationResults &res) {
    std::set<std::string> at;
    for (auto &e : res) {
        auto want = contextOf(inst, e.jsonPointer);
        if (want.empty()) return "error at " + J(e.jsonPointer).str() + ", which designates nothing: " + e.description;
        if (want != e.context) return "error at " + J(e.jsonPointer).str() + " has another context";
        if (!st.failing.count(e.jsonPointer)) return "error at " + J(e.jsonPointer).str() + ", where nothing fails: " + e.description;
        at.insert(e.jsonPointer);
    }
    for (auto &d : st.direct) {
        auto it = at.lower_bound(d);
        bool ok = it != at.end() && *it == d;
        if (!ok) { it = at.lower_bound(d + "/"); ok = it != at.end() && it->compare(0, d.size() + 1, d + "/") == 0; }
        if (!ok) return "no error covers " + J(d).str() + ", which fails";
    }
    return "";
}
} // namespace ej
