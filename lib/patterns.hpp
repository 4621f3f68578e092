// Patterns and the texts that probe them.
#pragma once
#include "mj.hpp"
#include <string>
#include <vector>
namespace fam {
// Patterns both grammars give a meaning to, built from parts: single items, quantified, in sequence, alternatives, groups.
inline std::vector<std::string> patterns(bool deep, size_t step = 0) {
    std::vector<std::string> atom = {"a", "b", ".", " ", "#", "\n", "\\n", "[^a]", "[a #]", "[a-c]", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "(a)", "(?:a|b)", "\\.", "-", ",", "=", "~", "\"", "/", "\\/", "\\\\", "\xc3\xa9", "A", "[^\\d\\s]", "\\t", "(?=a)", "(?!a)", "\\x61", "\\(", "\\[", "\\{", "<", ">", "_", "'", "`"};
    std::vector<std::string> zero = {"^", "$", "\\b", "\\B"}, quant = {"*", "+", "?", "{2}", "{0,1}", "{1,}", "*?", "+?"}, items, out = {""};
    for (auto &a : atom) { items.push_back(a); if (a.compare(0, 2, "(?") || a == "(?:a|b)") for (auto &q : quant) items.push_back(a + q); }
    for (auto &z : zero) items.push_back(z);
    for (auto &i : items) for (const char *w : {"%", "^%", "%$", "^%$", "(%)", "^(%|b)$", "x%", "%x"}) { std::string t; for (const char *c = w; *c; c++) { if (*c == '%') t += i; else t += *c; } out.push_back(t); }
    if (!step) step = deep ? 2 : 53; for (size_t a = 0; a < items.size(); a++) for (size_t b = 0; b < items.size(); b++) if ((a * items.size() + b) % step == 0) { out.push_back(items[a] + items[b]); out.push_back("^" + items[a] + items[b] + "$"); out.push_back(items[a] + "|" + items[b]); out.push_back("(" + items[a] + ")" + items[b] + "\\1"); }
    for (const char *t : {"^(a)\\1$", "^(a|b)*\\1$", "^a{2,3}$", "a # b", "^ a $", "(a)|b", "^(?:a|ab)(?:c|bcd)$", "^[\\w.]+@[\\w.]+$", "\\u0061", "[\\]]", "[-a]", "[a-]", "^(([a-c])+)$"}) out.push_back(t);
    return out;
}
inline std::vector<J> patternDocs(bool deep) {
    std::vector<std::string> al = {"a", "b", "\n", " ", "#", "1", "\r", "."}, more = {"\v", "\x7f", "x", "A", "-", "_", "\t", "\xc3\xa9", "{", "\\", "/", "~", ",", "\"", "=", "(", "[", "<", ">", "'", "`"}; std::vector<J> out = {J("")};
    std::vector<std::string> cur = {""}; for (int n = 1; n <= (deep ? 4 : 3); n++) { std::vector<std::string> nx; for (auto &c : cur) for (size_t k = 0; k < al.size(); k++) { if (n == 3 && k > 3 && !deep) continue; nx.push_back(c + al[k]); } cur = nx; for (auto &c : cur) out.push_back(J(c)); }
    for (auto &m : more) { out.push_back(J(m)); out.push_back(J(m + m)); out.push_back(J("a" + m)); out.push_back(J(m + "a")); out.push_back(J("a" + m + "\n")); }
    for (const char *t : {"ab@c.d", "abcd", "aabb", "a # b", "aaaa\nbbbb"}) out.push_back(J(t));
    return out;
}
} // namespace fam
