#define VP_MAIN
#include "vp.hpp"
#include "string_frag.hpp"
using namespace vp;
static std::string same(const StringFrag& f, const std::string& t, const char* what) {
    VP_REQUIRE(f.str() == t, what << ": text is " << show(f.str()) << " instead of " << show(t));
    VP_REQUIRE(f.length() == t.size(), what << ": length " << f.length() << " instead of " << t.size());
    for (size_t i = 0; i < t.size(); ++i) { VP_REQUIRE(f[i] == t[i], what << ": byte " << i); VP_REQUIRE(f.data()[i] == t[i], what << ": data byte " << i); }
    return "";
}
// one fragment of a given kind, one operation (replays solver counterexamples)
static std::string op(const std::string& in) {
    Choices c(in); unsigned o = c.below(6), K = c.below(5); std::string s = c.str(c.byte()), s2 = c.str(c.byte());
    size_t b = c.byte(), k = c.byte(), n = c.byte();
    if (b > s.size()) b = s.empty() ? 0 : b % (s.size() + 1);
    if (n > s.size() - b) n = n % (s.size() - b + 1);
    if (K == 2 && k > n) k = k % (n + 1);
    if (K >= 3 && k > b) k = k % (b + 1);
    std::string T = s.substr(b, n);
    StringFrag base = K == 4 ? StringFrag(s.substr(K >= 3 ? b - k : 0, n + k)) : StringFrag(s, K >= 3 ? b - k : 0, K >= 3 ? n + k : 0);
    StringFrag f = K == 0 ? StringFrag(s, b, n) : K == 1 ? StringFrag(T) : K == 2 ? StringFrag(s, b, k) : StringFrag(base, k, n);
    if (K == 2) f.append(StringFrag(s, b + k, n - k));
    std::string r = same(f, T, "fragment"); if (!r.empty()) return r;
    { StringFrag g(f); r = same(g, T, "copy"); if (!r.empty()) return r; StringFrag h("zz"); h = f; r = same(h, T, "assigned"); if (!r.empty()) return r; }
    size_t x = c.byte(), y = c.byte();
    if (o == 2 || o < 2) {
        char ch = (char)(c.more() ? c.byte() : y); if (o < 2) { x = 0; ch = T.empty() ? 'a' : T.back(); }
        for (char q : {ch, (char)y, s.empty() ? 'a' : s[(b + n) % s.size()]}) { VP_REQUIRE(f.find(q, x) == T.find(q, x), "find from " << x << " gives " << f.find(q, x) << " not " << T.find(q, x)); }
    } else if (o == 3) {
        if (x > T.size()) x %= T.size() + 1;
        VP_REQUIRE(f.substr(x, y) == T.substr(x, y), "substr"); VP_REQUIRE(f.substr(x) == T.substr(x), "substr to the end"); VP_REQUIRE(f.substr() == T, "whole substr");
        if (y > T.size() - x) y %= T.size() - x + 1;
        StringFrag g(f, x, y); r = same(g, T.substr(x, y), "sub-fragment"); if (!r.empty()) return r;
    } else {
        const std::string& src = o == 4 ? s : s2;
        if (x > src.size()) x %= src.size() + 1;
        if (y > src.size() - x) y %= src.size() - x + 1;
        { StringFrag h(f); h.append(StringFrag(src, x, y)); r = same(h, T + src.substr(x, y), "append of a view"); if (!r.empty()) return r; h.append(h); r = same(h, T + src.substr(x, y) + T + src.substr(x, y), "append of itself"); if (!r.empty()) return r; }
        { StringFrag h(f); h.append(StringFrag(src.substr(x, y))); r = same(h, T + src.substr(x, y), "append of owned text"); if (!r.empty()) return r; }
        { StringFrag g(src, x, y); g.append(f); r = same(g, src.substr(x, y) + T, "append to a view"); if (!r.empty()) return r; }
    }
    return "";
}
// histories of operations on a pool of fragments against plain strings
static std::string history(const std::string& in) {
    Choices c(in); std::vector<std::string> src = {"abcabcabc", "", "aXbXc", "abcabcabc", "zażółć"}; std::vector<StringFrag> f; std::vector<std::string> t;
    while (c.more() && f.size() < 12) {
        unsigned o = c.below(5);
        const std::string& s = src[c.below(5)]; size_t b = c.below(s.size() + 1), n = c.below(s.size() - b + 1);
        if (o == 0 || f.empty()) { f.push_back(StringFrag(s, b, n)); t.push_back(s.substr(b, n)); }
        else { size_t i = c.below(f.size()), j = c.below(f.size());
            if (o == 1) { if (t[i].size() + t[j].size() < 400) { f[i].append(f[j]); t[i] += std::string(t[j]); } }
            else if (o == 2) { f[i] = f[j]; t[i] = t[j]; }
            else if (o == 3) { f[i].append(StringFrag(s, b, n)); t[i] += s.substr(b, n); }
            else { size_t p = c.below(t[i].size() + 1), m = c.below(t[i].size() - p + 1); if (f.capacity() == f.size()) f.reserve(64); StringFrag g(f[i], p, m); f.push_back(g); t.push_back(t[i].substr(p, m)); } }
        for (size_t k = 0; k < f.size(); ++k) { std::string r = same(f[k], t[k], "history"); if (!r.empty()) return r;
            VP_REQUIRE(f[k].find('X') == t[k].find('X') && f[k].find('c', 2) == t[k].find('c', 2), "find in history"); }
    }
    return "";
}
void vp_register() {
    tests().push_back(Test("op", op, {}, 0, 60, {std::string("\x04\x02\x05""abcab\x03xyz\x01\x01\x03\x01\x02", 16)}));
    tests().push_back(Test("history", history, {std::string("\x00\x01\x02\x03\x04", 5)}, 7, 60));
}
