// UTF-8 coding and case conversion against the Unicode definition
#define VP_MAIN
#include "vp.hpp"
#include "utf8/utf8.h"
#include "case_converter_factory.hpp"
#include "simple_convert.hpp"
using namespace vp;
typedef CaseConverterFactory<std::string::const_iterator, std::back_insert_iterator<std::string> > Factory;
struct Row { uint32_t cp; const char *l, *u, *t; };
static const Row ROWS[] = {
#include "unicode_case.inc"
};
static std::string enc(uint32_t c) {
    std::string r;
    if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 + c / 64); r += (char)(0x80 + c % 64); }
    else if (c < 0x10000) { r += (char)(0xE0 + c / 4096); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    else { r += (char)(0xF0 + c / 262144); r += (char)(0x80 + c / 4096 % 64); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    return r;
}
static std::map<uint32_t, const Row*>& rows() { static std::map<uint32_t, const Row*> m; if (m.empty()) for (const Row& r : ROWS) m[r.cp] = &r; return m; }
static std::string cased(uint32_t c, int k) { auto i = rows().find(c); return i == rows().end() ? enc(c) : k == 0 ? i->second->l : k == 1 ? i->second->u : i->second->t; }
static boost::shared_ptr<StringGeneralCaseConverter> conv(int k, const std::string& lang) { static Factory f; return k == 0 ? f.getLowerCaseConverter(lang) : k == 1 ? f.getUpperCaseConverter(lang) : f.getTitleCaseConverter(lang); }
static boost::shared_ptr<StringGeneralCaseConverter> C(int k, int lang) { static std::map<int, boost::shared_ptr<StringGeneralCaseConverter> > m; static const char* L[] = {"en", "pl", "tr", "az"}; auto& p = m[k * 4 + lang]; if (!p) p = conv(k, L[lang]); return p; }
static std::string K(uint32_t c) { char b[16]; snprintf(b, 16, "U+%04X", c); return b; }
// the reference decoder: the well-formed sequence at the start of s (0: none)
static int ref(const std::string& s, size_t p, uint32_t& cp) {
    auto B = [&](size_t i) { return p + i < s.size() ? (unsigned char)s[p + i] : 0u; };
    unsigned a = B(0); int n = a < 0x80 ? 1 : a < 0xC2 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF5 ? 4 : 0; if (p >= s.size() || !n) return 0;
    cp = n == 1 ? a : a & (0x7F >> n); for (int i = 1; i < n; ++i) { if ((B(i) & 0xC0) != 0x80) return 0; cp = cp * 64 + (B(i) & 63); }
    return enc(cp).size() == (size_t)n && cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF) ? n : 0;
}
static std::string all(const std::string& in) {   // every code point
    VP_REQUIRE(in.empty(), "");
    static const char* N[] = {"lower", "upper", "title"};
    for (uint32_t c = 0; c < 0x110000; ++c) {
        if (c >= 0xD800 && c <= 0xDFFF) continue;
        std::string s = enc(c), o; utf8::append(c, std::back_inserter(o)); VP_REQUIRE(o == s, K(c) << " is encoded as " << show(o));
        auto i = s.cbegin(); VP_REQUIRE(utf8::next(i, s.cend()) == c && i == s.cend(), K(c) << " is not decoded");
        for (int k = 0; k < 3; ++k) {
            std::string r = simpleConvert(*C(k, 0), s), w = cased(c, k);
            VP_REQUIRE(r == w, N[k] << " case of " << K(c) << " is " << show(r) << " instead of " << show(w));
            VP_REQUIRE(r == s || simpleWillBeTouchedWhenConverted(*C(k, 0), s), N[k] << " case of " << K(c) << " is said not to change it");
        }
    }
    return "";
}
static std::string upto(const std::vector<uint32_t>& v, size_t a, size_t b, int k, bool turkic) {
    std::string r;
    for (size_t i = a; i < b; ++i) {
        uint32_t c = v[i]; bool dotted = i + 1 < b && v[i + 1] == 0x307;
        if (turkic && k == 0 && c == 'I' && !dotted) r += "\xc4\xb1";
        else if (turkic && k == 0 && c == 0x130) r += "i";
        else if (turkic && k == 0 && c == 0x307 && i > a && v[i - 1] == 'I') {}
        else if (turkic && k != 0 && c == 'i') r += "\xc4\xb0";
        else r += cased(c, k);
    }
    return r;
}
static std::string strings(const std::string& in) {
    Choices c(in); int k = c.below(3), lang = c.below(4); bool tk = lang >= 2; std::vector<uint32_t> v; std::string s;
    static const uint32_t P[] = {'a', 'I', 'i', 0x307, 0x130, 0x131, 0xDF, 'Z', 0x104, 0x105, 0x1C5, 0x149, 0x3A3, 0xFB03, 0x1F80, 0x10428, 0x10400, 0x20AC, ' ', '1', 0x410};
    while (c.more() && v.size() < 40) { unsigned b = c.byte(); uint32_t x = b < 200 ? P[b % 21] : ROWS[(c.byte() * 256 + c.byte()) % (sizeof(ROWS) / sizeof(Row))].cp; v.push_back(x); s += enc(x); }
    StringGeneralCaseConverter& f = *C(k, lang); size_t n = v.size(), one = n ? 1 : 0; std::string h = n ? enc(v[0]) : "", rest = s.substr(h.size());
    std::string w = upto(v, 0, n, k, tk), g = simpleConvert(f, s);
    VP_REQUIRE(g == w, "conversion " << k << " of " << show(s) << " is " << show(g) << " instead of " << show(w));
    w = upto(v, 0, one, k, tk) + rest; g = simpleHeadConvert(f, s); VP_REQUIRE(g == w, "conversion " << k << " of the head of " << show(s) << " is " << show(g) << " instead of " << show(w));
    VP_REQUIRE(g == s || simpleWillBeTouchedWhenHeadConverted(f, s), "converting the head of " << show(s) << " is said not to change it");
    w = h + upto(v, one, n, k, tk); g = simpleTailConvert(f, s); VP_REQUIRE(g == w, "conversion " << k << " of the tail of " << show(s) << " is " << show(g) << " instead of " << show(w));
    VP_REQUIRE(g == s || simpleWillBeTouchedWhenTailConverted(f, s), "converting the tail of " << show(s) << " is said not to change it");
    // nothing is said to change when every character maps to itself and none has a special mapping
    bool any = false; for (uint32_t x : v) if (cased(x, k) != enc(x) || cased(x, 1) != enc(x) || cased(x, 0) != enc(x)) any = true;
    if (!any) VP_REQUIRE(!simpleWillBeTouchedWhenConverted(f, s) && !simpleWillBeTouchedWhenHeadConverted(f, s) && !simpleWillBeTouchedWhenTailConverted(f, s), show(s) << " is said to change");
    return "";
}
static std::string decode(const std::string& s) {
    size_t p = 0, n = 0; uint32_t cp = 0; bool bad = false; std::vector<uint32_t> v;
    while (p < s.size()) {
        int l = ref(s, p, cp); std::string::const_iterator i = s.begin() + p; bool threw = false; uint32_t got = 0;
        try { got = utf8::next(i, s.end()); } catch (utf8::exception&) { threw = true; }
        if (!l) { VP_REQUIRE(threw, "malformed text " << show(s) << " is accepted at " << p); bad = true; break; }
        VP_REQUIRE(!threw && got == cp && i - s.begin() == (long)p + l, "the character at " << p << " of " << show(s) << " is read as " << K(got) << (threw ? " (refused)" : ""));
        auto j = i; VP_REQUIRE(utf8::prior(j, s.begin()) == cp && j - s.begin() == (long)p, "stepping back in " << show(s));
        j = i; VP_REQUIRE(utf8::unchecked::prior(j) == cp && j - s.begin() == (long)p, "stepping back (unchecked) in " << show(s));
        j = s.begin() + p; VP_REQUIRE(utf8::unchecked::next(j) == cp && j == i && utf8::unchecked::sequence_length(s.begin() + p) == (unsigned)l, "unchecked reading of " << show(s));
        v.push_back(cp); p += l; ++n;
    }
    VP_REQUIRE(utf8::is_valid(s.begin(), s.end()) == !bad && utf8::find_invalid(s.begin(), s.end()) - s.begin() == (long)p, "validity of " << show(s));
    bool threw = false; long d = 0; try { d = utf8::distance(s.begin(), s.end()); } catch (utf8::exception&) { threw = true; }
    VP_REQUIRE(threw == bad && (bad || d == (long)n), "length of " << show(s) << " is " << d);
    if (bad) return "";
    auto i = s.begin(); utf8::advance(i, n, s.end()); auto u = s.begin(); utf8::unchecked::advance(u, n); VP_REQUIRE(i == s.end() && u == s.end(), "advancing in " << show(s));
    std::string o; for (uint32_t x : v) utf8::append(x, std::back_inserter(o)); VP_REQUIRE(o == s, show(s) << " is encoded as " << show(o));
    o = ""; for (uint32_t x : v) utf8::unchecked::append(x, std::back_inserter(o)); VP_REQUIRE(o == s, show(s) << " is encoded (unchecked) as " << show(o));
    std::vector<uint16_t> w; utf8::utf8to16(s.begin(), s.end(), std::back_inserter(w)); size_t k = 0;
    for (uint32_t x : v) { if (x < 0x10000) { VP_REQUIRE(k < w.size() && w[k] == x, "UTF-16 of " << show(s)); ++k; } else { VP_REQUIRE(k + 1 < w.size() && w[k] == 0xD800 + ((x - 0x10000) >> 10) && w[k + 1] == 0xDC00 + ((x - 0x10000) & 0x3FF), "UTF-16 of " << show(s)); k += 2; } }
    VP_REQUIRE(k == w.size(), "UTF-16 of " << show(s)); o = ""; utf8::utf16to8(w.begin(), w.end(), std::back_inserter(o)); VP_REQUIRE(o == s, show(s) << " through UTF-16 is " << show(o));
    return "";
}
static std::string encode(const std::string& in) {
    if (in.size() != 4) return ""; uint32_t c = 0; for (unsigned char x : in) c = c * 256 + x;
    bool ok = c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF), threw = false; std::string o; try { utf8::append(c, std::back_inserter(o)); } catch (utf8::exception&) { threw = true; }
    VP_REQUIRE(threw == !ok, K(c) << (threw ? " is refused" : " is accepted")); VP_REQUIRE(!ok || o == enc(c), K(c) << " is encoded as " << show(o));
    if (ok) { o = ""; utf8::unchecked::append(c, std::back_inserter(o)); VP_REQUIRE(o == enc(c), K(c) << " is encoded (unchecked) as " << show(o)); }
    return "";
}
void vp_register() {
    tests().push_back(Test("all", all, {std::string("a")}, 0, 0, {}, 0));
    tests().push_back(Test("strings", strings, {std::string("\x00\x01\x02\x03\x04\x05\x06\x0a\xc8", 9)}, 4, 50));
    tests().push_back(Test("decode", decode, {std::string("\x00\x41\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xed\xef\xf0\xf4\xf5\xff", 20)}, 4, 60, {"\xc4\x85", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "a"}));
    tests().push_back(Test("encode", encode, {std::string("\x00\x07\x08\x0f\x10\x11\x7f\x80\xd7\xd8\xdf\xe0\xff", 13)}, 4, 4));
}
