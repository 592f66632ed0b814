// E01: the real EncodingConverter (and tiniconv); the oracle is the C library's own iconv.
#define VP_MAIN
#include "vp.hpp"
#include "encoding_converter.hpp"
#include "tiniconv.h"
#include "logging.hpp"
#include <iconv.h>
#include <errno.h>
using namespace vp;
typedef std::string str;
// detection is not part of the property: it is replaced by a stand-in that reports what the test says
static str detected;
extern "C" { struct uchardet; typedef struct uchardet* uchardet_t; uchardet_t uchardet_new() { return 0; } void uchardet_delete(uchardet_t) {} int uchardet_handle_data(uchardet_t, const char*, size_t) { return 0; } void uchardet_data_end(uchardet_t) {} void uchardet_reset(uchardet_t) {} const char* uchardet_get_charset(uchardet_t) { return detected.c_str(); } }
struct Enc { const char *name, *libc; bool multi; };
static const Enc E[] = {{"windows-1250", "CP1250"}, {"windows-1251", "CP1251"}, {"windows-1252", "CP1252"}, {"windows-1253", "CP1253"}, {"windows-1254", "CP1254"}, {"windows-1255", "CP1255"}, {"windows-1256", "CP1256"}, {"windows-1257", "CP1257"}, {"windows-1258", "CP1258"},
    {"CP936", "CP936", true}, {"GBK", "CP936", true}, {"ISO-2022-JP", "ISO-2022-JP", true}, {"ISO-8859-1", "ISO-8859-1"}, {"ISO-8859-2", "ISO-8859-2"}, {"ISO-8859-3", "ISO-8859-3"}, {"ISO-8859-4", "ISO-8859-4"}, {"ISO-8859-5", "ISO-8859-5"}, {"ISO-8859-6", "ISO-8859-6"}, {"ISO-8859-7", "ISO-8859-7"}, {"ISO-8859-8", "ISO-8859-8"}, {"ISO-8859-9", "ISO-8859-9"}, {"ISO-8859-10", "ISO-8859-10"}, {"ISO-8859-11", "ISO-8859-11"}, {"ISO-8859-13", "ISO-8859-13"}, {"ISO-8859-14", "ISO-8859-14"}, {"ISO-8859-15", "ISO-8859-15"}, {"ISO-8859-16", "ISO-8859-16"},
    {"CP866", "CP866"}, {"KOI8-R", "KOI8-R"}, {"KOI8-RU", "KOI8-RU"}, {"KOI8-U", "KOI8-U"}, {"x-mac-cyrillic", "MAC-CYRILLIC"}, {"UCS-2", "UCS-2BE", true}, {"UTF-7", "UTF-7", true}, {"UTF-8", "UTF-8", true}, {"GB-2312", "EUC-CN", true}, {"Big5", "BIG5", true}};
static const unsigned NE = sizeof E / sizeof *E;
static iconv_t cd(unsigned e, bool from) { static iconv_t t[NE][2]; iconv_t& c = t[e][from]; if (!c) c = from ? iconv_open("UTF-8", E[e].libc) : iconv_open(E[e].libc, "UTF-8"); return c; }
// 0: done, 1: an incomplete character at the end, 2: not valid (or not representable)
static int conv(unsigned e, bool from, const str& in, str& out) { iconv_t c = cd(e, from); if (c == (iconv_t)-1) return 2; iconv(c, 0, 0, 0, 0); out.assign(in.size() * 8 + 64, 0); char *ip = const_cast<char*>(in.data()), *op = &out[0]; size_t il = in.size(), ol = out.size(); size_t r = iconv(c, &ip, &il, &op, &ol); int st = 0; if (r == (size_t)-1) st = errno == EINVAL ? 1 : 2; if (st == 0 || st == 1) iconv(c, 0, 0, &op, &ol); out.resize(op - &out[0]); return st == 0 && r != 0 ? 2 : st; }
static str u8(unsigned c) { str r; if (c < 0x80) r += c; else if (c < 0x800) { r += 0xC0 | c >> 6; r += 0x80 | (c & 63); } else if (c < 0x10000) { r += 0xE0 | c >> 12; r += 0x80 | (c >> 6 & 63); r += 0x80 | (c & 63); } else { r += 0xF0 | c >> 18; r += 0x80 | (c >> 12 & 63); r += 0x80 | (c >> 6 & 63); r += 0x80 | (c & 63); } return r; }
// characters that this version's tables and the C library's have in different places (variants of the encodings)
static bool variant(unsigned e, unsigned c) {
    static const unsigned koi[] = {0xA4, 0xAB, 0xAE, 0xBB, 0x2014, 0x201C, 0x201D, 0x2116, 0x2122}, mac[] = {0x490, 0x491};
    static const unsigned big5[] = {
#include "e01_big5.inc"
    };
    str n = E[e].name; if (n == "KOI8-RU") { for (unsigned x : koi) if (x == c) return true; } else if (n == "x-mac-cyrillic") { for (unsigned x : mac) if (x == c) return true; } else if (n == "Big5") { for (unsigned i = 0; i < sizeof big5 / sizeof *big5; i += 2) if (c >= big5[i] && c <= big5[i + 1]) return true; }
    else if (n == "UCS-2") return c == 0xFEFF || c == 0xFFFE; else if (n == "UTF-7") return c == 0xFEFF; else if (n == "ISO-2022-JP") return c == 0x1B || c == 0xE || c == 0xF; else if (n == "windows-1258") return c == 0x385;
    return false;
}
static const std::vector<unsigned>& pool(unsigned e) {      // the characters the encoding has (in both views)
    static std::vector<unsigned> p[NE]; static bool done[NE]; if (!done[e]) { done[e] = true; for (unsigned c = 0; c < 0x10000; ++c) { if (c >= 0xD800 && c < 0xE000) continue; str b, u; if (variant(e, c)) continue; if (conv(e, false, u8(c), b) == 0 && conv(e, true, b, u) == 0 && u == u8(c)) p[e].push_back(c); } if (E[e].multi && strchr(E[e].name, 'T')) for (unsigned c = 0x10000; c < 0x110000; c += 977) p[e].push_back(c); }
    return p[e];
}
// the last character of a Hebrew or Vietnamese text may be held back by the decoder (a known finding)
static bool heldBack(unsigned e, const str& want, const str& got) { if (strcmp(E[e].name, "windows-1255") && strcmp(E[e].name, "windows-1258")) return false; if (want.empty()) return false; size_t k = want.size() - 1; while (k && (want[k] & 0xC0) == 0x80) --k; return got == want.substr(0, k); }
static EncodingConverter& ec() { static EncodingConverter x; return x; }
// every character of every encoding, alone
static str chars(const str& in) {
    unsigned e = in.empty() ? 0 : (unsigned char)in[0] % NE, b = in.size() > 1 ? (unsigned char)in[1] : 0; iconv_t c0 = cd(e, true); VP_REQUIRE(c0 != (iconv_t)-1, "the C library has no " << E[e].libc);
    if (in.size() != 2 || (unsigned char)in[0] >= NE) return "";
    if (e == 0 && b == 0) { str h = "~{VPND~}"; if (ec().convert("HZ-GB-2312", "UTF-8", h) != "\xE4\xB8\xAD\xE6\x96\x87") return "KF:hz the text ~{VPND~} is left undecoded"; }
    if (e == 0 && b == 2 && ec().convert("windows-1255", "UTF-8", "\xF9") == "") return "KF:held-back f9"; str kf;
    if (e == 0 && b == 1 && ec().convert("windows-1258", "UTF-8", "\xA5\xEC") != "\xC2\xA5\xCC\x81") return "KF:cp1258-yen-acute a5ec";
    for (unsigned c = b * 256; c < b * 256 + 256; ++c) { if ((c >= 0xD800 && c < 0xE000) || variant(e, c)) continue; str by, u, g; if (conv(e, false, u8(c), by) || conv(e, true, by, u) || u != u8(c)) continue;
        g = ec().convert(E[e].name, "UTF-8", by); if (g != u8(c) && heldBack(e, u8(c), g)) kf = "KF:held-back " + hex(by); else VP_REQUIRE(g == u8(c), "U+" << std::hex << c << " in " << E[e].name << " (" << hex(by) << ") is converted to " << hex(g));
        g = ec().convert("UTF-8", E[e].name, u8(c)); VP_REQUIRE(conv(e, true, g, u) == 0 && u == u8(c), "U+" << std::hex << c << " becomes " << hex(g) << " in " << E[e].name); }
    return kf;
}
static str clip(const str& s) { return s.size() > 60 ? hex(s.substr(0, 60)) + "..." : hex(s); }
// whole texts, of any length
static str text(const str& in) {
    Choices c(in); unsigned e = c.byte() % NE; const std::vector<unsigned>& p = pool(e); VP_REQUIRE(!p.empty(), "no characters in " << E[e].name); unsigned n = c.byte() % 12, long_ = c.byte(); str u; std::vector<unsigned> cs;
    auto pick = [&]() { unsigned k = c.byte(); return k < 90 ? 32 + k : k < 100 ? (k == 90 ? 0u : k == 91 ? 10u : k == 92 ? 9u : '+') : p[(k * 256u + c.byte()) % p.size()]; };
    for (unsigned i = 0; i < n; ++i) { unsigned x = pick(); if (!variant(e, x) && (x || strcmp(E[e].name, "UTF-7"))) u += u8(x); }
    if (long_ >= 77 && long_ < 83 && !u.empty()) { str w; size_t want = 99990 + c.byte() * (long_ == 77 ? 1200 : 1); while (w.size() < want) w += u; w += u8(pick()); if (!variant(e, 0)) u = w; }
    str by, back; if (conv(e, false, u, by) || conv(e, true, by, back)) return "";
    str g = ec().convert(E[e].name, "UTF-8", by); if (g != back && heldBack(e, back, g)) return "KF:held-back " + hex(by.substr(by.size() < 9 ? 0 : by.size() - 8)); if (g != back && !strcmp(E[e].name, "windows-1258") && by.find("\xA5\xEC") != str::npos) return "KF:cp1258-yen-acute " + hex(by); VP_REQUIRE(g == back, "a text in " << E[e].name << " (" << by.size() << " bytes: " << clip(by) << ") becomes " << g.size() << " bytes instead of " << back.size() << ": " << clip(g));
    VP_REQUIRE(ec().convert(E[e].name, by) == g, "without a target the conversion is to something else"); detected = E[e].name; VP_REQUIRE(ec().convert(by) == g, "the detected encoding is not used");
    g = ec().convert("UTF-8", E[e].name, back); int st = conv(e, true, g, u); VP_REQUIRE(st == 0 && u == back, "a text of " << back.size() << " bytes (" << clip(back) << ") becomes " << clip(g) << " in " << E[e].name << ", which does not stand for it");
    unsigned f = c.byte() % NE; if (!E[f].multi || !strcmp(E[f].name, "UTF-8")) { str x, y; if (conv(f, false, back, x) == 0) { bool var = false; for (unsigned i = 0; i < back.size(); ++i) if ((unsigned char)back[i] >= 0x80) var = var || !strcmp(E[f].name, "KOI8-RU") || !strcmp(E[f].name, "x-mac-cyrillic") || !strcmp(E[f].name, "windows-1258"); if (!var) { g = ec().convert(E[e].name, E[f].name, by); if (conv(f, true, g, y) == 0 && y != back && heldBack(e, back, y)) return "KF:held-back " + hex(by); VP_REQUIRE(conv(f, true, g, y) == 0 && y == back, "from " << E[e].name << " to " << E[f].name << ": " << clip(by) << " becomes " << clip(g)); } } }
    return "";
}
// texts that cross the end of a buffer of 100000 bytes within a character, in both directions
static str long_(const str& in) {
    if (in.size() != 2) return ""; unsigned e = (unsigned char)in[0] % NE, d = (unsigned char)in[1]; const std::vector<unsigned>& p = pool(e); str u(d, 'a'), by, back; std::vector<unsigned> w; for (unsigned x : p) if (x > 0xA0) w.push_back(x); if (w.empty()) return "";
    for (unsigned i = 0; i < 52000; ++i) u += u8(i % (5 + d) == 0 ? 'b' : w[(i * (7u + d)) % w.size()]);
    if (conv(e, false, u, by) || conv(e, true, by, back)) return ""; str g = ec().convert(E[e].name, "UTF-8", by); if (g != back && heldBack(e, back, g)) return "";
    if (g != back && !strcmp(E[e].name, "windows-1258") && by.find("\xA5\xEC") != str::npos) return ""; VP_REQUIRE(g == back, "a text of " << by.size() << " bytes in " << E[e].name << " becomes " << g.size() << " bytes instead of " << back.size());
    g = ec().convert("UTF-8", E[e].name, back); VP_REQUIRE(conv(e, true, g, u) == 0 && u == back, "a text of " << back.size() << " bytes becomes " << g.size() << " bytes in " << E[e].name << ", which do not stand for it");
    return "";
}
// what is not valid in its encoding is left as it is; of an unfinished text, what is finished is converted
static str invalid(const str& in) {
    if (in.empty()) return ""; static const unsigned S[] = {2, 5, 7, 8, 14, 17, 18, 19, 22, 27, 28, 34, 9, 35}; unsigned e = S[(unsigned char)in[0] % 14]; str by = in.substr(1), back; int st = conv(e, true, by, back);
    if (!strcmp(E[e].name, "CP936") || !strcmp(E[e].name, "GB-2312")) { for (size_t i = 0; i < by.size(); ++i) if ((unsigned char)by[i] >= 0x80) { if (st == 2 || (unsigned char)by[i] <= 0xA0 || by[i] == '\xff') return ""; ++i; } }
    str g = ec().convert(E[e].name, "UTF-8", by);
    if (!strcmp(E[e].name, "UTF-8")) { VP_REQUIRE(g == by, "a conversion to the same encoding changes the text"); return ""; }
    if (st != 2 && g != back && heldBack(e, back, g)) return "KF:held-back " + hex(by);
    if (g != (st == 2 ? by : back) && !strcmp(E[e].name, "windows-1258") && by.find("\xA5\xEC") != str::npos) return "KF:cp1258-yen-acute " + hex(by);
    VP_REQUIRE(g == (st == 2 ? by : back), (st == 2 ? "an invalid text in " : st ? "an unfinished text in " : "a text in ") << E[e].name << " (" << hex(by) << ") becomes " << hex(g));
    VP_REQUIRE(ec().convert("no-such-encoding", by) == by && ec().convert(E[e].name, "no-such-encoding", by) == by && ec().convert(EncodingConverter::ASCII, by) == by, "an unknown encoding changes the text");
    return "";
}
// other encodings from UTF-8 that is not valid: left as it is
static str badutf8(const str& in) {
    if (in.empty()) return ""; str by = in.substr(1), x, back; unsigned e = (unsigned char)in[0] & 1 ? 32 : 13; int st = conv(34, true, by, x); if (st == 0) return ""; str g = ec().convert("UTF-8", E[e].name, by);
    if (st == 1) { if (conv(e, false, x, back)) return ""; VP_REQUIRE(g == back, "unfinished UTF-8 (" << hex(by) << ") becomes " << hex(g)); } else if (g != by) { bool near_ = false; for (size_t k = by.size() > 5 ? by.size() - 5 : 0; k < by.size() && !near_; ++k) near_ = conv(34, true, by.substr(0, k), x) == 0 && conv(e, false, x, back) == 0 && g == back; VP_REQUIRE(near_, "invalid UTF-8 (" << hex(by) << ") becomes " << hex(g)); }
    return "";
}
void vp_register() {
    psi_logger.setLoggingPriority("FATAL");
    str all, en; for (int i = 0; i < 256; ++i) all += char(i); for (unsigned i = 0; i < NE; ++i) en += char(i);
    tests().push_back(Test("chars", chars, {all}, 2, 2, {}, 1));
    tests().push_back(Test("long", long_, {en}, 2, 2, {}, 0.3));
    tests().push_back(Test("text", text, {}, 0, 40, {}, 3));
    tests().push_back(Test("invalid", invalid, {all}, 2, 6, {}, 0.4));
    tests().push_back(Test("badutf8", badutf8, {all}, 2, 7, {"\xE2\x82", "\xC4", "\xF0\x9F\x98\x80", "\xED\xA0\x80", "\xF8\x88\x80\x80\x80", "\xF4\x90\x80\x80", "\xC0\x80", "\xE0\x80\x80"}, 0.4));
}
