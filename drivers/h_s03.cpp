#define VP_MAIN
#include "vp.hpp"
#include "cutter_stub.hpp"
using namespace vp;
static const char* W[] = {"a", " ", "b", "ż", "  ", "€", "𝄞", "xyz", ".", "\n", "é", " q"};
// cut a whole text and compare with the segments and the limits
template <class TX> static std::string run(const TX& tx, const std::string& text, StubCutter& c) {
    std::vector<size_t> segs = c.ends; segs.push_back(text.size()); std::sort(segs.begin(), segs.end());
    std::vector<bool> isb(text.size() + 1, false); for (size_t i = 0; i <= text.size(); ++i) isb[i] = i == text.size() || (text[i] & 0xC0) != 0x80;
    size_t pos = 0; std::string all; int guard = 0; std::vector<size_t> cuts;
    while (pos != std::string::npos && pos < text.size()) {
        VP_REQUIRE(++guard < 5000, "never reaches the end of the text");
        size_t p = pos; AnnotationItem it = c.cutOff(tx, pos);
        std::string f = it.getText(); size_t e = pos == std::string::npos ? text.size() : pos;
        VP_REQUIRE(e > p && f == text.substr(p, e - p), "fragment is not the text it claims to cut off");
        VP_REQUIRE(it.getCategory() == c.cat, "fragment has category " << it.getCategory());
        VP_REQUIRE(isb[e], "a character is split at byte " << e);
        VP_REQUIRE(!c.hard || f.size() <= c.hard, "fragment of " << f.size() << " bytes, hard limit " << c.hard);
        bool segend = false; size_t send = text.size(); for (size_t x : segs) { if (x == e) segend = true; if (x > p && x < send) send = x; }
        VP_REQUIRE(e <= send, "fragment crosses the end of a segment");
        if (!segend) {
            VP_REQUIRE(c.hard || c.soft, "segment split without a limit");
            bool hardcut = c.hard && send - p >= c.hard && e + 4 > p + c.hard && (c.hard >= 4);
            bool softcut = c.soft && e - p >= c.soft && text[e] == ' ';
            VP_REQUIRE(hardcut || softcut || (c.hard && c.hard < 4), "segment split at byte " << e << " for no reason");
        }
        if (c.soft) for (size_t i = p + c.soft; i < e; ++i) VP_REQUIRE(text[i] != ' ', "soft limit passed by although there is a space at " << i);
        all += f;
    }
    VP_REQUIRE(all == text, "fragments do not make up the text");
    return "";
}
static std::string cut(const std::string& in) {
    Choices ch(in); size_t hard = ch.below(4) == 0 ? 0 : ch.below(12), soft = ch.below(3) == 0 ? 0 : ch.below(9);
    if (hard && hard < 4) hard += 4;
    StubCutter c(hard, soft); unsigned ne = ch.below(3); std::vector<size_t> e; for (unsigned i = 0; i < ne; ++i) e.push_back(ch.byte());
    std::string text; while (ch.more()) { text += W[ch.below(12)]; }
    for (size_t x : e) { if (x < text.size()) { while ((text[x] & 0xC0) == 0x80) --x; if (x > 0) c.ends.push_back(x); } }
    std::string r = run(text, text, c); if (!r.empty()) return r;
    VP_REQUIRE(c.resets == 0, "reset without being asked");
    // after a reset the same cutter starts afresh, also in the middle of a split segment
    if (!text.empty()) { size_t p = 0; c.cutOff(text, p); c.reset(); VP_REQUIRE(c.resets == 1, "reset not passed on"); }
    r = run(text, text, c); if (!r.empty()) return "after reset: " + r;
    std::string big = "xx" + text + "yy"; StringFrag fr(big, 2, text.size());
    r = run(fr, text, c); return r.empty() ? "" : "on a string fragment: " + r;
}
// a limit too small for a character is refused, never obeyed by splitting it
static std::string tiny(const std::string& in) {
    Choices ch(in); StubCutter c(1 + ch.below(3), 0); std::string text; while (ch.more()) text += W[ch.below(12)];
    size_t pos = 0; std::string all;
    try { while (pos != std::string::npos && pos < text.size()) { size_t p = pos; AnnotationItem it = c.cutOff(text, pos); std::string f = it.getText(); VP_REQUIRE(f.size() <= c.hard && f.size() > 0, "fragment of " << f.size()); VP_REQUIRE((text[p] & 0xC0) != 0x80, "a character is split"); all += f; } VP_REQUIRE(all == text, "fragments do not make up the text"); }
    catch (Cutter::Exception&) { bool big = false; for (size_t i = 0; i < text.size(); ++i) { size_t l = 1; while (i + l < text.size() && (text[i + l] & 0xC0) == 0x80) ++l; if (l > c.hard) big = true; } VP_REQUIRE(big, "limit refused although every character fits"); }
    return "";
}
void vp_register() {
    tests().push_back(Test("cut", cut, {std::string("\x01\x04\x02\x03\x00\x05", 6)}, 6, 60, {std::string("\x01\x01\x02\x03\x00", 5)}));
    tests().push_back(Test("tiny", tiny, {std::string("\x00\x01\x03\x05\x06", 5)}, 6, 12, {}, 0.3));
}
