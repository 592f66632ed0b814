#define VP_MAIN
#include "vp.hpp"
#include "psi_quoter.hpp"
using namespace vp;
static std::string enc(const std::string& s) {
    std::string r;
    for (char c : s) switch (c) {
        case ' ': r += "_"; break; case '\n': r += "\\n"; break; case '\t': r += "\\t"; break; case '\r': r += "\\r"; break;
        case '_': case '*': case '\\': case '#': r += '\\'; r += c; break;
        default: r += c;
    }
    return r;
}
static std::string roundtrip(const std::string& s) {
    PsiQuoter q; std::string e = q.escape(s);
    VP_REQUIRE(e == enc(s), "escape gives " << show(e) << ", the format says " << show(enc(s)));
    VP_REQUIRE(e.find_first_of(" \n\t\r") == std::string::npos, "separator in escaped text " << show(e));
    VP_REQUIRE(q.unescape(e) == s, "unescape(escape) gives " << show(q.unescape(e)));
    return "";
}
void vp_register() {
    tests().push_back(Test("roundtrip", roundtrip, {std::string("a _\\#*\n\t\r\0\xffnrt", 14)}, 5, 700, {"\\n", "\\_", "\\\\", "  ", "__", "\xc4\x85"}));
}
