#define VP_MAIN
#include "vp.hpp"
#include "layer_tag_manager.hpp"
using namespace vp;
typedef std::set<std::string> S;
static std::string nm(int i) { return i == 0 ? "symbol" : "t" + std::to_string(i); }
struct World {
    LayerTagManager m;
    World() { for (int i = 0; i < 64; ++i) m.createSingletonTagCollection(nm(i)); }
    LayerTagCollection make(uint64_t b) { std::list<std::string> l; for (int i = 0; i < 64; ++i) if (b >> i & 1) l.push_back(nm(i)); return m.createTagCollection(l); }
    std::list<std::string> names(uint64_t b) { std::list<std::string> l; for (int i = 0; i < 64; ++i) if (b >> i & 1) l.push_back(nm(i)); return l; }
};
static World& W() { static World* w = new World; return *w; }
static std::string spec_of(const std::vector<uint64_t>& alts) {
    std::string s;
    for (auto b : alts) { if (!s.empty()) s += ";"; std::string c; for (int i = 0; i < 64; ++i) if (b >> i & 1) c += (c.empty() ? "" : ",") + nm(i); s += c; }
    return s;
}
static std::string contract(uint64_t t, const std::vector<uint64_t>& alts, const std::vector<uint64_t>& alts2) {
    World& w = W(); LayerTagCollection T = w.make(t);
    VP_REQUIRE(matches(T, w.m.anyTag()), "the 'any' mask rejects something");
    VP_REQUIRE(w.m.anyTag().isAny() && w.m.anyTag().isSome() && !w.m.anyTag().isNone(), "'any' mask classification");
    std::vector<LayerTagCollection> v; bool want = false, allempty = true, ne = true;
    for (auto a : alts) { v.push_back(w.make(a)); if ((a & ~t) == 0) want = true; if (a) allempty = false; else ne = false; }
    LayerTagMask M = w.m.getAlternativeMask(v);
    VP_REQUIRE(matches(T, M) == want, "mask of " << alts.size() << " alternatives: matches=" << matches(T, M) << " expected " << want);
    VP_REQUIRE(matches(T, M) == want, "second query differs");
    VP_REQUIRE(!M.isAny(), "alternatives mask claims to be 'any'");
    VP_REQUIRE(M.isSome() == !allempty && M.isNone() == allempty, "some/none classification");
    VP_REQUIRE(matches(T, M) == want, "asking whether the mask is empty changed what it matches");
    if (alts.size() == 1) {
        LayerTagMask K = w.m.getMask(w.make(alts[0]));
        VP_REQUIRE(matches(T, K) == want && K == M && K.getHash() == M.getHash(), "single mask differs from one-alternative mask");
        VP_REQUIRE(matches(T, w.m.getMask(w.names(alts[0]))) == want, "mask from names list");
    }
    if (alts.size() == 2) { LayerTagMask K = w.m.getAlternativeMask(v[0], v[1]); VP_REQUIRE(matches(T, K) == want && K == M, "two-alternative mask"); }
    if (alts.size() == 3) { LayerTagMask K = w.m.getAlternativeMask(v[0], v[1], v[2]); VP_REQUIRE(matches(T, K) == want && K == M, "three-alternative mask"); }
    if (!alts.empty() && ne) {
        std::string sp = spec_of(alts);
        LayerTagMask K = w.m.getMask(sp);
        VP_REQUIRE(matches(T, K) == want, "mask from specification " << sp);
        VP_REQUIRE(K == M && K.getHash() == M.getHash(), "mask from specification " << sp << " is not equal to the mask from collections");
    }
    std::vector<LayerTagCollection> v2; for (auto a : alts2) v2.push_back(w.make(a));
    LayerTagMask N = w.m.getAlternativeMask(v2);
    VP_REQUIRE((M == N) == (alts == alts2), "mask equality");
    VP_REQUIRE(!(M == N) || M.getHash() == N.getHash(), "equal masks, different hash");
    VP_REQUIRE(!(M == w.m.anyTag()) && !(w.m.anyTag() == M) && w.m.anyTag() == w.m.anyTag(), "equality with 'any'");
    return "";
}
static std::string matching(const std::string& in) {
    Choices c(in); uint64_t t = c.u64(); std::vector<uint64_t> v; while (c.more() && v.size() < 40) v.push_back(c.u64());
    std::string r = contract(t, v, v); if (!r.empty()) return r;
    std::vector<uint64_t> w2 = v; if (!w2.empty()) w2.back() ^= 1ull << (t & 63); else w2.push_back(t);
    return contract(t, v, w2);
}
static std::string sparse(const std::string& in) {
    Choices c(in); uint64_t t = 0; std::vector<uint64_t> v, v2; bool diff = false;
    while (c.more()) {
        unsigned x = c.byte(), tag = x & 7; if (c.more() && (x & 8)) tag = c.byte() & 63;
        switch (x >> 4 & 7) {
        case 0: t |= 1ull << tag; break;
        case 1: case 2: v.push_back(1ull << tag); v2.push_back(1ull << tag); break;
        case 3: case 4: if (v.empty()) v.push_back(0); if (v2.empty()) v2.push_back(0); v.back() |= 1ull << tag; v2.back() |= 1ull << tag; break;
        case 5: v.push_back(0); v2.push_back(0); break;
        case 6: if (!v2.empty()) v2.pop_back(); break;
        case 7: v2.push_back(1ull << tag); break;
        }
        if (v.size() > 30) break;
    }
    return contract(t, v, v2);
}
void vp_register() {
    std::string all; for (int i = 0; i < 128; ++i) all += (char)i;
    tests().push_back(Test("sparse", sparse, {all, std::string("\x00\x01\x10\x11\x30\x31\x50\x60\x70", 9)}, 3, 60));
    tests().push_back(Test("matching", matching, {}, 0, 40, {}, 0.3));
}
