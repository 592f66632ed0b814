#define VP_MAIN
#include "vp.hpp"
#include "layer_tag_manager.hpp"
using namespace vp;
typedef std::set<std::string> S;
static std::string nm(int i) { return i == 0 ? "symbol" : (i % 7 == 3 ? "!t" : "t") + std::to_string(i); }
struct World {
    LayerTagManager m;
    World() { for (int i = 0; i < 64; ++i) m.createSingletonTagCollection(nm(i)); }
    LayerTagCollection make(const S& s) { return m.createTagCollection(std::list<std::string>(s.begin(), s.end())); }
    S names(const LayerTagCollection& c) { auto l = m.getTagNames(c); return S(l.begin(), l.end()); }
};
static S bits(uint64_t b) { S s; for (int i = 0; i < 64; ++i) if (b >> i & 1) s.insert(nm(i)); return s; }
static std::string algebra_sets(const S& a, const S& b) {
    static World* w = new World;
    LayerTagCollection A = w->make(a), B = w->make(b);
    VP_REQUIRE(w->names(A) == a, "collection does not hold the names it was made from");
    S u = a, in, d; u.insert(b.begin(), b.end());
    for (auto& x : a) if (b.count(x)) in.insert(x);
    LayerTagCollection U = createUnion(A, B), I = createIntersection(A, B);
    VP_REQUIRE(w->names(U) == u, "union wrong"); VP_REQUIRE(w->names(I) == in, "intersection wrong");
    VP_REQUIRE(w->names(A) == a && w->names(B) == b, "an operand was changed");
    VP_REQUIRE(isSubset(A, B) == (in == a), "subset test wrong"); VP_REQUIRE(isSubset(B, A) == (in == b), "subset test wrong");
    VP_REQUIRE(isSubset(A, U) && isSubset(I, A), "subset of union / intersection");
    VP_REQUIRE((A == B) == (a == b) && (A != B) == (a != b), "equality wrong");
    VP_REQUIRE(A.isEmpty() == a.empty() && A.isNonempty() == !a.empty(), "emptiness wrong");
    VP_REQUIRE(I.isEmpty() == in.empty() && U.isEmpty() == u.empty(), "emptiness wrong");
    VP_REQUIRE(!(a == b) || A.getHash() == B.getHash(), "equal sets, different hash");
    VP_REQUIRE((A.getHash() == B.getHash()) == (a == b), "different sets share a hash");
    VP_REQUIRE((A < B) == (in == a), "ordering is not inclusion");
    VP_REQUIRE(createUnion(A, A) == A && createUnion(A, B) == createUnion(B, A) && createIntersection(A, B) == createIntersection(B, A), "algebraic law");
    return "";
}
static std::string algebra(const std::string& in) { Choices c(in); uint64_t a = c.u64(), b = c.u64(); return algebra_sets(bits(a), bits(b)); }
static std::string sparse(const std::string& in) {
    Choices c(in); uint64_t a = 0, b = 0, *cur = &a;
    while (c.more()) { unsigned x = c.byte(); if (x & 128) cur = cur == &a ? &b : &a; else if (x & 64) { a |= 1ull << (x & 63); b |= 1ull << (x & 63); } else *cur |= 1ull << (x & 63); }
    return algebra_sets(bits(a), bits(b));
}
void vp_register() {
    std::string all; for (int i = 0; i < 256; ++i) all += (char)i;
    tests().push_back(Test("sparse", sparse, {all}, 2, 40));
    tests().push_back(Test("algebra", algebra, {}, 0, 24));
}
