#define VP_MAIN
#include "vp.hpp"
#include "layer_tag_manager.hpp"
using namespace vp;
typedef std::set<std::string> S;
static const char* pool[] = {"token", "!pl", "!en", "symbol", "a", "b", "!", "text", "frag", "foo-bar", "!pl2", "x", "lemma", "!a"};
static std::string name(Choices& c) { unsigned x = c.byte(); if (x < 200) return pool[x % 14]; std::string s = (x & 1) ? "!" : ""; s += "n"; s += std::to_string(c.byte() % 40); return s; }
static S planes(const S& s) { S r; for (auto& x : s) if (!x.empty() && x[0] == '!') r.insert(x); return r; }
// a history of registrations; every collection made so far must keep meaning exactly its names
static std::string history(const std::string& in) {
    Choices c(in); LayerTagManager m; S known, asked; known.insert("symbol");
    std::vector<std::pair<S, LayerTagCollection> > all;
    while (c.more() && all.size() < 24) {
        int k = c.below(8); S s;
        if (k >= 6) { // asking about a name (also one never seen before) changes nothing
            std::string x = name(c); asked.insert(x); S u = known; u.insert(asked.begin(), asked.end()); if (u.size() > 60) break;
            if (all.empty()) { VP_REQUIRE(!m.isThere(x, m.createEmptyTagCollection()), "an empty collection holds " << x); }
            else { auto& p = all[c.below(all.size())]; VP_REQUIRE(m.isThere(x, p.second) == (p.first.count(x) == 1), "membership test of " << x); }
            continue;
        }
        LayerTagCollection t = m.createEmptyTagCollection();
        unsigned n = c.below(5); std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back(name(c));
        S nk = known; nk.insert(asked.begin(), asked.end()); for (auto& x : v) nk.insert(x); nk.insert("!pl");
        if (nk.size() > 60) break;
        switch (k) {
        case 0: { std::string x = name(c); s.insert(x); t = m.createSingletonTagCollection(x); break; }
        case 1: { s.insert(v.begin(), v.end()); t = m.createTagCollection(v); break; }
        case 2: { s.insert(v.begin(), v.end()); t = m.createTagCollection(std::list<std::string>(v.begin(), v.end())); break; }
        case 3: { if (v.empty()) v.push_back("z"); std::string sp; for (size_t i = 0; i < v.size(); ++i) sp += (i ? "," : "") + v[i]; s.insert(v.begin(), v.end()); t = m.createTagCollection(sp);
                  std::list<std::string> l = m.splitCollectionSpecification(sp); VP_REQUIRE(std::vector<std::string>(l.begin(), l.end()) == v, "specification " << sp << " split wrongly"); break; }
        case 4: { s.insert(v.begin(), v.end()); s.insert("!pl"); t = m.createTagCollectionFromListWithLangCode(std::list<std::string>(v.begin(), v.end()), "pl"); break; }
        case 5: { s.insert("lex"); s.insert("!en"); t = m.createSingletonTagCollectionWithLangCode("lex", "en"); break; }
        }
        known.insert(s.begin(), s.end());
        all.push_back(std::make_pair(s, t));
        for (auto& p : all) {
            std::list<std::string> l = m.getTagNames(p.second);
            VP_REQUIRE(l.size() == p.first.size() && std::equal(l.begin(), l.end(), p.first.begin()), "a collection of " << p.first.size() << " tags now reports " << l.size() << " names");
        }
        for (auto& p : all) {
            VP_REQUIRE(m.areInTheSamePlane(p.second, t) == (planes(p.first) == planes(s)), "same-plane test wrong");
            std::list<std::string> l = m.getTagNames(m.onlyPlaneTags(p.second)); S pl = planes(p.first);
            VP_REQUIRE(S(l.begin(), l.end()) == pl, "plane tags of a collection wrong");
            VP_REQUIRE((p.second == t) == (p.first == s), "collections equal iff same names");
        }
        std::list<std::string> pl = m.getTagNames(m.planeTags());
        VP_REQUIRE(S(pl.begin(), pl.end()) == planes(known), "set of all plane tags wrong");
        for (auto& x : known) VP_REQUIRE(m.isThere(x, t) == (s.count(x) == 1), "membership test of " << x);
        VP_REQUIRE(m.canBeAppliedToImplicitSymbol(m.getMask(t)) == (s.size() == 1 && s.count("symbol")), "implicit-symbol mask test");
        VP_REQUIRE(m.canBeAppliedToImplicitSymbol(m.anyTag()), "implicit-symbol mask test for any");
    }
    return "";
}
// well-formed mask specifications: alternatives of conjunctions, in order
static std::string masks(const std::string& in) {
    Choices c(in); LayerTagManager m; std::list<std::list<std::string> > want; std::string sp;
    unsigned n = 1 + c.below(4);
    for (unsigned i = 0; i < n; ++i) { std::list<std::string> l; unsigned k = 1 + c.below(4); for (unsigned j = 0; j < k; ++j) { std::string x = name(c); l.push_back(x); sp += (j ? "," : i ? ";" : "") + x; } want.push_back(l); }
    VP_REQUIRE(m.splitMaskSpecification(sp) == want, "mask specification " << sp << " parsed wrongly");
    std::list<std::list<std::string> > mul = m.multiplyMaskListByLangCode(want, "pl");
    VP_REQUIRE(mul.size() == want.size(), "language multiplication changes the number of alternatives");
    auto w = want.begin();
    for (auto& l : mul) { auto x = *w++; x.push_back("!pl"); VP_REQUIRE(l == x, "language multiplication"); }
    return "";
}
void vp_register() {
    tests().push_back(Test("history", history, {std::string("\x00\x01\x02\x03\x04\x05\x06\xc9\xca", 9)}, 5, 120));
    tests().push_back(Test("masks", masks, {std::string("\x00\x01\x02\x03\x0a", 5)}, 6, 40, {}, 0.3));
}
