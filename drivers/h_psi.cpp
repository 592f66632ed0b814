// The native format: a lattice written by the real writer and read back by the real reader is the same lattice.
#define VP_MAIN
#include "vp.hpp"
#include "lattice.hpp"
#include "psi_lattice_writer.hpp"
#include "psi_lattice_reader.hpp"
#include <boost/scoped_ptr.hpp>
#include <algorithm>
using namespace vp;
typedef Lattice::EdgeDescriptor D;
typedef std::map<int, int> Ren;     // renaming of loose vertices
static int rv(Lattice& l, int v, const Ren& rn) { if (!l.isLooseVertex(v)) return l.getVertexRawCharIndex(v); auto i = rn.find(l.getLooseVertexIndex(v)); return -1 - (i == rn.end() ? l.getLooseVertexIndex(v) : i->second); }
static std::string names(Lattice& l, const LayerTagCollection& t) { std::string r; for (auto& x : l.getLayerTagManager().getTagNames(t)) r += (r.empty() ? "" : ",") + x; return r; }
// a bare character edge: implicit, or as the reader makes it
static bool bare(Lattice& l, D d) { return l.isEdgeHidden(d) || (names(l, l.getEdgeLayerTags(d)) == "symbol" && l.getAnnotationCategory(d) == "'" + l.getEdgeText(d)); }
static std::string key(Lattice& l, D d, const Ren& rn) {
    std::ostringstream o; const AnnotationItem it = l.getEdgeAnnotationItem(d);
    o << rv(l, l.getEdgeSource(d), rn) << ".." << rv(l, l.getEdgeTarget(d), rn);
    if (bare(l, d)) { o << "#"; return o.str(); }
    o << " " << show(it.getCategory()) << " " << show(it.getText()) << " " << names(l, l.getLayerTagManager().onlyPlaneTags(l.getEdgeLayerTags(d)));
    return o.str();
}
static std::string desc(Lattice& l, D d, const Ren& rn) {
    std::ostringstream o; o << key(l, d, rn); if (bare(l, d)) return o.str();
    const AnnotationItem it = l.getEdgeAnnotationItem(d); std::map<std::string, std::string> av;
    for (auto& p : l.getAnnotationItemManager().getValues(it)) av[p.first] = p.second;
    o << " {"; for (auto& p : av) o << show(p.first) << "=" << show(p.second) << ";"; o << "} tags " << names(l, l.getEdgeLayerTags(d)) << " score " << l.getEdgeScore(d) << " [";
    for (auto& p : l.getEdgePartitions(d)) {
        o << "("; Lattice::Partition::Iterator ei(l, p);
        while (ei.hasNext()) { Lattice::EdgeUsage u = ei.nextUsage(); o << key(l, u.getEdge(), rn); if (!NULLP(u.getRole())) o << " role " << show(l.getAnnotationItemManager().zvalueToString(u.getRole())); o << " + "; }
        o << " " << names(l, p.getTagList()) << " " << p.getScore() << ")";
    }
    o << "]"; return o.str();
}
static std::vector<std::string> dump(Lattice& l, const Ren& rn) {
    std::vector<std::string> r; Lattice::EdgesSortedByTargetIterator it = l.edgesSortedByTarget(l.getLayerTagManager().anyTag());
    while (it.hasNext()) { D d = it.next(); if (!bare(l, d)) r.push_back(desc(l, d, rn)); }
    std::sort(r.begin(), r.end()); return r;
}
static const char* CH[] = {"a", "_", "\\", "*", "#", " ", "\n", "\xc4\x85", "\xe2\x82\xac", "b", "\t", "\r", "<", "[", ",", "=", "$", "@", "-", "\xf0\x9f\x98\x80", "\xe2\x88\x85"};
static const char* CATS[] = {"T", "word", "a b", "_", "x_y", "\\", "#c", "'a", "*", "p-1", "\xc5\xbb"};
static const char* TX[] = {"", "a", "foo bar", "_", "\\n", "\n", "#", "*x", "\xc4\x85\xc4\x99", "[x]", "<1>", "a,b", "x=1", "$"};
static const char* TAGS[] = {"token", "t1", "parse", "!p1", "!p2", "discarded", "corr_x"};
static const char* AN[] = {"type", "base", "P", "a_b", "k*"};
static const char* AV[] = {"word", "x y", "1", "_", "\\", "12345678901", "\xc4\x85", "0", "#", "<b>", "-5"};
static const char* ROLE[] = {"head", "a b", "_", "x*"};
// is d part of an analysis of x?
static bool reaches(Lattice& l, D x, D d, int depth = 0) {
    if (x == d || depth > 40) return true;
    for (auto& p : l.getEdgePartitions(x)) { Lattice::Partition::Iterator ei(l, p); while (ei.hasNext()) if (reaches(l, ei.next(), d, depth + 1)) return true; }
    return false;
}
static std::string roundtrip_(const std::string& in) {
    Choices c(in); AnnotationItemManager aim; Lattice l(aim); std::string text; std::vector<D> es; int loose = 0;
    int n = 1 + c.below(6); if (n == 6) n = 1 + c.below(60);
    for (int i = 0; i < n; ++i) text += CH[c.below(21)];
    int bare_from = -1; if (c.below(4) == 3) { std::string t1; int k = c.below(3); while (k--) t1 += CH[c.below(21)]; l.appendStringWithSymbols(text); bare_from = text.size(); text += t1; l.appendString(t1); t1 = CH[c.below(21)]; text += t1; l.appendStringWithSymbols(t1); }
    else l.appendStringWithSymbols(text);
    std::vector<int> b; for (int i = 0; i <= (int)text.size(); ++i) if (i == (int)text.size() || (text[i] & 0xC0) != 0x80) b.push_back(i);
    std::vector<int> anchor;
    int ops = 0;
    while (c.more() && ops++ < 12) {
        int i = c.below(b.size()), j = c.below(b.size()); if (i > j) std::swap(i, j); if (i == j) { if (j + 1 < (int)b.size()) ++j; else --i; }
        int from = b[i], to = b[j];
        unsigned o = c.byte();
        if (OPT_LOOSE && (o & 0xC0) == 0xC0 && anchor.size() < 2) { l.addLooseVertex(); anchor.push_back(from); }
        auto pos = [&](int v) { return v >= 0 ? v * 4 : anchor[-1 - v] * 4 - v; };
        if (!anchor.empty() && (o & 0x30) == 0x10) to = -1 - (int)(o % anchor.size());
        if (!anchor.empty() && (o & 0x30) == 0x20) from = -1 - (int)(o % anchor.size());
        if ((from < 0 || to < 0) && pos(from) > pos(to)) std::swap(from, to);
        unsigned ct = c.byte(); std::string cat = CATS[ct % 11], tx = TX[(ct / 11) % 14];
        AnnotationItem item = tx.empty() ? AnnotationItem(cat) : AnnotationItem(cat, StringFrag(tx));
        int na = o & 3; for (int k = 0; k < na; ++k) { unsigned a = c.byte(); aim.setValue(item, AN[a % 5], AV[(a / 5) % 11]); }
        std::list<std::string> tg; unsigned tb = c.byte(); for (int k = 0; k < 7; ++k) if (tb >> k & 1) tg.push_back(TAGS[k]); if (tg.empty()) tg.push_back("token");
        LayerTagCollection tags = l.getLayerTagManager().createTagCollection(tg);
        static const double SC[] = {0, 1, -1, 0.5, -2.25, 100, 1e-3, 3};
        double score = SC[c.below(8)];
        Lattice::EdgeSequence::Builder bl(l); unsigned pm = c.byte(); double pscore = score;
        LayerTagCollection ptags = tags;
        if ((pm & 3) == 1 && from >= 0 && to >= 0) { // its characters
            bool full = true; for (int v = from; v < to; ) { if (!l.outEdges(v, l.getSymbolMask()).hasNext()) { full = false; break; } v = l.getEdgeEndIndex(l.firstOutEdge(v, l.getSymbolMask())); }
            for (int v = from; full && v < to; ) { D d = l.firstOutEdge(v, l.getSymbolMask()); bl.addEdge(d); v = l.getEdgeEndIndex(d); }
        } else if ((pm & 3) >= 2) { // a chain of edges, characters where there is none
            int k = 1 + (pm >> 2) % 4; int v = from;
            while (k--) {
                std::vector<D> outs; for (D& d : es) if (l.getEdgeSource(d) == v && pos(l.getEdgeTarget(d)) <= pos(to)) outs.push_back(d);
                D d; bool have = false; unsigned ch = c.byte();
                if (!outs.empty() && (ch & 7)) { d = outs[(ch >> 3) % outs.size()]; have = true; }
                else if (v >= 0 && v < (int)text.size() && v != to && l.outEdges(v, l.getSymbolMask()).hasNext()) { d = l.firstOutEdge(l.getVertexForRawCharIndex(v), l.getSymbolMask()); have = true; }
                if (!have) break;
                if ((ch & 0xC0) == 0xC0 && !bare(l, d)) bl.addEdge(d, aim.stringToZvalue(ROLE[ch % 4])); else bl.addEdge(d);
                v = l.getEdgeTarget(d); if (v == to) break;
            }
        }
        try { D d = l.addEdge(from, to, item, tags, bl.build(), score); if (std::find(es.begin(), es.end(), d) == es.end()) es.push_back(d); } catch (...) {}
        if (!es.empty() && (pm & 0xC0) == 0xC0) { // a second analysis of an existing edge
            D d = es[c.below(es.size())]; const AnnotationItem it = l.getEdgeAnnotationItem(d); unsigned m = c.byte(); Lattice::EdgeSequence::Builder b2(l); int v = l.getEdgeSource(d);
            for (D& x : es) if (!(x == d) && l.getEdgeSource(x) == v && pos(l.getEdgeTarget(x)) <= pos(l.getEdgeTarget(d)) && !reaches(l, x, d)) { if (m & 8) b2.addEdge(x, aim.stringToZvalue(ROLE[m % 4])); else b2.addEdge(x); v = l.getEdgeTarget(x); }
            if (m & 16) while (v >= 0 && v < (int)text.size() && v < l.getEdgeTarget(d) && l.outEdges(v, l.getSymbolMask()).hasNext()) { D x = l.firstOutEdge(v, l.getSymbolMask()); b2.addEdge(x); v = l.getEdgeTarget(x); }
            LayerTagCollection t2 = l.getEdgeLayerTags(d); if (m & 1) t2 = createUnion(l.getLayerTagManager().onlyPlaneTags(t2), l.getLayerTagManager().createSingletonTagCollection("ex_tra"));
            try { l.addEdge(l.getEdgeSource(d), l.getEdgeTarget(d), it, t2, b2.build(), SC[m / 32 % 8]); } catch (...) {}
        }
    }
    // what the format can say of an edge: one analysis (none, its characters, or a chain with at least one annotation), or several chains
    for (D& d : es) { // no edge is part of its own analysis
        for (auto& p : l.getEdgePartitions(d)) { Lattice::Partition::Iterator ei(l, p); while (ei.hasNext()) if (reaches(l, ei.next(), d)) return ""; }
    }
    for (D& d : es) {
        std::list<Lattice::Partition> ps = l.getEdgePartitions(d); size_t chains = 0, chars = 0;
        for (auto& p : ps) {
            bool ex = false; int v = l.getEdgeSource(d); bool contiguous = true, any = false; Lattice::Partition::Iterator ei(l, p);
            while (ei.hasNext()) { D x = ei.next(); any = true; if (!l.isEdgeHidden(x)) ex = true; if (l.getEdgeSource(x) != v) contiguous = false; v = l.getEdgeTarget(x); }
            if (ex && contiguous) ++chains; else if (!any) {} else if (!ex && contiguous && v == l.getEdgeTarget(d)) ++chars; else return "";
        }
        if (ps.size() > 1 && chains + chars != ps.size()) return "";
    }
    std::ostringstream os; boost::scoped_ptr<LatticeWriter<std::ostream> > w(new PsiLatticeWriter(c.byte() & 1)); w->writeLattice(l, os);
    AnnotationItemManager aim2; Lattice r(aim2); std::istringstream is(os.str()); PsiLatticeReader rd;
    try { static_cast<LatticeReader<std::istream>&>(rd).readIntoLattice(is, r); } catch (std::exception& e) { return "what was written cannot be read back (" + std::string(e.what()) + "):\n" + os.str(); }
    // characters at the end not covered by any annotation are not part of the format
    std::string t2 = r.getAllText();
    int end = 0; for (D& d : es) end = std::max(end, std::max(0, l.getEdgeTarget(d)));
    VP_REQUIRE(t2.size() >= (size_t)end && text.compare(0, t2.size(), t2) == 0, "the text read back is " << show(t2) << " instead of " << show(text) << ":\n" << os.str());
    std::vector<std::string> want = dump(l, Ren());
    std::vector<int> perm; for (size_t i = 0; i < anchor.size(); ++i) perm.push_back(i);
    std::vector<std::string> got; bool ok = false;
    do { Ren rn; for (size_t i = 0; i < perm.size(); ++i) rn[i] = perm[i]; got = dump(r, rn); if (got == want) { ok = true; break; } } while (std::next_permutation(perm.begin(), perm.end()));
    if (ok) return "";
    std::string d1, d2; got = dump(r, Ren());
    for (auto& s : want) if (std::find(got.begin(), got.end(), s) == got.end()) d1 += "\n  lost: " + s;
    for (auto& s : got) if (std::find(want.begin(), want.end(), s) == want.end()) d2 += "\n  new:  " + s;
    return "the lattice read back differs:" + d1 + d2 + "\n" + os.str();
}
static std::string roundtrip(const std::string& in) { std::string r = roundtrip_(in), q; for (char ch : r) if (ch == '\n') q += " | "; else q += ch; return getenv("VP_LOUD") ? r : q; }
void vp_register() {
    std::string a; for (int i = 0; i < 256; i += 5) a += (char)i;
    tests().push_back(Test("roundtrip", roundtrip, {}, 0, 90, {}, 1));
    tests().push_back(Test("roundtrip2", roundtrip, {std::string("\x00\x01\x02\x03\x04\x10\x55\xc0\xc1\xff", 10)}, 3, 70, {}, 1));
}
