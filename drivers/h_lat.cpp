// Lattice contracts: every operation of a history is mirrored in a plain list of edges (the specification),
// and every query must answer what the list says.   -DPROP=1 lookup, 2 merging, 3 sequences, 4 text and order
#define VP_MAIN
#include "vp.hpp"
#include "lattice.hpp"
#include <memory>
#include <algorithm>
using namespace vp;
typedef std::set<std::string> S;
typedef Lattice::EdgeDescriptor D;
struct ME { int from, to; std::string cat, txt; S tags; double score; int nparts; D d; bool implicit; };
static const char* TAGS[] = {"token", "t1", "t2", "t3", "discarded", "!p1", "!p2", "symbol"};
static S plane(const S& t) { S r; for (auto& x : t) if (x[0] == '!') r.insert(x); return r; }
static std::string str(const S& t) { std::string r; for (auto& x : t) r += (r.empty() ? "" : ",") + x; return r; }
static std::vector<std::vector<S>> masks() {
    return {{{"symbol"}}, {{"token"}}, {{"t1"}}, {{"token", "t1"}}, {{"t1"}, {"t2"}}, {{"symbol"}, {"t1"}}, {{"!p1"}}, {{"discarded"}}, {{"t2", "t3"}, {"token"}}, {{"nosuch"}}, {{"symbol", "t1"}}, {{"t3"}}};
}
struct W {
    AnnotationItemManager aim; Lattice lat; std::vector<ME> es; std::vector<int> anchors; std::string text; bool converted = false;
    std::vector<std::pair<std::vector<int>, Lattice::EdgeSequence>> seqs;
    W() : lat(aim) {}
    std::vector<int> bounds() { std::vector<int> r; for (int i = 0; i <= (int)text.size(); ++i) if (i == (int)text.size() || (text[i] & 0xC0) != 0x80) r.push_back(i); return r; }
    int symlen(int i) { int k = 1; while (i + k < (int)text.size() && (text[i + k] & 0xC0) == 0x80) ++k; return k; }
    LayerTagCollection coll(const S& t) { return lat.getLayerTagManager().createTagCollection(std::list<std::string>(t.begin(), t.end())); }
    LayerTagMask mask(const std::vector<S>& m) { std::vector<LayerTagCollection> v; for (auto& a : m) v.push_back(coll(a)); return lat.getLayerTagManager().getAlternativeMask(v); }
    static bool hit(const S& t, const std::vector<S>& m) { for (auto& a : m) if (std::includes(t.begin(), t.end(), a.begin(), a.end())) return true; return false; }
    S tagsOf(D d) { S r; for (auto& x : lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(d))) r.insert(x); return r; }
    std::string names(const std::vector<int>& v) { std::ostringstream o; for (int i : v) o << " " << es[i].from << "-" << es[i].to << "/" << es[i].cat << "[" << str(es[i].tags) << "]"; return o.str(); }
    int find(D d) { for (size_t i = 0; i < es.size(); ++i) if (es[i].d == d) return i; return -1; }

    // the specification of adding an edge; also performs it
    std::string add(int from, int to, std::string cat, std::string txt, S tags, const std::vector<int>& sq, double score) {
        AnnotationItem item = txt.empty() ? AnnotationItem(cat) : AnnotationItem(cat, StringFrag(txt));
        Lattice::EdgeSequence::Builder b(lat); for (int i : sq) b.addEdge(es[i].d);
        Lattice::EdgeSequence seq = b.build();
        S want = tags;
        if (plane(tags).empty()) for (int i : sq) for (auto& p : plane(es[i].tags)) want.insert(p);
        int exp = 0; int same = -1;
        if (from == to) exp = 1;
        else if (from >= 0 && to >= 0 && from > to) exp = 2;
        else {
            for (size_t i = 0; i < es.size() && same < 0; ++i) if (es[i].from == from && es[i].to == to && es[i].cat == cat && es[i].txt == txt && plane(es[i].tags) == plane(want)) same = i;
            if (same >= 0) for (int i : sq) if (i == same) exp = 3;
        }
        int got = 0; D d;
        try { d = lat.addEdge(from, to, item, coll(tags), seq, score); }
        catch (LoopEdgeException&) { got = 1; } catch (ReversedEdgeException&) { got = 2; } catch (EdgeSelfReferenceException&) { got = 3; }
        VP_REQUIRE(got == exp, "adding " << from << "-" << to << "/" << cat << ": outcome " << got << " instead of " << exp << " (0 accepted, 1 loop, 2 reversed, 3 self-reference)");
        if (got) return "";
        if (same < 0) {
            for (auto& e : es) VP_REQUIRE(!(e.d == d), "a new edge " << from << "-" << to << "/" << cat << " shares the descriptor of edge " << e.from << "-" << e.to << "/" << e.cat);
            es.push_back({from, to, cat, txt, want, score, 1, d, !d.isExplicit()});
        } else {
            ME& e = es[same];
            if (e.implicit) {
                if (want != e.tags) { converted = true; e.tags.insert(want.begin(), want.end()); e.score = score; e.nparts = 1; e.d = d; e.implicit = !d.isExplicit(); }
                else VP_REQUIRE(d == e.d, "adding the same character edge again gives a different edge");
            } else {
                VP_REQUIRE(d == e.d, "adding an equal edge " << from << "-" << to << "/" << cat << " in the same plane made a second edge");
                e.tags.insert(want.begin(), want.end()); if (score > e.score) e.score = score; e.nparts++;
            }
        }
        if (!sq.empty()) seqs.push_back({sq, seq});
        return "";
    }
    std::string checkEdge(size_t i) {
        ME& e = es[i];
        VP_REQUIRE(lat.getEdgeSource(e.d) == e.from && lat.getEdgeTarget(e.d) == e.to, "edge " << e.from << "-" << e.to << "/" << e.cat << " now runs " << lat.getEdgeSource(e.d) << "-" << lat.getEdgeTarget(e.d));
        VP_REQUIRE(tagsOf(e.d) == e.tags, "edge " << e.from << "-" << e.to << "/" << e.cat << " has tags " << str(tagsOf(e.d)) << " instead of " << str(e.tags));
        VP_REQUIRE(lat.getAnnotationCategory(e.d) == e.cat, "edge category " << lat.getAnnotationCategory(e.d) << " instead of " << e.cat);
        if (!e.implicit) {
            VP_REQUIRE(lat.getAnnotationText(e.d) == e.txt, "edge annotation text " << show(lat.getAnnotationText(e.d)) << " instead of " << show(e.txt));
            VP_REQUIRE(lat.getEdgeScore(e.d) == e.score, "edge " << e.from << "-" << e.to << "/" << e.cat << " has score " << lat.getEdgeScore(e.d) << " instead of " << e.score);
            VP_REQUIRE((int)lat.getEdgePartitions(e.d).size() == e.nparts, "edge " << e.from << "-" << e.to << "/" << e.cat << " has " << lat.getEdgePartitions(e.d).size() << " partitions instead of " << e.nparts);
        }
        VP_REQUIRE(lat.isDiscarded(e.d) == (e.tags.count("discarded") > 0), "isDiscarded is wrong");
        return "";
    }
    std::vector<int> verts() { std::vector<int> r = bounds(); for (size_t i = 0; i < anchors.size(); ++i) r.push_back(-1 - (int)i); return r; }
    std::string collect(Lattice::InOutEdgesIterator it, std::vector<int>& out, const char* what) {
        size_t n = 0;
        while (it.hasNext()) { D d = it.next(); int k = find(d); VP_REQUIRE(k >= 0, what << " yields an edge nobody added: " << lat.getEdgeSource(d) << "-" << lat.getEdgeTarget(d) << "/" << lat.getAnnotationCategory(d)); out.push_back(k); VP_REQUIRE(++n <= es.size(), what << " yields an edge twice"); }
        std::sort(out.begin(), out.end()); return "";
    }
    std::string lookup(int v, const std::vector<S>* m) {
        LayerTagMask k = m ? mask(*m) : lat.getLayerTagManager().anyTag();
        std::vector<int> o, i, wo, wi;
        for (size_t j = 0; j < es.size(); ++j) { if (m && !hit(es[j].tags, *m)) continue; if (es[j].from == v) wo.push_back(j); if (es[j].to == v) wi.push_back(j); }
        std::string r = collect(lat.outEdges(v, k), o, "outgoing"); if (!r.empty()) return r;
        r = collect(lat.inEdges(v, k), i, "ingoing"); if (!r.empty()) return r;
        std::string ms = m ? "" : "any"; if (m) for (auto& a : *m) ms += (ms.empty() ? "" : ";") + str(a);
        VP_REQUIRE(o == wo, "outgoing edges of " << v << " for mask " << ms << " are {" << names(o) << " } instead of {" << names(wo) << " }");
        VP_REQUIRE(i == wi, "ingoing edges of " << v << " for mask " << ms << " are {" << names(i) << " } instead of {" << names(wi) << " }");
        bool fo = true; try { D d = lat.firstOutEdge(v, k); VP_REQUIRE(std::find(wo.begin(), wo.end(), find(d)) != wo.end(), "first outgoing edge is not one of them"); } catch (NoEdgeException&) { fo = false; }
        VP_REQUIRE(fo == !wo.empty(), "first outgoing edge exists: " << fo);
        bool fi = true; try { D d = lat.firstInEdge(v, k); VP_REQUIRE(std::find(wi.begin(), wi.end(), find(d)) != wi.end(), "first ingoing edge is not one of them"); } catch (NoEdgeException&) { fi = false; }
        VP_REQUIRE(fi == !wi.empty(), "first ingoing edge exists: " << fi);
        return "";
    }
    std::string seqcheck(const std::vector<int>& sq, const Lattice::EdgeSequence& s) {
        std::vector<int> got; Lattice::EdgeSequence::Iterator it(lat, s); std::string t, ft;
        while (it.hasNext() && got.size() <= sq.size()) got.push_back(find(it.next()));
        VP_REQUIRE(got == sq, "a sequence built from " << sq.size() << " edges {" << names(sq) << " } yields " << got.size() << " edges");
        for (int i : sq) t += (es[i].from < 0 || es[i].to < 0) ? "@" : text.substr(es[i].from, es[i].to - es[i].from);
        VP_REQUIRE(lat.getSequenceText(s) == t, "text of the sequence {" << names(sq) << " } is " << show(lat.getSequenceText(s)) << " instead of " << show(t));
        VP_REQUIRE(s.size(lat) == sq.size() && s.empty() == sq.empty(), "size of a sequence is " << s.size(lat) << " instead of " << sq.size());
        if (!sq.empty()) {
            VP_REQUIRE(find(s.firstEdge(lat)) == sq.front(), "first edge of a sequence"); VP_REQUIRE(find(s.lastEdge(lat)) == sq.back(), "last edge of a sequence");
            for (size_t i = 0; i < sq.size(); ++i) VP_REQUIRE(find(s.nthEdge(lat, i)) == sq[i], "edge " << i << " of a sequence");
            VP_REQUIRE(lat.getSequenceTextAsStringFrag(s).str() == t, "text fragment of the sequence {" << names(sq) << " } is " << show(lat.getSequenceTextAsStringFrag(s).str()) << " instead of " << show(t));
        }
        return "";
    }
    std::string all(int prop) {
        std::string r;
        for (size_t i = 0; i < es.size(); ++i) { r = checkEdge(i); if (!r.empty()) return r; }
        std::vector<std::vector<S>> ms = masks();
        if (prop == 1) for (int v : verts()) { r = lookup(v, 0); if (!r.empty()) return r; for (auto& m : ms) { r = lookup(v, &m); if (!r.empty()) return r; } }
        if (prop == 2) for (int v : verts()) {
            r = lookup(v, 0); if (!r.empty()) return r;
            for (int w : verts()) { int n = 0; for (auto& e : es) if (e.from == v && e.to == w) ++n; VP_REQUIRE(lat.countEdges(v, w) == n, "edge count " << v << "-" << w << " is " << lat.countEdges(v, w) << " instead of " << n); }
        }
        if (prop == 3 && !converted) for (auto& s : seqs) { r = seqcheck(s.first, s.second); if (!r.empty()) return r; }
        if (prop == 4) {
            VP_REQUIRE(lat.getAllText() == text, "text " << show(lat.getAllText()) << " instead of " << show(text));
            VP_REQUIRE(lat.countAllVertices() == (int)(bounds().size() + anchors.size()), "number of vertices");
            for (auto& e : es) {
                std::string t = (e.from < 0 || e.to < 0) ? "@" : text.substr(e.from, e.to - e.from);
                VP_REQUIRE(lat.getEdgeText(e.d) == t && lat.getEdgeTextAsStringFrag(e.d).str() == t, "text of edge " << e.from << "-" << e.to << " is " << show(lat.getEdgeText(e.d)));
                bool loose = e.from < 0 || e.to < 0, thrown = false; int len = -1;
                try { len = lat.getEdgeLength(e.d); } catch (WrongVertexException&) { thrown = true; }
                VP_REQUIRE(thrown == loose && (loose || len == e.to - e.from), "length of an edge");
                if (!loose) VP_REQUIRE(lat.getEdgeBeginIndex(e.d) == e.from && lat.getEdgeEndIndex(e.d) == e.to, "begin/end index of an edge");
            }
            for (size_t mi = 0; mi <= ms.size(); ++mi) for (int dir = 0; dir < 2; ++dir) {
                LayerTagMask k = mi ? mask(ms[mi - 1]) : lat.getLayerTagManager().anyTag();
                std::vector<int> want, got; for (size_t j = 0; j < es.size(); ++j) if (!mi || hit(es[j].tags, ms[mi - 1])) want.push_back(j);
                int last = -1; std::map<int, int> at;
                auto eat = [&](Lattice::SortedEdgesIterator& it) -> std::string {
                    while (it.hasNext() && got.size() <= es.size()) {
                        D d = it.next(); int j = find(d); VP_REQUIRE(j >= 0, "sorted edges yield an unknown edge");
                        int key = dir ? es[j].to : es[j].from;
                        if (key >= 0) { VP_REQUIRE(key >= last, "sorted edges are out of order: " << key << " after " << last); last = key; }
                        at.insert(std::make_pair(key, (int)at.size())); got.push_back(j);
                    }
                    return "";
                };
                if (dir) { Lattice::EdgesSortedByTargetIterator it(lat, k); r = eat(it); } else { Lattice::EdgesSortedBySourceIterator it(lat, k); r = eat(it); }
                if (!r.empty()) return r;
                for (auto& e : es) if (e.to < 0 && at.count(e.from) && at.count(e.to)) VP_REQUIRE(at[e.from] < at[e.to], "edges sorted by " << (dir ? "target" : "source") << ": the loose vertex " << e.to << " comes before the vertex " << e.from << " that leads to it");
                std::sort(got.begin(), got.end());
                VP_REQUIRE(got == want, (dir ? "edges sorted by target" : "edges sorted by source") << " yield {" << names(got) << " } instead of {" << names(want) << " }");
            }
        }
        return "";
    }
    std::string addsym(int from, int to) {
        lat.addSymbols(from, to); // the specification: one character edge per character
        for (int v = from; v < to; v += symlen(v)) {
            std::string cat = "'" + text.substr(v, symlen(v)); int w = v + symlen(v), same = -1;
            for (size_t i = 0; i < es.size() && same < 0; ++i) if (es[i].from == v && es[i].to == w && es[i].cat == cat && es[i].txt.empty() && plane(es[i].tags).empty()) same = i;
            if (same < 0) {
                D hitd; int n = 0; Lattice::InOutEdgesIterator it = lat.allOutEdges(v);
                while (it.hasNext()) { D d = it.next(); if (find(d) < 0) { hitd = d; ++n; } }
                VP_REQUIRE(n == 1, "adding characters " << from << ".." << to << " made " << n << " new edges at " << v);
                es.push_back({v, w, cat, "", {"symbol"}, 0, 1, hitd, !hitd.isExplicit()});
            } else if (!es[same].implicit) { es[same].tags.insert("symbol"); if (es[same].score < 0) es[same].score = 0; es[same].nparts++; }
        }
        return "";
    }
};
static std::string history(const std::string& in) {
    Choices c(in); W w; std::string r;
    static const char* CH[] = {"a", "\xc4\x85", "\xe2\x82\xac", "b", "\xf0\x9f\x98\x80", " "};
    static const char* CATS[] = {"X", "Y", "'a", "B"}; static const char* TX[] = {"", "a", "foo"};
    int n = 2 + c.below(4); for (int i = 0; i < n; ++i) w.text += CH[i == 0 ? 0 : c.below(6)];
    w.lat.appendString(w.text);
    int ops = 0;
    while (c.more() && ops++ < 24) {
        std::vector<int> b = w.bounds();
        auto vert = [&](bool src) { unsigned x = c.byte(); if (!w.anchors.empty() && (x & 128)) return -1 - (int)((x & 127) % w.anchors.size()); return b[(x & 127) % b.size()]; };
        unsigned op = c.byte() % 16;
        if (op == 0) { int i = c.below(b.size()), j = c.below(b.size()); if (i > j) std::swap(i, j); r = w.addsym(b[i], b[j]); }
        else if (op == 1) r = w.addsym(0, w.text.size());
        else if (op == 2) { std::string t = CH[c.below(6)]; if (c.below(2)) t += CH[c.below(6)]; int p = w.text.size(); w.text += t; w.lat.appendString(t); if (c.below(2)) r = w.addsym(p, w.text.size()); }
        else if (op == 3) { if (w.anchors.size() < 3) { int v = w.lat.addLooseVertex(); w.anchors.push_back(b[c.below(b.size())]); VP_REQUIRE(v == -(int)w.anchors.size(), "descriptor of a loose vertex"); VP_REQUIRE(w.lat.isLooseVertex(v), "loose"); } }
        else if (op == 4) { auto ms = masks(); auto& m = ms[c.below(ms.size())]; int v = vert(true); if (PROP != 3) r = w.lookup(v, &m); }
        else if (op == 5) { if (!w.es.empty()) { int i = c.below(w.es.size()); ME& e = w.es[i]; if (!e.implicit && e.cat[0] != '\'' ) { std::set<std::string> pl = plane(e.tags); w.lat.discard(e.d);
            // discarding adds the tag to the edge's own entry (found by endpoints, item and plane)
            int same = -1; for (size_t k = 0; k < w.es.size() && same < 0; ++k) if (w.es[k].from == e.from && w.es[k].to == e.to && w.es[k].cat == e.cat && w.es[k].txt == e.txt && plane(w.es[k].tags) == pl) same = k;
            VP_REQUIRE(w.lat.isDiscarded(e.d), "a discarded edge is not marked discarded"); w.es[same].tags.insert("discarded"); w.es[same].nparts++; } } }
        else if (op == 6 || op == 7) { // a sequence of edges, built and read back
            std::vector<int> sq; int k = 1 + c.below(5); if (!w.es.empty()) for (int i = 0; i < k; ++i) sq.push_back(c.below(w.es.size()));
            if (op == 7 && !sq.empty()) { sq.resize(1); for (int i = 0; i < k; ++i) { for (size_t j = 0; j < w.es.size(); ++j) if (w.es[j].from == w.es[sq.back()].to) { sq.push_back(j); break; } } }
            if (!sq.empty()) { Lattice::EdgeSequence::Builder bl(w.lat); for (int i : sq) bl.addEdge(w.es[i].d); Lattice::EdgeSequence s = bl.build(); w.seqs.push_back({sq, s}); if (PROP == 3 && !w.converted) r = w.seqcheck(sq, s); }
        }
        else {
            int from = vert(true), to = vert(false);
            // keep histories with loose vertices acyclic: a loose vertex sits right after its anchor
            auto pos = [&](int v) { return v >= 0 ? v * 8 : w.anchors[-1 - v] * 8 + (-v); };
            if ((from < 0 || to < 0) && pos(from) > pos(to)) std::swap(from, to);
            unsigned tb = c.byte(); S tags; for (int i = 0; i < 7; ++i) if (tb >> i & 1) tags.insert(TAGS[i]);
            if ((tb & 0x60) == 0x60 && (tb & 1)) { tags.erase("!p1"); }
            unsigned ct = c.byte(); std::string cat = CATS[ct % 3], txt = TX[ct / 3 % 3];
            if (tags.empty()) tags.insert("token");
            if (tb & 0x80) { tags.insert("symbol"); }
            if (ct & 0x40 && from >= 0 && from < (int)w.text.size()) { cat = "'" + w.text.substr(from, w.symlen(from)); txt = ""; to = from + w.symlen(from); tags.erase("!p1"); tags.erase("!p2"); if (ct & 0x20) tags = S{"symbol"}; if (tags.empty()) tags.insert("symbol"); }
            else if ((ct & 0x20) && (from < 0 || to < 0)) { tags = S{"symbol"}; }
            std::vector<int> sq; unsigned q = c.byte(); if ((q & 3) == 0 && !w.es.empty()) { int k = 1 + (q >> 2) % 3; for (int i = 0; i < k; ++i) sq.push_back((c.byte()) % w.es.size()); }
            double score = (int)(q >> 5) - 3;
            r = w.add(from, to, cat, txt, tags, sq, score);
        }
        if (!r.empty()) return "after step " + std::to_string(ops) + ": " + r;
    }
    return w.all(PROP);
}
void vp_register() {
    std::string a; for (int i = 0; i < 256; i += 7) a += (char)i;
    tests().push_back(Test("history", history, {}, 0, 110, {}, 1));
    std::string b("\x00\x01\x03\x04\x08\x81\x40\x60", 8);
    tests().push_back(Test("history2", history, {b}, 6, 90, {std::string("\x01", 1), std::string("\x08\x00\x01\x01\x40\x01", 6), std::string("\x04\x02\x00", 3), std::string("\x08\x00\x02\x02\x00\x01", 6), std::string("\x08\x00\x02\x04\x00\x01", 6), std::string("\x03\x01", 2), std::string("\x08\x80\x02\x01\x20\x01", 6)}, 1));
}
