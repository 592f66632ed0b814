// K01: the real TpTokenizer and SrxSegmenter, with generated rule files, on generated lattices; the expected tokens and
// segments are computed from the rules as the documentation describes them (regular expressions are the library's).
#define VP_MAIN
#include "vp.hpp"
#include "config.hpp"
#include <pcrecpp.h>
#include "lattice.hpp"
#include "annotation_item_manager.hpp"
#include "tp_tokenizer.hpp"
#include "srx_segmenter.hpp"
#include <boost/program_options.hpp>
using namespace vp;
typedef std::string str;
// the annotator as a pipeline builds it: from the values of its options
template <class F> static Annotator* made(const std::vector<str>& args) {
    F f; boost::program_options::variables_map vm; boost::program_options::options_description d = f.optionsHandled();
    boost::program_options::store(boost::program_options::command_line_parser(args).options(d).run(), vm); boost::program_options::notify(vm); return f.createAnnotator(vm); }
static str num(size_t n) { std::ostringstream s; s << n; return s.str(); }
struct Dir { str p; Dir() { char d[] = "/tmp/vp_k01_XXXXXX"; p = mkdtemp(d) ? d : ""; } ~Dir() { if (!p.empty()) { for (auto& f : files) unlink(f.c_str()); rmdir(p.c_str()); } }
    std::vector<str> files; str put(const str& n, const str& t) { str f = p + "/" + n; std::ofstream(f, std::ios::binary) << t; files.push_back(f); return f; } };
static size_t clen(const str& s, size_t i) { unsigned char b = s[i]; return b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; }
static str text(Choices& c, const char* const* al, unsigned n) { str t; unsigned k = 1 + c.below(24); while (k--) t += al[c.below(n)]; return t; }
struct Frag { size_t from, to; bool ours; };
// 1-3 text fragments (ours: in the language processed), separated by uncovered line ends
static std::vector<Frag> frags(Choices& c, Lattice& l, const char* const* al, unsigned n, str& whole) {
    std::vector<Frag> r; unsigned k = c.byte() % 4 == 0 ? 1 + c.below(3) : 1;
    for (unsigned i = 0; i < k; ++i) {
        if (i || c.byte() % 8 == 0) { l.appendString("\n"); whole += "\n"; }
        str t = text(c, al, n); Frag f; f.from = whole.size(); whole += t; f.to = whole.size(); f.ours = c.byte() % 8 != 7; l.appendStringWithSymbols(t);
        LayerTagCollection tags = l.getLayerTagManager().createSingletonTagCollectionWithLangCode("text", f.ours ? "pl" : "en");
        l.addEdge(f.from, f.to, AnnotationItem("TEXT", StringFrag(t)), tags); r.push_back(f); }
    return r;
}
struct Seg { size_t from, to; str cat; };
static str showsegs(const std::vector<Seg>& v, const str& w) { str r; for (auto& s : v) r += "[" + s.cat + " " + show(w.substr(s.from, s.to - s.from)) + "]"; return r.substr(0, 300); }
// the edges with a tag: they must be exactly the wanted ones, each made of the characters it covers; nothing else may be added
static str compare(Lattice& l, const str& tag, const std::vector<Seg>& want, const str& whole, const std::vector<Frag>& fr, size_t hard, size_t soft) {
    std::vector<Seg> got; Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(l.getLayerTagManager().getMask(tag)); size_t n = 0;
    while (it.hasNext()) { Lattice::EdgeDescriptor e = it.next(); Seg s; s.from = l.getEdgeSource(e); s.to = l.getEdgeTarget(e); s.cat = l.getAnnotationCategory(e);
        got.push_back(s);
        VP_REQUIRE(l.getAnnotationText(e) == whole.substr(s.from, s.to - s.from), "the " << tag << " at " << s.from << "-" << s.to << " has the text " << show(l.getAnnotationText(e)));
        std::list<std::string> tn = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(e)); VP_REQUIRE((std::set<str>(tn.begin(), tn.end()) == std::set<str>{tag, "!pl"}), "the " << tag << " has other tags");
        std::list<Lattice::Partition> ps = l.getEdgePartitions(e); VP_REQUIRE(ps.size() == 1, "the " << tag << " has " << ps.size() << " analyses");
        size_t at = s.from; Lattice::Partition::Iterator pi(l, ps.front()); while (pi.hasNext()) { Lattice::EdgeDescriptor p = pi.next(); VP_REQUIRE((size_t)l.getEdgeSource(p) == at && l.getEdgeLength(p) == (int)clen(whole, at) && l.getAnnotationCategory(p)[0] == '\'', "the " << tag << " at " << s.from << " is not made of the characters it covers"); at += clen(whole, at); }
        VP_REQUIRE(at == s.to, "the parts of the " << tag << " at " << s.from << "-" << s.to << " end at " << at); }
    if (!hard && !soft) {
        bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); ++i) same = got[i].from == want[i].from && got[i].to == want[i].to && got[i].cat == want[i].cat;
        VP_REQUIRE(same, tag << "s are " << showsegs(got, whole) << ", expected " << showsegs(want, whole));
    } else {
        size_t i = 0; for (auto& w : want) { size_t at = w.from; bool one = (!hard || w.to - w.from < hard) && (!soft || w.to - w.from < soft); size_t k = 0;
            while (at < w.to) { VP_REQUIRE(i < got.size() && got[i].from == at && got[i].to > at && got[i].to <= w.to && got[i].cat == w.cat, "with limits " << hard << "/" << soft << ", the pieces do not cover the " << tag << " " << w.from << "-" << w.to << " of category " << w.cat << ": " << showsegs(got, whole));
                VP_REQUIRE(!hard || got[i].to - got[i].from <= hard, "a piece of " << got[i].to - got[i].from << " bytes exceeds the limit " << hard); at = got[i++].to; ++k; }
            VP_REQUIRE(!one || k == 1, "a " << tag << " within the limits is split"); }
        VP_REQUIRE(i == got.size(), "there are more pieces than text"); }
    return "";
}
static size_t total(Lattice& l) { size_t n = 0; Lattice::EdgesSortedBySourceIterator it = l.edgesSortedBySource(l.getLayerTagManager().anyTag()); while (it.hasNext()) { it.next(); ++n; } return n; }
// ---- tokens
struct Atom { const char *file, *re; };
static const Atom ATOMS[] = {{"[a-c]+", "[a-c]+"}, {"\\ ", " "}, {"\\#", "#"}, {"\\@", "@"}, {"\\d", "\\d"}, {"\\.", "\\."}, {"[\xC4\x85\xE2\x82\xAC]", "[\xC4\x85\xE2\x82\xAC]"}, {"(?:a|bb)", "(?:a|bb)"}, {"\\p{L}+", "\\p{L}+"}, {"(?i:xb)", "(?i:xb)"}, {"b*", "b*"}, {"(?=a)", "(?=a)"}, {"(a)", "(a)"}, {"X{2}", "X{2}"}, {".", "."}, {"[.\\#]?", "[.#]?"}, {"\xF0\x9F\x98\x80", "\xF0\x9F\x98\x80"}};
static const char* TX[] = {"a", "b", "c", " ", "#", "@", "1", ".", "\xC4\x85", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "X", "x", "ab", "\t"};
struct Rule { str re, cat; };
struct Gen { Choices& c; std::map<str, str> defs; std::vector<Rule> rules; int names; std::vector<str> incs; Dir& d; std::map<str, boost::filesystem::path> mapping; bool useInc;
    Gen(Choices& c_, Dir& d_) : c(c_), names(0), d(d_), useInc(false) {}
    void body(str& file, str& re, bool inDef) { unsigned n = 1 + c.below(3); file = re = ""; if (!inDef && n > 1 && c.byte() % 5 == 0) { str f1, r1, f2, r2; body(f1, r1, true); body(f2, r2, true); file = f1 + (c.byte() & 1 ? " | " : "|") + f2; re = r1 + "|" + r2; return; }
        for (unsigned i = 0; i < n; ++i) { const char* ws[] = {"", " ", "", "\n  ", "\t"}; if (i) file += ws[c.below(5)];
            if (!defs.empty() && c.byte() % 3 == 0) { auto it = defs.begin(); std::advance(it, c.below(defs.size())); file += it->first + " "; re += it->second; }
            else { unsigned k; do k = c.below(sizeof ATOMS / sizeof *ATOMS); while (inDef && strchr(ATOMS[k].file, '\\') && strpbrk(ATOMS[k].file, "#@ ")); file += ATOMS[k].file; re += ATOMS[k].re; if (i + 1 < n && strcmp(ATOMS[k].file, "\\ ") == 0) file += ""; } } }
    // a list of abbreviations: any of the words, in any case, with a full stop no letter follows
    void heredoc(str& f, str& r) { static const char* W[] = {"A", "ab", "B", "XB", "x", "\xC4\x85", "ca?b"}; static const char* M[] = {"END", "E_1", "STOP"}; str m = M[c.below(3)], pre = c.byte() & 1 ? "X*" : ""; unsigned n = 1 + c.below(3); f = pre + "<<" + m; if (c.byte() % 3 == 0) { f += " c?"; } bool post = f[f.size() - 1] == '?'; f += "\n"; r = pre + "(?i:";
        for (unsigned i = 0; i < n; ++i) { str w = W[c.below(7)]; f += w + "\n"; r += (i ? "|" : "") + w; } f += m; r += ")\\.(?!\\p{L})"; if (post) r += "c?"; }
    str eol() { const char* e[] = {"\n", " \n\n", "\n# note\n", "  # note @rule a/b := c \n", "\n\n"}; return e[c.below(5)]; }
    void block(str& out, bool on, int depth) { unsigned n = 1 + c.below(4);
        for (unsigned i = 0; i < n && c.more(); ++i) { unsigned k = c.byte() % 14; str f, r; std::ostringstream nm;
            if (k < 5) { if (c.byte() % 4 == 0) { heredoc(f, r); } else body(f, r, false); nm << "r_" << names++; str cat = str("T") + "ABCDE"[c.below(5)]; out += "@rule " + nm.str() + "/" + cat + (c.byte() & 1 ? " := " : ":=") + f + eol(); if (on) { Rule x = {r, cat}; rules.push_back(x); } }
            else if (k < 9) { static const char* dn[] = {"QQ", "QQZ", "ZQ", "QZQQ"}; str d = dn[c.below(4)]; if (defs.count(d)) continue; body(f, r, true); out += "@def " + d + " " + f + eol(); if (on) defs[d] = r; }
            else if (k != 11 && depth < 3) { static const char* dn[] = {"QQ", "QQZ", "ZQ", "NONE", "OTHER"}; str d = dn[c.below(5)]; bool neg = c.byte() & 1, in = (defs.count(d) > 0) != neg; out += str(neg ? "@ifndef " : "@ifdef ") + d + "\n"; block(out, on && in, depth + 1); if (c.byte() & 1) { out += "@else\n"; block(out, on && !in, depth + 1); } out += "@endif" + eol(); }
            else if (!useInc && depth < 2) { useInc = true; str sub; block(sub, on, 2); str in = c.byte() & 1 ? "other" : "oth_pl"; out += "@include " + in + eol(); mapping[in] = d.put("other.rgx", "# included\n" + sub); } } }
};
static str tokens(const str& in) {
    Choices c(in); Dir d; Gen g(c, d); str whole; AnnotationItemManager aim; Lattice l(aim);
    size_t hard = 0, soft = 0; if (c.byte() % 4 == 0) { hard = c.byte() & 1 ? 4 + c.below(8) : 0; soft = c.byte() & 1 ? 1 + c.below(8) : 0; }
    std::vector<Frag> fr = frags(c, l, TX, sizeof TX / sizeof *TX, whole); size_t before = total(l);
    str file = "# rules\n"; bool first = c.byte() & 1; str mainr = "@rule main_regex/main_regex := .\n"; if (first) file += mainr; g.block(file, true, 0); if (!first) file += mainr;
    str path = d.put("pl.rgx", file); bool built = c.byte() % 2;
    std::vector<Seg> want; std::vector<pcrecpp::RE*> res; std::vector<std::shared_ptr<pcrecpp::RE>> own;
    for (auto& r : g.rules) { own.push_back(std::make_shared<pcrecpp::RE>("^(?:" + r.re + ")", pcrecpp::UTF8())); if (!own.back()->error().empty()) return ""; }
    for (auto& f : fr) if (f.ours) { size_t at = f.from; while (at < f.to) { pcrecpp::StringPiece p(whole.data() + at, f.to - at); size_t len = 0; str cat = "X"; for (size_t i = g.rules.size(); i-- > 0 && !len; ) { pcrecpp::StringPiece q = p; if (own[i]->Consume(&q) && q.size() < p.size()) { len = p.size() - q.size(); cat = g.rules[i].cat; } } if (!len) len = clen(whole, at); Seg s = {at, at + len, cat}; want.push_back(s); at += len; } }
    try {
        std::unique_ptr<Annotator> t;
        if (built) { str m = "none_%LANG%=" + path; for (auto& e : g.mapping) { str k = e.first; size_t i = k.find("pl"); if (i != str::npos) k.replace(i, 2, "%LANG%"); m += ";" + k + "=" + e.second.string(); }
            t.reset(made<TpTokenizer::Factory>({"--lang", "pl", "--rules", d.p + "/%LANG%.rgx", "--mapping", m, "--token-length-hard-limit", num(hard), "--token-length-soft-limit", num(soft)})); }
        else t.reset(new TpTokenizer("pl", path, g.mapping, hard, soft));
        t->annotate(l);
    } catch (std::exception& e) { return "the rules are rejected: " + str(e.what()).substr(0, 100) + " " + show(file); }
    str r = compare(l, "token", want, whole, fr, hard, soft); if (!r.empty()) return r + " with the rules " + show(file);
    if (!hard && !soft) VP_REQUIRE(total(l) == before + want.size(), "the tokenizer adds other edges");
    return "";
}
// a malformed rule file is rejected with an error
static str malformed(const str& in) {
    Choices c(in); Dir d; Gen g(c, d); str file = "@rule main_regex/main_regex := .\n"; g.block(file, true, 0);
    static const char* BAD[] = {"@else\n", "@endif\n", "@ifdef QQ\n", "@ifndef QQ\n@else\n", "@ifdef QQ\n@endif\n@endif\n", "@ifdef QQ\n@endif\n@else\n", "@nonsense a\n", "@rule noname\n", "@rule a/b := (a\n", "@rule a/b := [a\n", "@def\n", "@ifdef\n", "@include nosuch\n", "@rule hd/hd := <<END\nabc\n", "@def LA x LB \n@def LB y LA \n@rule z/z := LA\n", "@ifndef NONE\n@else\n@else\n@endif\n", "@ifdef A b\n@endif\n"};
    str bad = BAD[c.below(sizeof BAD / sizeof *BAD)]; str path = d.put("bad.rgx", file + bad);
    try { TpTokenizer t("pl", path, g.mapping, 0, 0); } catch (std::exception& e) { return ""; } catch (...) { return "no proper error for the rules ending with " + show(bad); }
    return "no error for the rules ending with " + show(bad);
}
// ---- segments
static const char* BEF[] = {"\\.", "[.!]", "[.!?]", "a", "[a-c]", "\\s", "\\)", "[(]", "[()]", "(a|b)", "(?:b|\\.)", "\xC4\x85", "[^a]", "\\(", "[A-Z]", "", "[A-Z]\\.", "aB", "[])]", "\\\\"};
static const char* AFT[] = {"\\s", "[A-Z]", "", "\\s[A-Z]", "(\\s)(a|B)", "b", "[(]", "(?:\\s)", "[^.]", "\\\\", "\xC4\x85", "\\s*[A-Z]", "[?:]"};
static const char* SX[] = {"a", "b", "B", " ", ".", "!", "?", ":", "(", ")", "A", "\xC4\x85", "\xF0\x9F\x98\x80", ". ", "B. ", "]", "\\", "\t"};
struct SRule { bool brk; str bef, aft; std::shared_ptr<pcrecpp::RE> b, a; unsigned w; };
static str segments(const str& in) {
    Choices c(in); Dir d; str whole; AnnotationItemManager aim; Lattice l(aim); size_t hard = 0, soft = 0; if (c.byte() % 6 == 0) { hard = c.byte() & 1 ? 4 + c.below(12) : 0; soft = c.byte() & 1 ? 1 + c.below(12) : 0; }
    std::vector<Frag> fr = frags(c, l, SX, sizeof SX / sizeof *SX, whole); size_t before = total(l);
    bool force = c.byte() % 4 == 0; unsigned ck = c.below(3), ver = c.below(2); str casc = ck == 0 ? "" : ck == 1 ? " cascade=\"yes\"" : " cascade=\"no\""; bool header = ck || (c.byte() & 1); bool cascade = force || ck == 1;
    unsigned nl = 1 + c.below(3); std::vector<std::vector<SRule>> ls(nl);
    str x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<srx version=\"" + str(ver ? "2.0" : "1.0") + "\">\n"; if (header) x += "<header segmentsubflows=\"yes\"" + casc + "/>\n"; x += "<body>\n<languagerules>\n";
    for (unsigned i = 0; i < nl; ++i) { x += "<languagerule languagerulename=\"L" + str(1, '0' + i) + "\">\n"; unsigned n = c.below(5); for (unsigned j = 0; j < n; ++j) { SRule r; r.brk = c.byte() % 3 != 0; r.bef = BEF[c.below(sizeof BEF / sizeof *BEF)]; r.aft = AFT[c.below(sizeof AFT / sizeof *AFT)]; if (r.bef.empty() && (r.aft.empty() || r.aft == "\\s*[A-Z]")) continue;
            r.w = r.bef.empty() ? 0 : r.bef == "[A-Z]\\." || r.bef == "aB" ? 2 : 1; r.b = std::make_shared<pcrecpp::RE>(r.bef, pcrecpp::UTF8()); r.a = std::make_shared<pcrecpp::RE>("^(?:" + r.aft + ")", pcrecpp::UTF8()); ls[i].push_back(r);
            x += "<rule break=\"" + str(r.brk ? "yes" : "no") + "\"><beforebreak>" + r.bef + "</beforebreak><afterbreak>" + r.aft + "</afterbreak></rule>\n"; } x += "</languagerule>\n"; }
    x += "</languagerules>\n<maprules>\n"; unsigned nm = 1 + c.below(3), cur = 0; std::set<unsigned> use; bool done = false; if (!ver) x += "<maprule maprulename=\"Default\">\n";
    for (unsigned i = 0; i < nm; ++i) { static const char* pats[] = {"pl", "p.*", ".*", "en", "[Pp][Ll]", "p", "l"}; static const bool ok[] = {true, true, true, false, true, false, false}; unsigned p = c.below(7); cur = cur + c.below(nl - cur); x += "<languagemap languagepattern=\"" + str(pats[p]) + "\" languagerulename=\"L" + str(1, '0' + cur) + "\"/>\n"; if (ok[p] && !done) { use.insert(cur); if (!cascade) done = true; } }
    if (!ver) x += "</maprule>\n"; x += "</maprules>\n</body>\n</srx>\n"; str path = d.put("r" + d.p.substr(d.p.size() - 6) + ".srx", x);
    std::vector<SRule> rules; for (unsigned i : use) for (auto& r : ls[i]) rules.push_back(r);
    std::vector<Seg> want;
    for (auto& f : fr) if (f.ours) { size_t pos = f.from; while (pos < f.to) { size_t b = pos + clen(whole, pos), prev = pos, end = f.to;
            for (; b < f.to; prev = b, b += clen(whole, b)) { int dec = 0;
                for (auto& r : rules) { size_t s = r.w == 0 ? b : prev; if (r.w == 2) { if (prev <= pos) { if (prev == pos && pos > f.from) { size_t q = pos; do --q; while (((unsigned char)whole[q] & 0xC0) == 0x80); if (r.b->FullMatch(whole.substr(q, b - q))) return ""; } continue; } s = prev; do --s; while (((unsigned char)whole[s] & 0xC0) == 0x80); }
                    if (!r.b->FullMatch(whole.substr(s, b - s))) continue; pcrecpp::StringPiece q(whole.data() + b, f.to - b); if (!r.a->Consume(&q)) continue; dec = r.brk ? 1 : -1; break; }
                if (dec > 0) { end = b; break; } }
            Seg s = {pos, end, "sen"}; want.push_back(s); pos = end; } }
    bool built = c.byte() % 2; std::unique_ptr<Annotator> t;
    if (built) { std::vector<str> a = {"--lang", "pl", "--rules", path, "--sentence-length-hard-limit", num(hard), "--sentence-length-soft-limit", num(soft)}; if (force) a.push_back("--cascade"); t.reset(made<SrxSegmenter::Factory>(a)); }
    else t.reset(new SrxSegmenter("pl", path, hard, soft, force));
    t->annotate(l);
    str r = compare(l, "segment", want, whole, fr, hard, soft); if (!r.empty()) return r + " with the rules " + show(x.substr(x.find("<body>") + 6));
    if (!hard && !soft) VP_REQUIRE(total(l) == before + want.size(), "the segmenter adds other edges");
    return "";
}
void vp_register() {
    tests().push_back(Test("tokens", tokens, {}, 0, 160, {}, 1));
    tests().push_back(Test("malformed", malformed, {}, 0, 60, {}, 0.2));
    tests().push_back(Test("segments", segments, {}, 0, 140, {}, 1));
}
