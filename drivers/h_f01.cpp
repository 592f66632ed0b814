// F01: pipelines.  The real PipeRunner, AutoCompleter, FactoriesKeeper, Aliaser and promises run over made-up
// processors (drivers' own factories); an independent reading of the rules says what must be run.
#define VP_MAIN
#include "vp.hpp"
#include "main_factories_keeper.hpp"
#include "pipe_runner.hpp"
#include "auto_completer.hpp"
#include "edit_distance.hpp"
#include "annotator_factory.hpp"
#include "annotator_promise.hpp"
#include "lattice_reader_factory.hpp"
#include "lattice_writer_factory.hpp"
#include "logging.hpp"
using namespace vp;
typedef std::vector<std::string> VS;
namespace po = boost::program_options;
extern "C" { struct uchardet; typedef struct uchardet* uchardet_t; uchardet_t uchardet_new() { return 0; } void uchardet_delete(uchardet_t) {} int uchardet_handle_data(uchardet_t, const char*, size_t) { return 0; } void uchardet_data_end(uchardet_t) {} void uchardet_reset(uchardet_t) {} const char* uchardet_get_charset(uchardet_t) { return ""; } }
// ---- the world
enum { INDEP, ONE, DEP, GUESS };
struct Fac {
    std::string name; char kind; int handling; VS langs; std::vector<VS> req; VS prov, aliases; int q, t; bool x, strict, need, fails; std::string failLang, cont; bool unmet; int id;
    Fac() : kind('A'), handling(INDEP), q(0), t(0), x(false), strict(false), need(false), fails(false), unmet(false), id(0) {}
};
static std::vector<Fac> W; static VS trace; static int created;
typedef std::map<std::string, std::string> Opts;
static std::string shw(const std::string& n, const Opts& o) { std::string r = n; for (auto& p : o) r += "{" + p.first + "=" + p.second + "}"; return r; }
static Opts optsOf(const po::variables_map& m) {
    Opts r;
    for (auto& p : m) { if (p.second.empty()) continue; if (p.second.value().type() == typeid(bool)) { if (p.second.as<bool>()) r[p.first] = "1"; } else if (p.second.value().type() == typeid(std::string)) { if (!p.second.as<std::string>().empty()) r[p.first] = p.second.as<std::string>(); } }
    return r;
}
static po::options_description descOf(const Fac& f) {
    po::options_description d("Allowed options");
    if (f.name == "txt-reader") d.add_options()("line-by-line", po::bool_switch()->default_value(false), "");
    if (f.handling == GUESS) d.add_options()("force", po::bool_switch()->default_value(false), "")("only-langs", po::value<std::string>(), "");
    if (f.x) d.add_options()("x", po::value<std::string>(), "");
    if (f.strict) d.add_options()("strict", po::bool_switch()->default_value(false), "");
    if (f.need) d.add_options()("need", po::value<std::string>(), "");
    if (f.handling == DEP) d.add_options()("lang", po::value<std::string>()->default_value("guess"), "");
    return d;
}
struct LogWorker : LatticeWorker { std::string s; LogWorker(Lattice& l, const std::string& s) : LatticeWorker(l), s(s) {} void doRun() { trace.push_back(s); } };
struct FAnn : Annotator { std::string s; FAnn(const std::string& s) : s(s) {} LatticeWorker* doCreateLatticeWorker(Lattice& l) { return new LogWorker(l, s); } std::string doInfo() { return ""; } };
struct RW : ReaderWorker<std::istream> { std::string s; RW(std::istream& i, Lattice& l, const std::string& s) : ReaderWorker<std::istream>(i, l), s(s) {} void doRun() { std::string t((std::istreambuf_iterator<char>(inputStream_)), std::istreambuf_iterator<char>()); trace.push_back(s + "<" + t + ">"); } };
struct FRead : LatticeReader<std::istream> { std::string s; FRead(const std::string& s) : s(s) {} std::string getFormatName() { return ""; } ReaderWorker<std::istream>* doCreateReaderWorker(std::istream& i, Lattice& l) { return new RW(i, l, s); } std::string doInfo() { return ""; } };
struct WW : WriterWorker<std::ostream> { std::string s; WW(std::ostream& o, Lattice& l, const std::string& s) : WriterWorker<std::ostream>(o, l), s(s) {} void doRun() { trace.push_back(s); for (auto& t : trace) getOutputStream() << t << "\n"; } };
struct FWrite : LatticeWriter<std::ostream> { std::string s; FWrite(const std::string& s) : s(s) {} std::string getFormatName() { return ""; } WriterWorker<std::ostream>* doCreateWriterWorker(std::ostream& o, Lattice& l) { return new WW(o, l, s); } std::string doInfo() { return ""; } };
static std::list<std::string> L(const VS& v) { return std::list<std::string>(v.begin(), v.end()); }
static bool fails(const Fac& f, Opts o) { return f.fails || (!f.failLang.empty() && o["lang"] == f.failLang); }
template <class T> T* mk(const Fac& f, const po::variables_map& m) { ++created; if (fails(f, optsOf(m))) throw PsiException("cannot create " + f.name); return new T(shw(f.name, optsOf(m))); }
struct AF : AnnotatorFactory {
    Fac f; AF(const Fac& f) : f(f) {}
    Annotator* doCreateAnnotator(const po::variables_map& m) { return mk<FAnn>(f, m); }
    std::list<std::list<std::string> > rq() { std::list<std::list<std::string> > r; for (auto& v : f.req) r.push_back(L(v)); return r; }
    std::list<std::list<std::string> > doRequiredLayerTags() { return rq(); }
    std::list<std::list<std::string> > doRequiredLayerTags(const po::variables_map& m) { auto r = rq(); if (m.count("need")) r.push_back(std::list<std::string>(1, m["need"].as<std::string>())); return r; }
    std::list<std::list<std::string> > doOptionalLayerTags() { return std::list<std::list<std::string> >(); }
    std::list<std::string> doProvidedLayerTags() { return L(f.prov); }
    std::string doGetContinuation(const po::variables_map&) const { return f.cont; }
    LanguagesHandling doLanguagesHandling(const po::variables_map& m) const { return f.handling == INDEP ? LANGUAGE_INDEPENDENT : f.handling == ONE ? JUST_ONE_LANGUAGE : f.handling == GUESS ? LANGUAGE_GUESSER : m["lang"].as<std::string>() == "guess" ? LANGUAGE_DEPENDENT : JUST_ONE_LANGUAGE; }
    std::list<std::string> doLanguagesHandled(const po::variables_map& m) const { if (f.handling == DEP && m["lang"].as<std::string>() != "guess") return std::list<std::string>(1, m["lang"].as<std::string>()); return L(f.langs); }
    po::options_description doOptionsHandled() { return descOf(f); }
    double doGetQualityScore(const po::variables_map&) const { return f.q; }
    double doGetEstimatedTime(const po::variables_map&) const { return f.t; }
    boost::filesystem::path doGetFile() const { return __FILE__; }
    std::string doGetName() const { return f.name; }
    std::list<std::string> doGetAliases() { return L(f.aliases); }
    bool doCheckRequirements(const po::variables_map&, std::ostream&) const { return !f.unmet; }
};
template <class B, class T> struct NF : B {
    Fac f; NF(const Fac& f) : f(f) {}
    T* doMake(const po::variables_map& m) { return mk<T>(f, m); }
    std::string doGetContinuation(const po::variables_map&) const { return f.cont; }
    po::options_description doOptionsHandled() { return descOf(f); }
    double doGetQualityScore(const po::variables_map&) const { return f.q; }
    double doGetEstimatedTime(const po::variables_map&) const { return f.t; }
    boost::filesystem::path doGetFile() const { return __FILE__; }
    std::string doGetName() const { return f.name; }
    std::list<std::string> doGetAliases() { return L(f.aliases); }
};
struct RF : NF<LatticeReaderFactory<std::istream>, FRead> { RF(const Fac& f) : NF(f) {} LatticeReader<std::istream>* doCreateLatticeReader(const po::variables_map& m) { return doMake(m); } };
struct WF : NF<LatticeWriterFactory<std::ostream>, FWrite> { WF(const Fac& f) : NF(f) {} LatticeWriter<std::ostream>* doCreateLatticeWriter(const po::variables_map& m) { return doMake(m); } };
// ---- the keeper of all processors, holding the made-up ones
MainFactoriesKeeper::MainFactoriesKeeper() {}
MainFactoriesKeeper& MainFactoriesKeeper::getInstance() { static MainFactoriesKeeper k; return k; }
bool MainFactoriesKeeper::hasProcessorFactory(std::string n) { return keeper_.hasProcessorFactory(n); }
ProcessorFactory& MainFactoriesKeeper::getProcessorFactory(std::string n) { return keeper_.getProcessorFactory(n); }
std::vector<std::string> MainFactoriesKeeper::getProcessorNames() { return keeper_.getProcessorNames(); }
std::set<std::string> MainFactoriesKeeper::getAliasNames() { return keeper_.getAliasNames(); }
std::set<std::string> MainFactoriesKeeper::getAllAliases(std::string d) { return keeper_.getAllAliases(d); }
std::list<ProcessorFactory*> MainFactoriesKeeper::getProcessorFactoriesForName(std::string n) { return keeper_.getProcessorFactoriesForName(n); }
#include "console_help_formatter.hpp"
std::string get_psi_toolkit_version_string() { return "version"; }
// ---- the rules, read independently
static std::map<std::string, std::set<std::string> > AL;   // alias -> what it stands for
static Fac* fac(const std::string& n) { for (auto& f : W) if (f.name == n) return &f; return 0; }
struct Err {}; struct Give {};
struct Pr { Fac* f; Opts o; };
static int hand(const Pr& p) { return p.f->kind != 'A' ? INDEP : p.f->handling != DEP ? p.f->handling : p.o.count("lang") && p.o.at("lang") != "guess" ? ONE : DEP; }
static VS langsOf(const Pr& p) { if (p.f->kind != 'A') return VS(); if (p.f->handling == DEP && hand(p) == ONE) return VS(1, p.o.at("lang")); return p.f->langs; }
static std::vector<VS> reqOf(const Pr& p) { auto r = p.f->req; if (p.f->kind != 'A') return std::vector<VS>(); if (p.o.count("need")) r.push_back(VS(1, p.o.at("need"))); return r; }
static bool sub(const VS& a, const VS& b) { for (auto& s : a) if (std::find(b.begin(), b.end(), s) == b.end()) return false; return true; }
static bool parse(const Fac& f, const VS& a, Opts& o) {
    o.clear(); if (f.kind == 'A' && f.handling == DEP) o["lang"] = "guess";
    std::set<std::string> seen;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].substr(0, 2) != "--") continue; std::string n = a[i].substr(2);
        bool flag = (n == "line-by-line" && f.name == "txt-reader") || (n == "force" && f.handling == GUESS) || (n == "strict" && f.strict);
        bool val = (n == "only-langs" && f.handling == GUESS) || (n == "x" && f.x) || (n == "need" && f.need) || (n == "lang" && f.handling == DEP);
        if (!flag && !val) return false;
        if (!seen.insert(n).second) throw Give();   // repeated options are left to the option parser
        if (flag) o[n] = "1"; else { if (i + 1 >= a.size()) return false; o[n] = a[++i]; }
    }
    return true;
}
static void dests(const std::string& n, std::set<std::string>& r, int d) { if (!AL.count(n)) { r.insert(n); return; } if (!d) throw Give(); for (auto& x : AL[n]) dests(x, r, d - 1); }
static std::vector<Pr> element(const std::string& name, const VS& args) {
    std::vector<Fac*> fs; std::vector<Pr> r;
    if (fac(name)) fs.push_back(fac(name));
    else if (AL.count(name)) { std::set<std::string> d; dests(name, d, 5); for (auto& x : d) { if (!fac(x)) throw Err(); fs.push_back(fac(x)); } }
    else throw Err();
    for (Fac* f : fs) {
        Pr p; p.f = f;
        if (parse(*f, args, p.o)) { r.push_back(p); continue; }
        // `--lang xx` may be given to a processor of that only language
        if (f->kind == 'A' && f->handling == ONE) {
            auto i = std::find(args.begin(), args.end(), "--lang");
            if (i != args.end() && i + 1 != args.end() && *(i + 1) == f->langs[0]) { VS b(args.begin(), i); b.insert(b.end(), i + 2, args.end()); if (parse(*f, b, p.o)) { r.push_back(p); continue; } }
        }
        if (fs.size() == 1) throw Err();
    }
    if (r.empty()) throw Err();
    return r;
}
typedef std::vector<std::vector<Pr> > Seq;
static Seq elements(const VS& a) {
    Seq r; if (a.empty()) throw Err();
    std::vector<VS> e(1); for (auto& s : a) if (s == "!") e.push_back(VS()); else e.back().push_back(s);
    if (a[0] == "!") e.erase(e.begin());   // nothing stands before a leading separator
    for (auto& v : e) r.push_back(element(v.empty() ? "" : v[0], v.empty() ? VS() : VS(v.begin() + 1, v.end())));
    return r;
}
static VS words(const std::string& s) { VS r; std::istringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }
static std::vector<std::vector<Pr> > sols; static int nodes; static VS LC;
static bool multi(const std::vector<Pr>& alt) { std::string one; for (auto& p : alt) if (hand(p) == DEP) return true; else if (hand(p) == ONE) { if (one.empty()) one = langsOf(p)[0]; else if (one != langsOf(p)[0]) return true; } return false; }
static std::vector<Pr> forLang(const std::vector<Pr>& alt, const std::string& l) {
    std::vector<Pr> r;
    for (Pr p : alt) { int h = hand(p); if (h == INDEP || h == GUESS) { r.push_back(p); continue; } VS ls = langsOf(p); if (std::find(ls.begin(), ls.end(), l) == ls.end()) continue; if (h == DEP) p.o["lang"] = l; r.push_back(p); }
    return r;
}
static std::vector<Pr> providers(const VS& need, const std::string* lang) {
    std::vector<Pr> r; std::vector<Fac*> fs; for (auto& f : W) fs.push_back(&f); std::sort(fs.begin(), fs.end(), [](Fac* a, Fac* b) { return a->name < b->name; });
    for (Fac* f : fs) {
        if (f->kind != 'A' || !sub(need, f->prov)) continue;
        bool circular = false; for (auto& q : f->req) if (sub(need, q)) circular = true;
        if (circular) continue;
        Pr p; p.f = f; if (f->handling == DEP) p.o["lang"] = "guess";
        if (f->handling == ONE && lang && f->langs[0] != *lang) continue;
        if (f->handling == DEP) { if (!lang || std::find(f->langs.begin(), f->langs.end(), *lang) == f->langs.end()) continue; p.o["lang"] = *lang; }
        r.push_back(p);
    }
    return r;
}
static void solve(Seq s, size_t i) {
    for (; i < s.size(); ) {
        if (++nodes > 400 || s.size() > 24) throw Give();
        if (multi(s[i])) { Seq e; for (auto& l : LC) { e.push_back(forLang(s[i], l)); if (e.back().empty()) return; } s.erase(s.begin() + i); s.insert(s.begin() + i, e.begin(), e.end()); }
        else if (s[i].size() > 1) { for (auto& p : s[i]) { Seq t = s; t[i] = std::vector<Pr>(1, p); solve(t, i); } return; }
        else {
            Pr p = s[i][0]; bool ok = true;
            for (auto& need : reqOf(p)) {
                bool have = false; for (size_t k = 0; k < i; ++k) if (hand(p) == ONE && hand(s[k][0]) == ONE && langsOf(s[k][0])[0] != langsOf(p)[0]) continue; else if (s[k][0].f->kind == 'A' ? sub(need, s[k][0].f->prov) : need.empty()) have = true;
                if (have) continue;
                std::string l; if (hand(p) == ONE) l = langsOf(p)[0];
                auto pv = providers(need, hand(p) == ONE ? &l : 0); if (pv.empty()) return;
                s.insert(s.begin() + i, pv); ok = false; break;
            }
            if (ok) ++i;
        }
    }
    std::vector<Pr> r; for (auto& a : s) r.push_back(a[0]); sols.push_back(r);
}
// what must happen: the processors run, in order, or an error
static bool expected(const VS& args, VS& run) {
    try {
        Seq s = elements(args);
        bool rd = false; for (auto& p : s.front()) if (p.f->kind == 'R') rd = true;
        if (!rd) { Seq h = elements(words("txt-reader --line-by-line")); s.insert(s.begin(), h.begin(), h.end()); }
        std::string cont; for (auto& p : s.back()) cont = p.f->cont;
        if (!cont.empty()) { Seq h = elements(words(cont)); s.insert(s.end(), h.begin(), h.end()); }
        std::set<std::string> all, ones; bool guesser = false;
        for (auto& a : s) for (auto& p : a) { for (auto& l : langsOf(p)) all.insert(l); if (hand(p) == ONE) ones.insert(langsOf(p)[0]); if (hand(p) == GUESS) guesser = true; }
        if (!ones.empty()) all = ones;
        LC.assign(all.begin(), all.end());
        if (!guesser && !LC.empty()) { Seq h = elements(words(LC.size() == 1 ? "lang-guesser --force --only-langs " + LC[0] : "lang-guesser")); s.insert(s.begin() + 1, h.begin(), h.end()); }
        sols.clear(); nodes = 0; solve(s, 0);
        std::vector<bool> dead(sols.size(), false);
        for (;;) {
            int best = -1; int bq = 0, bt = 0;
            for (size_t k = 0; k < sols.size(); ++k) if (!dead[k]) { int q = 0, t = 0; for (auto& p : sols[k]) { q += p.f->q; t += p.f->t; } if (best < 0 || q > bq || (q == bq && t < bt)) { best = k; bq = q; bt = t; } }
            if (best < 0) return false;
            bool ok = true; for (auto& p : sols[best]) if (fails(*p.f, p.o)) ok = false;
            if (!ok) { dead[best] = true; continue; }
            run.clear(); auto& q = sols[best];
            for (size_t k = 0; k < q.size(); ++k) {
                if (q[k].f->unmet && q[k].f->kind == 'A') continue;
                char want = k == 0 ? 'R' : k + 1 == q.size() ? 'W' : 'A'; if (q[k].f->kind != want) return false;
                Opts o; for (auto& z : q[k].o) if (!z.second.empty()) o.insert(z); run.push_back(shw(q[k].f->name, o));
            }
            return true;
        }
    } catch (Err&) { return false; }
}
// ---- random worlds
static const char* TAGS[] = {"ta", "tb", "tc", "td"}; static const char* LANGS[] = {"de", "en", "pl"};
static VS someLangs(unsigned m) { VS r; m = m % 7 + 1; for (int k = 0; k < 3; ++k) if (m >> k & 1) r.push_back(LANGS[k]); return r; }
static void world(Choices& c) {
    W.clear(); AL.clear();
    auto add = [&](Fac f) { f.id = W.size(); W.push_back(f); };
    Fac r; r.name = "txt-reader"; r.kind = 'R'; r.cont = "psi-writer"; add(r); r.name = "r1"; r.x = true; r.aliases = VS(1, "rd"); add(r);
    Fac w; w.kind = 'W'; w.name = "psi-writer"; add(w); w.name = "w1"; w.x = true; w.q = c.below(3); add(w);
    Fac g; g.name = "lang-guesser"; g.handling = GUESS; g.cont = "w1"; if (c.below(3) == 0) g.langs = someLangs(c.byte()); add(g);
    unsigned n = 2 + c.below(5);
    for (unsigned k = 0; k < n; ++k) {
        Fac f; f.name = std::string(1, "qbpadz"[k]) + char('0' + k); unsigned t = k < 3 && c.below(4) ? k : c.below(4), h = c.below(10);
        f.handling = h < 6 ? INDEP : h < 7 ? ONE : DEP; if (f.handling == ONE) f.langs = VS(1, LANGS[c.below(3)]); if (f.handling == DEP) f.langs = someLangs(c.byte());
        if (c.below(12)) f.prov.push_back(TAGS[t]);
        for (unsigned j = c.below(3); t && j; --j) { VS q; for (unsigned i = 0; i < t; ++i) if (c.below(2)) q.push_back(TAGS[i]); if (q.empty() && c.below(16)) q.push_back(TAGS[t - 1]); f.req.push_back(q); }
        if (c.below(4) == 0) for (auto& q : f.req) for (auto& s : q) if (c.below(2)) f.prov.insert(c.below(2) ? f.prov.end() : f.prov.begin(), s);
        if (c.below(5) == 0 && !f.prov.empty()) f.prov.push_back("extra");
        f.q = (int)c.below(5) - 1; f.t = c.below(4); f.x = c.below(2); f.strict = c.below(3) == 0; f.need = c.below(3) == 0; f.fails = c.below(12) == 11; if (c.below(8) == 7) f.failLang = LANGS[c.below(3)];
        f.unmet = c.below(32) == 31;
        unsigned ct = c.below(16) ? c.below(4) : 4 + c.below(2); f.cont = ct < 4 ? "psi-writer" : ct == 4 ? "w1 --x end" : ""; if (ct == 3 && k) f.cont = W.back().name + " ! w1";
        if (c.below(4)) f.aliases.push_back("al"); if (c.below(2)) f.aliases.push_back("am");
        add(f);
    }
    FactoriesKeeper k; MainFactoriesKeeper::getInstance().keeper_ = k; FactoriesKeeper& K = MainFactoriesKeeper::getInstance().keeper_;
    auto tagAlias = [&](const char* t, const char* a) { K.addTagBasedAlias(t, a); AL[a].insert(std::string(t) + "-generator"); AL[std::string(t) + "-generator"]; };
    tagAlias("ta", "do-a"); tagAlias("tb", "do-b"); tagAlias("tc", "do-c"); if (c.below(2)) { K.addTagBasedIzeAliases("tc", "canon"); for (auto s : {"canonise", "canonize", "canoniser", "canonizer"}) AL[s].insert("tc-generator"); }
    K.addAlias("deep", "do-b"); AL["deep"].insert("do-b"); if (c.below(2)) { K.addAlias("deep", "al"); AL["deep"].insert("al"); }
    K.addVoidAlias("void"); AL["void"]; K.addVoidAlias("deep");
    std::vector<size_t> ord; for (size_t i = 0; i < W.size(); ++i) ord.push_back(i); for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[c.below(i)]);
    for (size_t i : ord) { auto& f = W[i]; K.takeProcessorFactory(f.kind == 'A' ? (ProcessorFactory*)new AF(f) : f.kind == 'R' ? (ProcessorFactory*)new RF(f) : (ProcessorFactory*)new WF(f)); }
    for (auto& f : W) {
        for (auto& a : f.aliases) AL[a].insert(f.name);
        if (f.kind == 'A') for (auto& t : f.prov) { bool needs = false; for (auto& q : f.req) for (auto& s : q) if (s == t) needs = true; if (!needs && AL.count(t + "-generator")) AL[t + "-generator"].insert(f.name); }
    }
}
static std::string pname(Choices& c) {
    static const char* fix[] = {"al", "am", "do-a", "do-b", "do-c", "deep", "canonize", "ta-generator", "w1", "psi-writer", "r1", "rd", "lang-guesser", "void", "nosuch", "txt-reader"};
    unsigned k = c.below(32); if (k < 16 && W.size() > 5) return W[5 + k % (W.size() - 5)].name; if (k < 30) return fix[(k - 16) % 8]; return fix[8 + c.below(8)];
}
static std::string desc() { std::string r; for (auto& f : W) if (f.kind == 'A') { r += f.name + "("; r += "IODG"[f.handling]; for (auto& l : f.langs) r += l; r += " needs"; for (auto& q : f.req) { r += "["; for (auto& s : q) r += s; r += "]"; } r += " gives"; for (auto& s : f.prov) r += " " + s; r += " q" + std::to_string(f.q) + " t" + std::to_string(f.t) + ") "; } return r; }
static std::string joinv(const VS& v, const char* s = " ") { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? s : "") + v[i]; return r; }
static std::string pipelines(const std::string& in) {
    Rng rg(std::hash<std::string>()(in)); std::string bytes; for (int k = 0; k < 60; ++k) { uint64_t x = rg.next(); bytes.append((char*)&x, 8); }
    Choices c(bytes); world(c);
    VS a, run; static const char* V[] = {"v", "a b", "x,y", "q!", "", "it's", "1"}; bool ok = false;
    for (int tries = c.below(6) ? 6 : 1; tries && !ok; --tries) {   // mostly pipelines that can be run
    a.clear(); unsigned n = 1 + c.below(3);
    if (c.below(3) == 0) { a.push_back(c.below(2) ? "r1" : "rd"); a.push_back("!"); }
    for (unsigned k = 0; k < n; ++k) {
        if (k) a.push_back("!"); a.push_back(pname(c));
        Fac* only = fac(a.back()); bool wild = c.below(10) == 0; auto has = [&](int o) { return wild || !only || (o == 0 ? only->x : o == 1 ? only->strict : o == 2 ? only->handling == DEP || (only->handling == ONE && c.below(2)) : only->need); };
        for (unsigned j = c.below(4) % 3; j; --j) {
            unsigned o = c.below(12);
            if (o < 4 && has(0)) { a.push_back("--x"); a.push_back(V[c.below(7)]); } else if (o == 4 && has(1)) a.push_back("--strict"); else if (o < 7 && has(2)) { a.push_back("--lang"); a.push_back(only && only->handling != INDEP && !wild ? only->langs[c.below(only->langs.size())] : LANGS[c.below(3)]); } else if (o == 7 && has(3)) { a.push_back("--need"); a.push_back(TAGS[c.below(4)]); } else if (wild && o == 8) a.push_back("--bogus"); else if (wild && o == 9) a.push_back("--lang");
        }
    }
    if (c.below(3)) { a.push_back("!"); a.push_back("w1"); }
    try { ok = expected(a, run); } catch (Give&) { return ""; }
    }
    std::string what = "pipeline `" + joinv(a) + "` over " + desc(), out; trace.clear(); created = 0;
    std::string err; bool thrown = false, built = false;
    try {
        PipeRunner p(a); built = true;
        out = p.run(std::string("the text"));
        if (c.below(4) == 0) { trace.clear(); std::string again = p.run(std::string("the text")); VP_REQUIRE(again == out, what << ": a second text is processed as " << show(again) << ", the first as " << show(out)); }
    } catch (std::exception& e) { thrown = true; err = e.what(); }
    if (!ok) { VP_REQUIRE(thrown, what << ": must be refused, ran " << joinv(trace)); return ""; }
    VP_REQUIRE(!thrown, what << ": must run " << joinv(run) << ", refused: " << err);
    if (!run.empty() && fac(W[0].name)) { std::string h = run[0]; run[0] = h + "<the text>"; }
    VP_REQUIRE(trace == run, what << ": must run " << joinv(run) << ", ran " << joinv(trace));
    bool wr = fac(run.back().substr(0, run.back().find('{'))) && fac(run.back().substr(0, run.back().find('{')))->kind == 'W';
    if (wr) VP_REQUIRE(out == joinv(run, "\n") + "\n", what << ": output " << show(out));
    return "";
}
// completion alone: every processor finds what it needs before it
static std::string closest(const std::string& in) {
    Choices c(in); static const char* al = "abAB-";
    auto wd = [&](unsigned m) { std::string r; for (unsigned k = c.below(m); k; --k) r += al[c.below(5)]; return r; };
    std::string x = wd(8); VS cand; for (unsigned k = c.below(6); k; --k) cand.push_back(wd(8));
    auto dist = [](const std::string& a, const std::string& b) { std::vector<std::vector<int> > d(a.size() + 1, std::vector<int>(b.size() + 1)); for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) { if (!i || !j) { d[i][j] = i + j; continue; } d[i][j] = std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])); } return d[a.size()][b.size()]; };
    std::string best; int bd = 99; for (auto& s : cand) { int e = dist(s, x), g = levenshteinDistance(s, x); VP_REQUIRE(e == g, "edit distance of " << show(s) << " and " << show(x) << " is " << e << ", got " << g); if (e < bd) { bd = e; best = s; } }
    VP_REQUIRE(findTheMostSimilarString(x, cand) == best, "the closest name to " << show(x) << " is " << show(best) << ", got " << show(findTheMostSimilarString(x, cand)));
    return "";
}
// arguments reach the processors as given
static std::string arguments(const std::string& in) {
    W.clear(); AL.clear(); Fac r; r.name = "txt-reader"; r.kind = 'R'; r.cont = "w1"; W.push_back(r); r.name = "r1"; r.x = true; W.push_back(r); Fac w; w.kind = 'W'; w.name = "w1"; w.x = true; W.push_back(w); Fac an; an.name = "an"; an.x = true; an.cont = "w1"; W.push_back(an);
    MainFactoriesKeeper::getInstance().keeper_ = FactoriesKeeper(); FactoriesKeeper& K = MainFactoriesKeeper::getInstance().keeper_;
    K.takeProcessorFactory(new RF(W[0])); K.takeProcessorFactory(new RF(W[1])); K.takeProcessorFactory(new WF(W[2])); K.takeProcessorFactory(new AF(W[3]));
    Choices c(in); bool prog = c.below(2);
    auto val = [&]() { std::string s; static const char* f[] = {"a", " ", "\"", "!", "\\", "n", "'", ",", "-", "\n", "\xc4\x85", "=", "%", "w1", "t", " write-tokens ", "\\n"}; for (unsigned k = c.below(6); k; --k) s += f[c.below(17)]; return s; };
    std::string v1 = val(), v2 = val(), v3 = val();
    for (auto s : {&v1, &v2, &v3}) { if (!s->empty() && (*s)[0] == '-') s->insert(0, "a"); if (*s == "!") *s = "! "; }
    VS a; if (prog) a.push_back("psi-pipe"); for (auto s : {"r1", "--x"}) a.push_back(s); a.push_back(v1); for (auto s : {"!", "an", "--x"}) a.push_back(s); a.push_back(v2); for (auto s : {"!", "w1", "--x"}) a.push_back(s); a.push_back(v3);
    trace.clear(); std::string what = "arguments " + show(v1) + ", " + show(v2) + ", " + show(v3);
    try {
        if (prog) { std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); PipeRunner p(av.size(), av.data()); p.run(std::string("t")); } else { PipeRunner p(a); p.run(std::string("t")); }
    } catch (std::exception& e) { VP_REQUIRE(false, what << ": refused: " << e.what()); }
    // backslashes are doubled on the way, except before n: an existing test expects it
    auto dbl = [](const std::string& s) { std::string r; for (size_t i = 0; i < s.size();) { size_t k = 0; while (i + k < s.size() && s[i + k] == '\\') ++k; if (!k) { r += s[i++]; continue; } bool n = i + k < s.size() && s[i + k] == 'n'; r.append(!n ? 2 * k : k == 1 ? 1 : 2 * k - 2, '\\'); i += k; } return r; };
    auto want = [&](const std::string& a, const std::string& b, const std::string& c) { Opts o1, o2, o3; if (a.size()) o1["x"] = a; if (b.size()) o2["x"] = b; if (c.size()) o3["x"] = c; return VS{shw("r1", o1) + "<t>", shw("an", o2), shw("w1", o3)}; };
    if (trace == want(v1, v2, v3)) return "";
    VP_REQUIRE(trace != want(dbl(v1), dbl(v2), dbl(v3)), "KF:backslashes " << what << ": ran " << show(joinv(trace)));
    VP_REQUIRE(false, what << ": ran " << show(joinv(trace)));
    return "";
}
// names and what they stand for, loops included
static std::string aliases(const std::string& in) {
    Choices c(in); Aliaser a; std::map<std::string, std::set<std::string> > m; auto nm = [&]() { return std::string(1, "abcdefgh"[c.below(8)]); };
    for (unsigned k = c.below(10); k; --k) { std::string x = nm(), y = nm(); if (c.below(8) == 0) { a.addVoidAlias(x); m[x]; } else { a.addAlias(x, y); m[x].insert(y); } }
    std::set<std::string> names; for (auto& p : m) names.insert(p.first);
    VP_REQUIRE(a.getAliasNames() == names, "the alias names differ");
    for (char ch = 'a'; ch < 'i'; ++ch) {
        std::string n(1, ch); VP_REQUIRE(a.isAlias(n) == (names.count(n) > 0), n << ": is it an alias?");
        std::set<std::string> lvl, out; lvl.insert(n);
        for (int d = 0; d <= 5; ++d) { std::set<std::string> nx; for (auto& s : lvl) if (!m.count(s)) out.insert(s); else nx.insert(m[s].begin(), m[s].end()); lvl = nx; }
        VP_REQUIRE(a.getAllDestinations(n) == out, n << " stands for " << joinv(VS(out.begin(), out.end())));
        std::set<std::string> al; lvl.clear(); lvl.insert(n);
        for (int d = 0; d <= 5; ++d) { std::set<std::string> nx; for (auto& s : lvl) { if (m.count(s)) al.insert(s); for (auto& p : m) if (p.second.count(s)) nx.insert(p.first); } lvl = nx; }
        auto got = a.getAllAliases(n);
        VP_REQUIRE(got == al, n << " is also called " << joinv(VS(al.begin(), al.end())) << ", got " << joinv(VS(got.begin(), got.end())));
    }
    return "";
}
// the ready-made names stand for the documented processors and arguments
static std::string standard(const std::string& in) {
    Choices c(in); static std::map<std::string, VS> T;
    if (T.empty()) {
        for (std::string f : {"docx", "xlsx", "pptx", "html"}) T[f + "-reader"] = T["read-" + f] = VS{"apertium-reader", "--format", f};
        for (std::string g : {"write-", "get-"}) { for (std::string t : {"token", "segment"}) T[g + t + "s"] = VS{"simple-writer", "--tags", t}; T[g + "selected"] = VS{"simple-writer", "--tags", "selected", "--sep", " ", "--no-alts"}; }
        for (auto s : {"xml-writer", "write-xml", "get-xml"}) T[s] = VS{"bracketing-writer", "--skip-symbol-edges", "--opening-bracket", "\n<edge tags=\"%T\" category=\"%c\" attrs=\"%A\">", "--closing-bracket", "</edge>\n", "--av-separator", ":", "--av-pairs-separator", ";"};
        T["write-forms"] = VS{"bracketing-writer", "--tags", "form", "--show-only-tags", "0", "--opening-bracket", "\n", "--closing-bracket", " %T%*{ }{(%c %*[|][%A])}"};
        for (std::string g : {"write-", "get-", "draw-"}) { T[g + "tree"] = VS{"gv-writer", "--tree"}; T[g + "parse-tree"] = VS{"gv-writer", "--tree", "--tags", "parse"}; }
        for (std::string t : {"en", "es"}) T["translate-pl" + t] = VS{"gobio", "--lang", "pl", "!", "bilexicon", "--lang", "pl", "--trg-lang", t, "!", "transferer", "--lang", "pl", "--trg-lang", t};
    }
    auto it = T.begin(); std::advance(it, c.below(T.size()));
    VS a, want; auto pre = [&](VS v) { a.insert(a.end(), v.begin(), v.end()); want.insert(want.end(), v.begin(), v.end()); };
    if (c.below(2)) pre(VS{"txt-reader", "!"}); if (c.below(2)) pre(VS{"tp-tokenizer", "--lang", "pl", "!"});
    a.push_back(it->first); want.insert(want.end(), it->second.begin(), it->second.end());
    if (c.below(2)) pre(VS{"--rest", c.below(2) ? "a b" : ""});
    VS got = ShallowAliaser().replace(a);
    VP_REQUIRE(got == want, show(joinv(a)) << " stands for " << show(joinv(want, "|")) << ", got " << show(joinv(got, "|")));
    return "";
}
void vp_register() {
    psi_logger.setLoggingPriority("FATAL");
    tests().push_back(Test("pipelines", pipelines, {}, 0, 160, {}, 3));
    tests().push_back(Test("closest", closest, {std::string("\0\1\2\3", 4)}, 4, 40, {}, 1));
    tests().push_back(Test("aliases", aliases, {}, 0, 30, {}, 0.5));
    tests().push_back(Test("standard", standard, {[] { std::string s; for (int k = 0; k < 40; ++k) s += (char)k; return s; }(), std::string("\0\1", 2)}, 2, 5, {}, 0.2));
    tests().push_back(Test("arguments", arguments, {}, 0, 24, {}, 1));
}
