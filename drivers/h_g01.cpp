// G01: globs select exactly the files they describe (segment glob, directory globs, parametrised file specifications)
#define VP_MAIN
#include "vp.hpp"
#include "segment_glob.hpp"
#include "ant_like_path_glob.hpp"
#include "file_fetcher.hpp"
#include <boost/filesystem.hpp>
#include "logging.hpp"
#include <dirent.h>
#include <sys/stat.h>
using namespace vp;
static std::vector<std::string> chars(const std::string& s) {
    std::vector<std::string> r;
    for (unsigned char c : s) { if ((c & 0xC0) == 0x80 && !r.empty()) r.back() += (char)c; else r.push_back(std::string(1, (char)c)); }
    return r;
}
static bool full(const std::vector<std::string>& g, const std::vector<std::string>& s) {
    size_t G = g.size(), S = s.size();
    std::vector<std::vector<char>> m(G + 1, std::vector<char>(S + 1, 0));
    for (size_t i = G + 1; i-- > 0; ) for (size_t j = S + 1; j-- > 0; )
        m[i][j] = i == G ? j == S : g[i] == "*" ? (m[i + 1][j] || (j < S && m[i][j + 1])) : j < S && (g[i] == "?" || g[i] == s[j]) && m[i + 1][j + 1];
    return m[0][0];
}
static bool want(const std::string& g, const std::string& s) { return full(chars(g), chars(s)); }
static const char* LET[] = {"a", "b", "*", "?", "\xC4\x85", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "c", ".", " ", "[", "]", "\\", "x", "~", "\xC2\xA0"};
static std::string seg(const std::string& in) {
    Choices c(in); std::string g, s; bool second = false;
    while (c.more()) { unsigned b = c.byte(); if (b % 32 == 31) { second = true; continue; } (second ? s : g) += LET[b % 16]; }
    SegmentGlob G(g);
    VP_REQUIRE(G.asString() == g, "asString");
    VP_REQUIRE(G.isFixed() == (g.find('*') == g.npos && g.find('?') == g.npos), "isFixed of " << show(g));
    VP_REQUIRE(G.matches(s) == want(g, s), "pattern " << show(g) << " and name " << show(s) << ": matches says " << G.matches(s) << ", expected " << want(g, s));
    VP_REQUIRE(G.matches(s) == want(g, s), "pattern " << show(g) << " and name " << show(s) << ": the second call answers differently");
    return "";
}
// exhaustive: pattern over {a b * ?}, name over {a b 2-byte}, split at byte 7
static std::string segx(const std::string& in) {
    static const char* P[] = {"a", "b", "*", "?"}; static const char* N[] = {"a", "b", "\xC4\x85", "\xE4\xB8\xAD"};
    std::string g; for (unsigned char ch : in) g += P[ch & 3];
    SegmentGlob G(g); std::vector<std::string> gc = chars(g);
    for (int n = 0; n <= 5; ++n) { int tot = 1; for (int k = 0; k < n; ++k) tot *= n <= 4 ? 4 : 3; int base = n <= 4 ? 4 : 3;
        for (int v = 0; v < tot; ++v) { std::string s; for (int k = 0, x = v; k < n; ++k, x /= base) s += N[x % base];
            bool w = full(gc, chars(s)); VP_REQUIRE(G.matches(s) == w, "pattern " << show(g) << " and name " << show(s) << ": expected " << w); } }
    return "";
}
// names whose bytes are not valid UTF-8: no reading outside the name, and byte-exact patterns still match
static std::string raw(const std::string& in) {
    std::string name = in; for (auto& ch : name) if (ch == 0 || ch == '*' || ch == '?') ch = 'q';
    std::string heap(name);
    VP_REQUIRE(SegmentGlob("*").matches(heap), "* does not match " << show(name));
    VP_REQUIRE(SegmentGlob(heap).matches(heap), "a name does not match itself: " << show(name));
    VP_REQUIRE(SegmentGlob(heap + "*").matches(heap) && SegmentGlob("*" + heap).matches(heap), "the name with a star does not match " << show(name));
    for (const char* p : {"?", "??", "a?", "*?", "?*", "*?a", "*a*", "?a*?"}) SegmentGlob(p).matches(heap);
    return "";
}
// ------------------------------------------------------------------ directory trees
// the scratch directory check.py makes and removes (a private one when run by hand)
static std::string top() {
    static std::string t; if (t.empty()) { const char* e = getenv("VP_SCRATCH"); std::string b = std::string(e && *e ? e : "/tmp") + "/vpg01XXXXXX"; t = mkdtemp(&b[0]); } return t;
}
static void wipe(const std::string& d) {   // only ever called on what top() made
    if (d.compare(0, top().size(), top())) return;
    DIR* D = opendir(d.c_str()); if (!D) return;
    while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); }
    closedir(D); rmdir(d.c_str());
}
struct Tree { std::vector<std::vector<std::string>> files, dirs; };
static const char* NM[] = {"a", "b", "ab", "\xC4\x85""b", "a.txt", "b.txt", "\xE4\xB8\xAD"};
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : "/") + x; return r; }
static void grow(Choices& c, Tree& t, std::vector<std::string>& at, int depth, int& left) {
    unsigned n = c.below(5);
    std::set<std::string> used;
    while (n-- && left > 0) {
        std::string nm = NM[c.below(7)]; bool dir = depth < 4 && c.below(2); if (!used.insert(nm).second) continue;
        --left; at.push_back(nm); std::string p = top() + "/w/" + join(at);
        if (dir) { mkdir(p.c_str(), 0700); t.dirs.push_back(at); grow(c, t, at, depth + 1, left); } else { FILE* f = fopen(p.c_str(), "w"); if (f) fclose(f); t.files.push_back(at); }
        at.pop_back();
    }
}
static bool pathm(const std::vector<std::string>& p, size_t i, const std::vector<std::string>& f, size_t j) {
    if (i == p.size()) return j == f.size();
    if (p[i] == "**") {
        if (i + 1 == p.size()) return j < f.size();          // at the end: every file below, at any depth
        for (size_t k = j; k <= f.size(); ++k) if (pathm(p, i + 1, f, k)) return true;
        return false;
    }
    return j < f.size() && want(p[i], f[j]) && pathm(p, i + 1, f, j + 1);
}
static const char* SEG[] = {"*", "**", "a", "?", "*b", "b", "a*", "*.txt", "ab", "??", "**", "a.txt", "\xE4\xB8\xAD", "*?b", "?.txt", "*.*"};
static std::string tree(const std::string& in) {
    Choices c(in); wipe(top() + "/w"); mkdir((top() + "/w").c_str(), 0700);
    Tree t; std::vector<std::string> at; int left = 14; 
    unsigned np = 1 + c.below(3); std::vector<std::vector<std::string>> pats; std::vector<bool> ab;
    for (unsigned k = 0; k < np; ++k) { std::vector<std::string> p; unsigned n = 1 + c.below(4); while (n--) p.push_back(SEG[c.below(16)]); pats.push_back(p); ab.push_back(c.below(4) == 0); }
    grow(c, t, at, 0, left);
    for (unsigned k = 0; k < np; ++k) {
        std::string spec = (ab[k] ? top() + "/w/" : "") + join(pats[k]);
        std::set<std::string> exp, got;
        for (auto& f : t.files) if (pathm(pats[k], 0, f, 0)) exp.insert(top() + "/w/" + join(f));
        std::set<boost::filesystem::path> res;
        AntLikePathGlob g(spec); g.allMatchingFiles(ab[k] ? "/" : top() + "/w", res);
        for (auto& p : res) got.insert(p.string());
        if (got != exp) { std::string fs; for (auto& f : t.files) fs += join(f) + " "; std::string gs; for (auto& x : got) gs += x.substr(top().size() + 3) + " "; VP_REQUIRE(false, "pattern " << show(spec) << " over the files " << show(fs) << ": selected " << show(gs) << " (expected " << exp.size() << " files)"); }
    }
    return "";
}
// ------------------------------------------------------------------ file specifications with parameters
static std::string spec(const std::string& in) {
    Choices c(in); wipe(top() + "/w"); mkdir((top() + "/w").c_str(), 0700);
    Tree t; std::vector<std::string> at; int left = 12; 
    std::map<std::string, std::string> pm; pm["ROOT"] = top() + "/w";
    static const char* PV[] = {"a", "b", "*", "**", "a/b", "a.txt", "txt", "%", "%ROOT%", "", "ab"}; 
    const char* PN[] = {"X", "Y", "lang", ""};
    for (int k = 0; k < 3; ++k) pm[PN[k]] = PV[c.below(11)]; 
    FileFetcher ff; 
    for (auto& kv : pm) { if (c.below(4) == 0) ff.addParam(kv.first, "zzz"); ff.addParam(kv.first, kv.second); }
    // several specifications, separated by a comma or whitespace
    struct One { std::string text; bool bad; std::string value; }; std::vector<One> v; unsigned n = 1 + c.below(2);
    bool bad = false;
    for (unsigned k = 0; k < n; ++k) {
        std::string txt = "%ROOT%", val = pm["ROOT"]; unsigned m = 1 + c.below(3);
        while (m--) { txt += "/"; val += "/"; unsigned q = 1 + c.below(2);
            while (q--) { unsigned w = c.below(12);
                if (w < 5) { txt += SEG[c.below(16)]; val = ""; txt = txt; }
                else if (w < 11) { const char* nmx = PN[c.below(3)]; txt += std::string("%") + nmx + "%"; }
                else if (c.below(3) == 0) { txt += c.below(2) ? "%nope%" : "%"; } } }
        // independent reading: the text between the 2k-th and (2k+1)-th percent sign is a parameter name
        std::vector<std::string> parts; std::string cur; for (char ch : txt) { if (ch == '%') { parts.push_back(cur); cur = ""; } else cur += ch; } parts.push_back(cur);
        std::string r; bool b = parts.size() % 2 == 0;
        for (size_t i = 0; i < parts.size() && !b; ++i) { if (i % 2 == 0) r += parts[i]; else if (pm.count(parts[i])) r += pm[parts[i]]; else b = true; }
        v.push_back({txt, b, r}); bad = bad || b;
    }
    grow(c, t, at, 0, left);
    std::string whole; for (auto& o : v) whole += (whole.empty() ? "" : ",") + o.text;
    bool threw = false; std::set<std::string> got; size_t cnt = 0;
    try { std::list<boost::filesystem::path> l; ff.getFiles(whole, std::back_inserter(l)); for (auto& p : l) got.insert(p.string()); cnt = l.size(); } catch (FileFetcher::Exception&) { threw = true; }
    VP_REQUIRE(threw == bad, "specification " << show(whole) << (bad ? " has an unknown parameter or a lone percent sign but is accepted" : " is rejected"));
    if (bad) return "";
    std::set<std::string> exp;
    // the value is split before the parameters are replaced or after: only use values where both agree
    for (auto& o : v) {
        std::string rel = o.value.substr(top().size() + 2); std::vector<std::string> segs; std::string cur; for (char ch : rel) { if (ch == '/') { if (!cur.empty()) segs.push_back(cur); cur = ""; } else cur += ch; } if (!cur.empty()) segs.push_back(cur); else return "";   // a trailing slash
        for (auto& f : t.files) if (pathm(segs, 0, f, 0)) exp.insert(top() + "/w/" + join(f));
    }
    VP_REQUIRE(got == exp, "specification " << show(whole) << ": selected " << got.size() << " files, expected " << exp.size());
    VP_REQUIRE(cnt == got.size(), "specification " << show(whole) << ": a file is returned twice");
    boost::filesystem::path one; bool t1 = false; try { one = ff.getOneFile(whole); } catch (FileFetcher::Exception&) { t1 = true; }
    VP_REQUIRE(t1 == (exp.size() != 1) && (t1 || one.string() == *exp.begin()), "getOneFile of " << show(whole) << " with " << exp.size() << " matching files");
    return "";
}
void vp_register() {
    psi_logger.setLoggingPriority("FATAL");
    std::string ab4("\x00\x01\x02\x03", 4), all; for (int i = 0; i < 32; ++i) all += (char)i;
    tests().push_back(Test("names", segx, {ab4}, 6, 0, {}, 1.5));
    tests().push_back(Test("segment", seg, {std::string("\x00\x01\x02\x03\x04\x05\x1f", 7)}, 6, 40, {std::string("\x02\x03\x03", 3), std::string("\x1f", 1), std::string("\x05\x00\x01", 3)}, 1.5));
    std::string bytes; for (int i = 0; i < 256; ++i) bytes += (char)i;
    tests().push_back(Test("raw", raw, {bytes}, 2, 12, {}, 0.5));
    tests().push_back(Test("tree", tree, {}, 0, 60, {}, 3));
    tests().push_back(Test("spec", spec, {}, 0, 60, {}, 2));
}
