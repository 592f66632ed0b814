#define VP_MAIN
#include "vp.hpp"
#include "monotonic_vector.hpp"
#include "string_vector.hpp"
#include "key_value_store.hpp"
#include "lexicon_base.hpp"
#include "config.hpp"
using namespace vp;
struct Tmp { std::FILE* f; Tmp() : f(std::tmpfile()) {} ~Tmp() { if (f) std::fclose(f); } };
// ---- sequences of growing numbers
template <typename P, typename L, P S> static std::string mono_(Choices& c) {
    MonotonicVector<P, L, S> m; std::vector<P> w; const uint64_t lim = (uint64_t)std::numeric_limits<P>::max(), mx = (uint64_t)std::numeric_limits<L>::max(); uint64_t cur = c.byte() % 7 == 0 ? c.u64() % (lim / 2) : c.byte();
    unsigned n = c.byte() % 4 == 0 ? 8 * S + c.byte() : c.byte() % (3 * S); unsigned flavour = c.byte();
    for (unsigned i = 0; i < n; ++i) {
        if (i) { uint64_t d; switch ((flavour & 8 ? flavour : c.byte()) % 8) { case 0: d = 0; break; case 1: d = mx; break; case 2: d = mx + 1; break; case 3: d = mx - 1; break; case 4: d = mx + c.byte(); break; case 5: d = (uint64_t)c.byte() << (c.byte() % 26); break; default: d = c.byte(); }
            if (cur + d > lim || cur + d < cur) break; cur += d; }
        m.push_back((P)cur); w.push_back((P)cur);
        VP_REQUIRE((size_t)m.size() == w.size(), "after " << w.size() << " values the vector has size " << m.size());
        VP_REQUIRE(m.back() == w.back(), "value " << w.back() << " stored as number " << i << " is read back as " << m.back());
    }
    for (size_t i = 0; i < w.size(); ++i) VP_REQUIRE(m.at((P)i) == w[i] && m[(P)i] == w[i], "value number " << i << " of " << w.size() << " was " << w[i] << ", read as " << m.at((P)i));
    Tmp t; m.save(t.f); std::fputs("tail", t.f); std::rewind(t.f); MonotonicVector<P, L, S> k; for (unsigned i = 0; i < c.byte() % 50u; ++i) k.push_back(i); k.load(t.f);
    VP_REQUIRE((size_t)k.size() == w.size(), "loading a saved vector changes its size");
    for (size_t i = 0; i < w.size(); ++i) VP_REQUIRE(k.at((P)i) == w[i], "saved and loaded, value number " << i << " changes");
    char tail[5] = {0}; VP_REQUIRE(std::fread(tail, 1, 4, t.f) == 4 && !std::strcmp(tail, "tail"), "loading reads past what was saved");
    MonotonicVector<P, L, S> o; o.push_back(3); o.swap(k);
    VP_REQUIRE((size_t)o.size() == w.size() && k.size() == 1 && k.at(0) == 3, "swap mixes sizes up"); for (size_t i = 0; i < w.size(); ++i) VP_REQUIRE(o.at((P)i) == w[i], "swap changes values");
    return "";
}
static std::string mono(const std::string& in) {
    Choices c(in);
    switch (c.below(4)) { case 0: return mono_<unsigned int, unsigned short, 20>(c); case 1: return mono_<unsigned long, unsigned short, 20>(c); case 2: return mono_<size_t, unsigned char, 25>(c); default: return mono_<unsigned int, unsigned char, 3>(c); }
}
// ---- string vectors
static std::string word(Choices& c) { unsigned k = c.byte(); std::string s; unsigned n = k < 40 ? 0 : k < 240 ? k % 6 : k < 255 || c.byte() > 60 ? 20 + c.byte() : 30000 + 200 * c.byte(); for (unsigned i = 0; i < n; ++i) { unsigned x = n > 200 ? i : c.byte(); s += (char)(x & 128 ? x : "abcz\n\0 \x7f"[x & 7]); } return s; }
template <typename SV> static std::string same_(const SV& v, const std::vector<std::string>& w, const char* when) {
    VP_REQUIRE((size_t)v.size() == w.size(), when << ": size is " << v.size() << " of " << w.size()); size_t tot = 0;
    for (size_t i = 0; i < w.size(); ++i) {
        VP_REQUIRE(v.at(i).str() == w[i] && v[i].str() == w[i] && v.length(i) == w[i].size() && v[i].size() == w[i].size(), when << ": string number " << i << " is " << show(v.at(i).str().substr(0, 60)) << " for " << show(w[i].substr(0, 60)));
        VP_REQUIRE(v[i] == w[i], when << ": string does not equal itself"); tot += w[i].size(); }
    if (!w.empty()) VP_REQUIRE(v.back().str() == w.back(), when << ": last string wrong");
    VP_REQUIRE((size_t)v.size2() == tot, when << ": total length wrong");
    size_t i = 0; for (typename SV::string_iterator it = v.template begin<typename SV::string_iterator>(); it != v.template end<typename SV::string_iterator>(); ++it, ++i) VP_REQUIRE(i < w.size() && *it == w[i] && it.get_index() == i, when << ": iteration gives another string number " << i);
    VP_REQUIRE(i == w.size(), when << ": iteration gives " << i << " strings"); i = 0;
    for (typename SV::iterator it = v.begin(); it != v.end(); ++it, ++i) VP_REQUIRE(i < w.size() && (*it).str() == w[i], when << ": iteration gives another string number " << i);
    bool so = true; auto less = [](const std::string& a, const std::string& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char)x < (unsigned char)y; }); };
    for (size_t i = 1; i < w.size(); ++i) if (!less(w[i - 1], w[i])) so = false;
    VP_REQUIRE(!v.is_sorted() || so, when << ": claims to be sorted");
    for (size_t i = 0; i < w.size(); ++i) { std::string k = w[i]; size_t p = v.find(k); VP_REQUIRE(p < w.size() && w[p] == k && p <= i, when << ": stored string number " << i << " is found at " << p); }
    return "";
}
template <typename SV> static std::string strs_(Choices& c) {
    SV v; std::vector<std::string> w; unsigned n = c.byte() % 60; bool sorted = c.byte() & 1;
    for (unsigned i = 0; i < n && c.more(); ++i) w.push_back(word(c));
    if (sorted) { auto less = [](const std::string& a, const std::string& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char)x < (unsigned char)y; }); }; std::sort(w.begin(), w.end(), less); if (c.byte() & 1) w.erase(std::unique(w.begin(), w.end()), w.end()); }
    for (size_t i = 0; i < w.size(); ++i) { if (w[i].find('\0') == std::string::npos && c.byte() % 3 == 0) v.push_back(w[i].c_str()); else v.push_back(w[i]); }
    std::string r = same_(v, w, "after adding"); if (!r.empty()) return r;
    for (int i = 0; i < 3; ++i) { std::string k = word(c); if (std::find(w.begin(), w.end(), k) == w.end()) { size_t p = v.find(k); VP_REQUIRE(p <= w.size() && (v.is_sorted() || p == w.size()), "a string that is not there is found at " << p); } }
    Tmp t; v.save(t.f); std::fputs("tail", t.f); std::rewind(t.f); SV k; k.push_back("x"); k.load(t.f); r = same_(k, w, "saved and loaded"); if (!r.empty()) return r;
    VP_REQUIRE(k.is_sorted() == v.is_sorted(), "loading forgets whether the strings are sorted");
    char tail[5] = {0}; VP_REQUIRE(std::fread(tail, 1, 4, t.f) == 4 && !std::strcmp(tail, "tail"), "loading reads past what was saved");
    k.push_back(std::string("later")); w.push_back("later"); r = same_(k, w, "after a string more"); if (!r.empty()) return r;
    SV o; o.swap(k); r = same_(o, w, "after a swap"); if (!r.empty()) return r; return same_(k, {}, "swapped away");
}
static std::string strs(const std::string& in) { Choices c(in); return c.below(2) ? strs_<MediumStringVector>(c) : strs_<LongStringVector>(c); }
// ---- keys and values
static std::string key(Choices& c) { std::string s; unsigned n = 1 + c.byte() % 6; for (unsigned i = 0; i < n; ++i) { unsigned x = c.byte(); s += (char)(x ? x : 'k'); } return s; }
static std::string kvs(const std::string& in) {
    Choices c(in); std::map<std::string, std::string> w; std::vector<std::string> order; KeyValueStore::Builder b; unsigned n = c.byte() % 4 == 0 ? c.byte() : c.byte() % 12;
    for (unsigned i = 0; i < n; ++i) { std::string k = c.more() ? key(c) : "k" + std::to_string(i); if (w.count(k)) continue; std::string v = c.more() ? word(c) : std::to_string(i); w[k] = v; b.add(k, v); }
    std::unique_ptr<KeyValueStore> s(b.build()), t(new KeyValueStore()); Tmp f; s->save(f.f); std::rewind(f.f); t->load(f.f);
    for (int r = 0; r < 2; ++r) { KeyValueStore& x = r ? *t : *s; const char* when = r ? "saved and loaded: " : "";
        for (auto& p : w) { auto g = x.get(p.first); VP_REQUIRE(g, when << "the key " << show(p.first) << " is not found"); VP_REQUIRE(*g == p.second, when << "the value of " << show(p.first) << " is " << show(g->substr(0, 60)) << ", was " << show(p.second.substr(0, 60))); }
        Choices d(in); for (int i = 0; i < 6; ++i) { std::string k = i == 0 ? "" : i < 3 && !w.empty() ? w.begin()->first + key(d) : key(d); if (!w.count(k)) VP_REQUIRE(!x.get(k), when << "a value is found for the key " << show(k) << ", which was never stored"); } }
    return "";
}
// ---- text lexica
static std::string fld(Choices& c) { static const char* a[] = {"a", "dom", "\xc5\xbc", "b_c", "x\\ny", "\\_q", "\\\\", "n", "V+x", "=", "k1", "k2", "k3"}; std::string s = a[c.byte() % 13]; if (c.byte() % 3 == 0) s += a[c.byte() % 13]; return s; }
static std::string unq(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '_') r += ' '; else if (s[i] == '\\') { ++i; r += s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r; }
static std::string text(const std::string& in) {
    Choices c(in); std::string t; std::map<std::string, std::vector<std::string>> w; unsigned n = 1 + c.byte() % 12; std::vector<std::string> ks;
    for (unsigned i = 0; i < n; ++i) {
        if (c.byte() % 8 == 0) { static const char* e[] = {"\n", "# note\n", "  \n", "\t\n", " # x y z\n"}; t += e[c.byte() % 5]; }
        std::string k = fld(c); if (i && c.byte() % 2) k = ks.back();
        ks.push_back(k); unsigned m = 1 + c.byte() % 3; if (c.byte() % 6 == 0) t += (c.byte() & 1) ? " " : "\t"; t += k; std::string rec;
        for (unsigned j = 0; j < m; ++j) { std::string f = fld(c); t += (c.byte() & 3) ? " " : " \t "; t += f; if (j) rec += LEXICON_FIELD_SEPARATOR; rec += unq(f); }
        w[unq(k)].push_back(rec); if (c.byte() % 5 == 0) t += " "; if (c.byte() % 6 == 0) t += "# trailing k1 k2"; if (i + 1 < n || c.byte() % 3) t += "\n";
        else break;
    }
    if (c.byte() % 40 == 0) { w.clear(); t = (c.byte() & 1) ? "" : "# nothing\n \n"; }
    char d[] = "/tmp/vp_x01_XXXXXX"; if (!mkdtemp(d)) return ""; std::string txt = std::string(d) + "/l.txt", bin = std::string(d) + "/l.bin"; { std::ofstream f(txt, std::ios::binary); f << t; }
    std::string err; try {
        LexiconBase a; if (!a.isEmpty()) err = "a new lexicon is not empty"; a.readPlainText(txt); a.store_->save(bin); LexiconBase b; b.loadBinary(bin);
        for (int r = 0; r < 2 && err.empty(); ++r) { LexiconBase& l = r ? b : a; std::string when = r ? "saved and loaded, " : "";
            if (l.isEmpty()) err = when + "the lexicon is empty";
            for (auto& p : w) { auto g = l.getRecords(p.first); if (g != p.second && err.empty()) err = when + "the records of " + show(p.first) + " are " + std::to_string(g.size()) + " [" + (g.empty() ? "" : show(g[0])) + "] instead of " + std::to_string(p.second.size()) + " [" + show(p.second[0]) + "] in the lexicon " + show(t); }
            for (std::string k : {"", "k1", "k2", "zz", "q"}) if (!w.count(k) && !l.getRecords(k).empty() && err.empty()) err = when + "records are found for " + show(k) + ", which is not in the lexicon " + show(t); }
    } catch (std::exception& e) { err = std::string("exception on the lexicon ") + show(t) + ": " + e.what(); }
    unlink(txt.c_str()); unlink(bin.c_str()); rmdir(d); return err;
}
void vp_register() {
    tests().push_back(Test("mono", mono, {}, 0, 900));
    tests().push_back(Test("strings", strs, {}, 0, 300));
    tests().push_back(Test("store", kvs, {}, 0, 250, {}, 1.5));
    tests().push_back(Test("lexicon", text, {}, 0, 120, {}, 1.5));
}
