#define VP_MAIN
#include "vp.hpp"
#include "annotation_item.hpp"
#include "annotation_item_manager.hpp"
using namespace vp;
static const char* A[] = {"a", "b", "pos", "case", "lemma", "nil", "freq", "x-y", "gender", "ą", "q1", "q2"};
static const char* VV[] = {"subst", "nom", "12", "0", "-7", "nil", "fail", "any", "false", "empty", "x", "12a", "007", "2147483647", "-2147483648", "1500000000", "1073741824", "-1073741825", "1e3", "ząb", "a b", "99999999999", "0x10", "UNKNOWN_ZVALUE", "NULL_ZVALUE", "true"};
// what a value set as text reads back as
static bool asint(const std::string& v, long& r) { if (v.empty()) return false; size_t i = v[0] == '-'; if (i == v.size() || v.size() > 11) return false; for (size_t k = i; k < v.size(); ++k) if (v[k] < '0' || v[k] > '9') return false; r = atol(v.c_str()); return r >= -2147483648L && r <= 2147483647L; }
static std::string reads(const std::string& v) { long n; if (asint(v, n)) return std::to_string(n); if (v == "any" || v == "nil") return "nil"; if (v == "fail" || v == "false" || v == "empty") return "fail"; return v; }
struct M { std::string cat, text; std::map<std::string, std::string> av; std::map<std::string, int> kind; };
static std::string history(const std::string& in) {
    Choices c(in); AnnotationItemManager m; std::vector<AnnotationItem> it; std::vector<M> mo; it.reserve(64);
    while (c.more() && it.size() < 10) {
        unsigned o = c.below(9); std::string a = A[c.below(12)], v = VV[c.below(26)];
        size_t i = it.empty() ? 0 : c.below(it.size());
        if (o == 0 || it.empty()) { std::string cat = VV[c.below(3)], tx = VV[c.below(4)]; M x; x.cat = cat; x.text = tx; if (c.below(3) == 0) { it.push_back(AnnotationItem(cat)); x.text = ""; } else it.push_back(AnnotationItem(cat, StringFrag(tx))); mo.push_back(x); }
        else if (o == 1 || o == 2) { m.setValue(it[i], a, v); long n; mo[i].av[a] = reads(v); mo[i].kind[a] = asint(v, n) ? 1 : reads(v) == "fail" && v != "fail " ? 2 : v == "nil" || v == "any" ? 3 : 0; if (v == "fail" || v == "false" || v == "empty") mo[i].kind[a] = 2; }
        else if (o == 3) { m.setStringValue(it[i], a, v); mo[i].av[a] = v; mo[i].kind[a] = 0; }
        else if (o == 4) { long n = 0; if (!asint(v, n)) n = (int)c.byte() - 100; m.setValue(it[i], a, (int)n); mo[i].av[a] = std::to_string(n); mo[i].kind[a] = 1; }
        else if (o == 5) { it.push_back(AnnotationItem(it[i])); mo.push_back(mo[i]); }
        else if (o == 6) { it.push_back(AnnotationItem(it[i], std::string("cat2"))); mo.push_back(mo[i]); mo.back().cat = "cat2"; }
        else if (o == 7) { size_t j = c.below(it.size()); m.addValues(it[i], it[j]); M src = mo[j]; for (auto& p : src.av) { mo[i].av[p.first] = p.second; mo[i].kind[p.first] = src.kind[p.first]; } }
        else { size_t j = c.below(it.size()); it[i] = it[j]; mo[i] = mo[j]; }
        for (size_t k = 0; k < it.size(); ++k) {
            VP_REQUIRE(it[k].getCategory() == mo[k].cat && m.getCategory(it[k]) == mo[k].cat, "category of item " << k);
            VP_REQUIRE(it[k].getText() == mo[k].text && it[k].getTextAsStringFrag().str() == mo[k].text, "text of item " << k);
            std::map<std::string, std::string> av = m.getAVMap(it[k]);
            VP_REQUIRE(av == mo[k].av, (av.empty() ? "" : av.begin()->first + "=" + av.begin()->second + "/") << mo[k].av.begin()->second << " attributes of item " << k << " differ: " << av.size() << " reported, " << mo[k].av.size() << " set");
            VP_REQUIRE(m.getValues(it[k]).size() == mo[k].av.size() && m.getValuesAsZvalues(it[k]).size() == mo[k].av.size(), "number of attributes");
            for (auto n : A) {
                zvalue z = m.getValue(it[k], n);
                if (!mo[k].av.count(n)) { VP_REQUIRE(m.is_false(z), "attribute " << n << " never set is not false"); continue; }
                int kd = mo[k].kind[n];
                VP_REQUIRE(m.getValueAsString(it[k], n) == mo[k].av[n], "attribute " << n << " reads " << m.getValueAsString(it[k], n) << ", set to " << mo[k].av[n]);
                VP_REQUIRE(m.is_int(z) == (kd == 1) && m.is_string(z) == (kd != 1) && m.is_false(z) == (kd == 2) && m.is_true(z) == (kd != 2) && m.is_any(z) == (kd == 3), "kind of " << n << "=" << mo[k].av[n]);
                if (kd == 1) VP_REQUIRE(m.to_int(z) == atol(mo[k].av[n].c_str()), "integer value of " << n);
            }
        }
        for (size_t k = 0; k < it.size(); ++k) for (size_t j = 0; j < it.size(); ++j) {
            bool want = mo[k].cat == mo[j].cat && mo[k].text == mo[j].text;
            std::map<std::string, std::string> x, y; // false and absent are not told apart
            for (auto& p : mo[k].av) if (mo[k].kind[p.first] != 2) x[p.first] = p.second + char('0' + mo[k].kind[p.first]);
            for (auto& p : mo[j].av) if (mo[j].kind[p.first] != 2) y[p.first] = p.second + char('0' + mo[j].kind[p.first]);
            if (want && x == y && mo[k].av != mo[j].av) continue;
            want = want && x == y;
            VP_REQUIRE((it[k] == it[j]) == want && (it[k] != it[j]) == !want, "items " << k << " and " << j << (want ? " should be equal" : " should differ"));
            if (want) VP_REQUIRE(it[k].getHash() == it[j].getHash(), "equal items have different hashes");
        }
    }
    return "";
}
// interning: the same text is the same value, different texts are different values, whatever was stored before
static std::string intern(const std::string& in) {
    Choices c(in); AnnotationItemManager m; std::map<std::string, zvalue> seen; unsigned n = c.below(200) * 8, st = c.byte();
    for (unsigned i = 0; i < n; ++i) { std::string s = "s" + std::to_string((i * 7919u + st) % 1500); zvalue z = m.stringToZvalue(s); auto p = seen.insert(std::make_pair(s, z)); VP_REQUIRE(p.first->second == z, "text " << s << " got a second value"); VP_REQUIRE(m.string_representation(z) == s && m.to_string(z) == s, "value of " << s); }
    while (c.more()) { std::string s = c.str(c.below(6)); s = s.c_str(); zvalue z = m.stringToZvalue(s); auto p = seen.insert(std::make_pair(s, z)); VP_REQUIRE(p.first->second == z, "text got a second value"); VP_REQUIRE(m.string_representation(z) == s, "value of " << show(s) << " reads " << show(m.string_representation(z))); }
    std::set<zvalue> d; for (auto& p : seen) { d.insert(p.second); VP_REQUIRE(m.string_representation(p.second) == p.first, "value of " << show(p.first) << " changed"); }
    VP_REQUIRE(d.size() == seen.size(), "two texts share a value");
    return "";
}
static std::string ints(const std::string& in) {
    Choices c(in); AnnotationItemManager m; int i = (int)(uint32_t)c.u64(); zvalue z = m.from_int(i);
    VP_REQUIRE(m.is_int(z) && !m.is_string(z) && m.to_int(z) == i, "integer " << i << " becomes " << m.to_int(z));
    VP_REQUIRE(m.to_string(z) == std::to_string(i), "integer " << i << " reads " << m.to_string(z));
    VP_REQUIRE(m.is_true(z) && !m.is_any(z), "integer taken for a truth value");
    return "";
}
void vp_register() {
    tests().push_back(Test("history", history, {std::string("\x00\x01\x02\x03\x05\x07", 6)}, 6, 60));
    tests().push_back(Test("intern", intern, {}, 0, 60, {}, 0.3));
    tests().push_back(Test("ints", ints, {std::string("\x00\x01\x7f\x80\xff\x3f\x40\xc0", 8)}, 4, 4, {}, 0.2));
}
