// Executable-contract harness: runs a property's contract on the real code, compiled from /repo's
// current sources.  It replays verifier counterexamples, searches for failing inputs, and is the
// (labelled) bounded stand-in for functions the deductive verifier does not reach.
#pragma once
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <set>
#include <unordered_set>
#include <map>
#include <sstream>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace vp {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// a byte string read as a stream of choices (structured inputs); reads 0 when exhausted
struct Choices {
    const std::string& d; size_t i;
    explicit Choices(const std::string& s) : d(s), i(0) {}
    bool more() const { return i < d.size(); }
    unsigned byte() { return i < d.size() ? (unsigned char)d[i++] : 0; }
    unsigned below(unsigned n) { return n <= 1 ? 0 : byte() % n; }
    uint64_t u64() { uint64_t r = 0; for (int k = 0; k < 8; ++k) r |= (uint64_t)byte() << (8 * k); return r; }
    std::string str(size_t n) { std::string r; while (n-- && more()) r += (char)byte(); return r; }
};

typedef std::string (*CheckFn)(const std::string&);   // "" = contract holds; "KF:<key> text" = a catalogued deviation; else what failed
struct Test {
    const char* name; CheckFn check;
    std::vector<std::string> alphabets;   // exhaustive enumeration over each, up to exh_len
    size_t exh_len, rnd_len;
    std::vector<std::string> words;       // fragments random inputs are assembled from
    double weight;
    Test(const char* n, CheckFn c, std::vector<std::string> a, size_t e, size_t r, std::vector<std::string> w = {}, double wt = 1) : name(n), check(c), alphabets(a), exh_len(e), rnd_len(r), words(w), weight(wt) {}
};
std::vector<Test>& tests();

#define VP_REQUIRE(cond, msg) do { if (!(cond)) { std::ostringstream vp_os; vp_os << msg; return vp_os.str(); } } while (0)

inline std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
inline std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
inline std::string show(const std::string& s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; }
    return r + "\"";
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared { volatile uint64_t count, testno, len; volatile double started; volatile int infail; char buf[1 << 16]; };
extern Shared* sh;

// ---- implementation (one TU per harness)
#ifdef VP_MAIN
Shared* sh;
std::vector<Test>& tests() { static std::vector<Test> t; return t; }
static FILE* out;
static std::map<std::string, uint64_t> kf; static std::map<std::string, std::string> kfin;
static std::map<std::string, uint64_t> counts;
static std::vector<std::string> samples;
struct Failed {};
static std::unordered_set<uint64_t> distinct_;
static std::string guarded(size_t tn, const std::string& in) {
    sh->testno = tn; sh->len = in.size() < sizeof(sh->buf) ? in.size() : sizeof(sh->buf);
    memcpy(sh->buf, in.data(), sh->len); sh->started = now(); sh->count = sh->count + 1;
    std::string r;
    try { r = tests()[tn].check(in); }
    catch (std::exception& e) { r = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r = "unexpected exception"; }
    sh->started = 0;
    return r;
}
static void one(size_t tn, const std::string& in) {
    std::string r = guarded(tn, in);
    counts[tests()[tn].name]++;
    if (in.size() >= 2 && distinct_.size() < 3000000) distinct_.insert(std::hash<std::string>()(in) * 31 + tn);
    if (r.empty()) return;
    if (r.compare(0, 3, "KF:") == 0) { std::string k = r.substr(3, r.find(' ') - 3); if (!kf[k]++) kfin[k] = std::string(tests()[tn].name) + " " + hex(in) + " " + r; return; }
    // shrink
    std::string best = in, why = r; double t0 = now();
    bool again = true;
    sh->infail = 1;
    fprintf(out, "RAWFAIL %s %s\n", tests()[tn].name, hex(in).c_str()); fflush(out);
    while (again && now() - t0 < 5) {
        again = false;
        for (size_t w = best.size(); w >= 1; w = w / 2) {
            for (size_t i = 0; i + w <= best.size() && now() - t0 < 5; ) {
                std::string c = best; c.erase(i, w);
                std::string q = guarded(tn, c);
                if (!q.empty() && q.compare(0, 3, "KF:")) { best = c; why = q; again = true; } else i += w > 1 ? w / 2 : 1;
            }
        }
    }
    fprintf(out, "FAIL %s %s %s\n", tests()[tn].name, hex(best).c_str(), why.c_str()); fflush(out);
    throw Failed();
}
static int run(uint64_t seed, double budget, const char* candfile, double deep) {
    double wsum = 0; for (auto& t : tests()) wsum += t.weight;
    if (candfile && *candfile) {
        std::ifstream f(candfile); std::string nm, h;
        while (f >> nm >> h) { if (h == "-") h = ""; for (size_t k = 0; k < tests().size(); ++k) if (nm == "*" || nm == tests()[k].name) one(k, unhex(h)); }
    }
    std::ostringstream exh;
    for (size_t k = 0; k < tests().size(); ++k) {
        Test& t = tests()[k];
        double t1 = now() + budget * t.weight / wsum * 0.6;
        one(k, "");
        for (auto& al : t.alphabets) {
            for (size_t len = 1; len <= t.exh_len + (deep > 1 ? 1 : 0); ++len) {
                std::string s(len, al[0]); std::vector<size_t> ix(len, 0); bool done = false, cut = false; uint64_t n = 0;
                while (!done) {
                    one(k, s);
                    if ((++n & 255) == 0 && now() > t1) { cut = true; break; }
                    size_t p = 0;
                    while (p < len) { if (++ix[p] < al.size()) { s[p] = al[ix[p]]; break; } ix[p] = 0; s[p] = al[0]; ++p; }
                    if (p == len) done = true;
                }
                exh << t.name << ": alphabet of " << al.size() << " bytes, length " << len << (cut ? " (cut by time)" : " complete") << "; ";
                if (cut) break;
            }
        }
    }
    for (size_t k = 0; k < tests().size(); ++k) {
        Test& t = tests()[k]; Rng r(seed * 1000003 + k);
        double t2 = now() + budget * t.weight / wsum * 0.4; uint64_t n = 0;
        if (t.rnd_len == 0) continue;
        while (now() < t2) {
            for (int rep = 0; rep < 16; ++rep) {
                std::string s; int style = r.below(5);
                size_t L = r.below(r.below(4) ? (t.rnd_len < 12 ? t.rnd_len : 12) + 1 : t.rnd_len + 1);
                if (n++ < 400) L = r.below(t.rnd_len + 1);
                while (s.size() < L) {
                    int c = style == 4 ? r.below(4) : style;
                    if (c == 0) s += (char)r.below(256);
                    else if (c == 1 && !t.alphabets.empty()) { auto& a = t.alphabets[r.below(t.alphabets.size())]; s += a[r.below(a.size())]; }
                    else if (c == 2 && !t.words.empty()) s += t.words[r.below(t.words.size())];
                    else if (c == 3) s += (char)r.below(16);
                    else s += (char)r.below(128);
                    if (!s.empty() && r.below(12) == 0) { size_t rep2 = r.below(20); char ch = s.back(); while (rep2-- && s.size() < t.rnd_len) s += ch; }
                }
                if (samples.size() < 4 && s.size() > 2) samples.push_back(std::string(t.name) + " " + show(s.substr(0, 120)));
                one(k, s);
            }
        }
    }
    uint64_t tot = 0;
    for (auto& c : counts) { fprintf(out, "COUNT %s %llu\n", c.first.c_str(), (unsigned long long)c.second); tot += c.second; }
    fprintf(out, "EXH %s\n", exh.str().c_str());
    for (auto& s : samples) fprintf(out, "SAMPLE %s\n", s.c_str());
    for (auto& k : kf) fprintf(out, "KNOWN %s %llu %s\n", k.first.c_str(), (unsigned long long)k.second, kfin[k.first].c_str());
    fprintf(out, "DISTINCT %llu\n", (unsigned long long)distinct_.size());
    fprintf(out, "DONE %llu\n", (unsigned long long)tot); fflush(out);
    return 0;
}
} // namespace vp
void vp_register();
#ifndef VP_ASAN_EXTRA
#define VP_ASAN_EXTRA
#endif
#ifdef __clang__
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0" VP_ASAN_EXTRA; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
#endif
int main(int argc, char** argv) {
    using namespace vp;
    vp_register();
    // keep the result channel apart from whatever the code under test prints
    out = fdopen(dup(1), "w");
    if (!getenv("VP_LOUD")) { freopen("/dev/null", "w", stdout); }
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string mode = argc > 1 ? argv[1] : "run";
    double limit = 20;
    if (mode == "replay") {
        if (argc < 4) return 2;
        for (size_t k = 0; k < tests().size(); ++k) if (std::string(argv[2]) == tests()[k].name) {
            std::string h = argv[3]; if (h == "-") h = "";
            std::string r = guarded(k, unhex(h));
            fprintf(out, "%s %s input=%s %s\n", r.empty() ? "OK" : "FAIL", argv[2], show(unhex(h)).c_str(), r.c_str()); fflush(out);
            return r.empty() ? 0 : 1;
        }
        return 2;
    }
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; double budget = argc > 3 ? atof(argv[3]) : 10;
    const char* cand = argc > 4 ? argv[4] : ""; double deep = argc > 5 ? atof(argv[5]) : 1;
    if (getenv("VP_LIMIT")) limit = atof(getenv("VP_LIMIT"));
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int rc = 0;
        try { rc = run(seed, budget, cand, deep); } catch (Failed&) { rc = 1; }
        fflush(out); _exit(rc);
    }
    double hard = now() + budget * 3 + 60;
    int st; bool hang = false;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        double s = sh->started;
        if ((s > 0 && now() - s > limit) || now() > hard) { hang = s > 0 && now() - s > limit; kill(pid, SIGKILL); waitpid(pid, &st, 0); if (!hang) { fprintf(out, "TIMEOUT\n"); fflush(out); return 0; } break; }
        usleep(20000);
    }
    if (hang || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1)) {
        std::string in((const char*)sh->buf, sh->len);
        fprintf(out, "FAIL %s %s %s\n", tests()[sh->testno].name, hex(in).c_str(), hang ? "does not terminate" : "crashes (signal, or memory error reported by the sanitizer)");
        fflush(out); return 1;
    }
    return WEXITSTATUS(st);
}
#else
} // namespace vp
#endif
