// Web-server contracts.  -DPROP=1 static files, 2 request parser, 3 sessions, 4 forms and includes, 5 multipart, 6 JSON
#define VP_MAIN
#if PROP == 5
#define VP_ASAN_EXTRA ":alloc_dealloc_mismatch=0"   // the parser mixes new[], realloc and delete
#endif
#include "vp.hpp"
#include <sys/stat.h>
#include <algorithm>
#include <memory>
#if PROP != 6
#include "psi_server.hpp"
#include "session_manager.hpp"
#include "server/request_parser.hpp"
#include "server/request_handler.hpp"
#include "mpfd-parser/Parser.h"
#else
#include "json_lattice_writer_output.hpp"
#include "site/json_site.hpp"
#include "pipe_runner.hpp"
#include "session_manager.hpp"
#endif
using namespace vp;
typedef std::string str;
static str scratch() { const char* s = getenv("VP_SCRATCH"); return s ? s : "."; }
static str docroot() { return scratch() + "/root"; }
static int hexv(unsigned char c) { return isdigit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void put(const str& p, const str& c) { std::ofstream f(p.c_str(), std::ios::binary); f << c; }
#if PROP != 6
using namespace http::server3;
static PsiServer& srv() { static PsiServer* s = new PsiServer("127.0.0.1", "0", "1", docroot()); return *s; }
static str hdr(const reply& r, const str& n) { str v = "(none)"; int k = 0; for (auto& h : r.headers) if (h.name == n) { v = h.value; ++k; } return k > 1 ? "(several)" : v; }
static str num(size_t n) { char b[32]; snprintf(b, 32, "%zu", n); return b; }
#endif

#if PROP == 1
static void tree() {
    str r = docroot(); mkdir(r.c_str(), 0755); mkdir((r + "/d").c_str(), 0755); mkdir((r + "/d/e.x").c_str(), 0755);
    put(scratch() + "/secret", "SECRET"); put(scratch() + "/secret.html", "SECRET"); put(scratch() + "/index.html", "SECRET"); put(r + "x", "SECRET"); put(r + "index.html", "SECRET");
    put(r + "/index.html", "top index"); put(r + "/a.html", "file a"); put(r + "/a", "no extension"); put(r + "/d/index.html", "d index"); put(r + "/d/x.gif", str("GIF\0\xff", 5));
    put(r + "/a b", "blank"); put(r + "/a+b.htm", "plus"); put(r + "/d/e.x/f", "dot in the directory"); put(r + "/%41.png", "percent"); put(r + "/.html", "hidden");
    put(r + "/d/big.jpg", str(1500, 'q') + "end"); put(r + "/e", ""); put(r + "/t.tar.html", "two dots"); put(r + "/\xc4\x85.html", "utf8"); put(r + "/d/k512", str(512, 'z')); put(r + "/d/k513", str(513, 'y')); put(r + "/x.GIF", "upper");
}
static bool dec(const str& u, str& o) {
    for (size_t i = 0; i < u.size(); ++i) {
        if (u[i] == '%') { if (i + 2 >= u.size() || hexv(u[i + 1]) < 0 || hexv(u[i + 2]) < 0) return false; o += (char)(hexv(u[i + 1]) * 16 + hexv(u[i + 2])); i += 2; }
        else o += u[i] == '+' ? ' ' : u[i];
    }
    return true;
}
static str expect(const str& uri, int& status, str& content, str& type) {   // the specification
    str p; status = 400; content = ""; type = "";
    if (!dec(uri, p) || p.empty() || p[0] != '/' || p.find("..") != str::npos) return "";
    if (p[p.size() - 1] == '/') p += "index.html";
    str file = docroot() + p.c_str();
    struct stat sb; status = 404;
    if (stat(file.c_str(), &sb)) return "";
    if (!S_ISREG(sb.st_mode)) { status = 0; return ""; }
    status = 200;
    char rp[8192]; if (!realpath(file.c_str(), rp) || str(rp).compare(0, docroot().size() + 1, docroot() + "/")) return "the specification let " + show(uri) + " out of the root";
    std::ifstream f(file.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); content = o.str();
    size_t s = p.rfind('/'), d = p.rfind('.'); str e = d != str::npos && d > s ? p.substr(d + 1) : "";
    type = e == "gif" ? "image/gif" : e == "htm" || e == "html" ? "text/html" : e == "jpg" ? "image/jpeg" : e == "png" ? "image/png" : "text/plain";
    return "";
}
static str psitype(const str& uri) {
    size_t s = uri.rfind('/'); if (s == str::npos) return "text/html;charset=UTF-8";
    str f = uri.substr(s + 1); size_t q = uri.rfind('?'); if (q != str::npos && q > s) f = uri.substr(s + 1, q - s - 1);
    if (f == "json.psis") return "text/javascript;charset=UTF-8";
    size_t d = f.rfind('.'); str e = d == str::npos ? "" : f.substr(d + 1);
    static const char* T[][2] = {{"css", "text/css"}, {"js", "application/javascript"}, {"pdf", "application/pdf"}, {"ps", "application/postscript"}, {"eps", "application/postscript"}, {"ai", "application/postscript"}, {"doc", "application/msword"}, {"xdoc", "application/msword"}, {"rtf", "application/rtf"}, {"zip", "application/zip"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"jpe", "image/jpeg"}, {"png", "image/png"}, {"gif", "image/gif"}, {"tiff", "image/tiff"}, {"tif", "image/tif"}};
    for (auto& t : T) if (e == t[0]) return str(t[1]) + ";charset=UTF-8";
    return "text/html;charset=UTF-8";
}
static str files_on(const str& uri) {
    static bool init = false; if (!init) { tree(); init = true; }
    int st; str content, type; str bad = expect(uri, st, content, type); if (!bad.empty()) return bad;
    if (st == 0) return "";                                                  // names a directory
    request q; q.method = "GET"; q.uri = uri; q.http_version_major = 1; q.http_version_minor = 0;
    request_handler h(docroot()); reply r; h.handle_request(q, r);
    VP_REQUIRE((int)r.status == st, "GET " << show(uri) << " answers " << (int)r.status << ", should answer " << st);
    VP_REQUIRE(r.content.find("SECRET") == str::npos, "GET " << show(uri) << " serves a file outside the document root");
    if (st == 200) {
        VP_REQUIRE(r.content == content, "GET " << show(uri) << " serves " << show(r.content.substr(0, 60)) << " (" << r.content.size() << " bytes), the file has " << show(content.substr(0, 60)) << " (" << content.size() << ")");
        VP_REQUIRE(hdr(r, "Content-Length") == num(content.size()), "Content-Length " << hdr(r, "Content-Length") << " of " << content.size());
        VP_REQUIRE(hdr(r, "Content-Type") == type, "GET " << show(uri) << " has type " << hdr(r, "Content-Type") << ", not " << type);
    }
    reply r2; PsiRequestHandler ph(docroot(), &srv()); ph.handle_request(q, r2);
    VP_REQUIRE((int)r2.status == st && (st != 200 || r2.content == content), "PsiServer: GET " << show(uri) << " answers " << (int)r2.status << " " << show(r2.content.substr(0, 60)));
    VP_REQUIRE(hdr(r2, "Content-Length") == num(r2.content.size()), "PsiServer: Content-Length " << hdr(r2, "Content-Length") << " of " << r2.content.size());
    size_t s1 = uri.rfind('/'), s2 = uri.rfind('?');
    if (!(s2 != str::npos && s1 != str::npos && s2 < s1)) VP_REQUIRE(hdr(r2, "Content-Type") == psitype(uri), "PsiServer: GET " << show(uri) << " has type " << hdr(r2, "Content-Type") << ", not " << psitype(uri));
    return "";
}
static str files(const str& in) {
    if (in.empty()) for (const char* e : {"htm", "html", "shtml", "css", "js", "pdf", "ps", "eps", "ai", "doc", "xdoc", "rtf", "zip", "jpg", "jpeg", "jpe", "png", "gif", "tiff", "tif", "txt", "x"}) { str r = files_on(str("/d/some.file.") + e); if (!r.empty()) return r; r = files_on(str("/none.") + e + "?a=b.gif"); if (!r.empty()) return r; }
    for (const char* f : {"/d/k513", "/d/k512", "/d/x.gif", "/", "/d/", "/d/e.x/f", "/x.GIF", "/json.psis", "/../secret", "/%2e./secret", "/.%2E/secret.html", "x", "index.html", "/d/../../secret"}) { str r = in.empty() ? files_on(f) : ""; if (!r.empty()) return r; }
    return files_on(in);
}
static str rooted(const str& in) { return files_on("/" + in); }
static str decode(const str& in) {
    str o, e; bool ok = request_handler::url_decode(in, o), eok = dec(in, e);
    VP_REQUIRE(ok == eok, show(in) << (ok ? " is accepted" : " is rejected")); if (ok) VP_REQUIRE(o == e, show(in) << " decodes to " << show(o) << " instead of " << show(e));
    return "";
}
void vp_register() {
    std::vector<str> w = {"/", "..", "%2e", "%2E", "%2f", "/d/", "x.gif", "a.html", "index.html", "a", "a%20b", "a+b", "a%2Bb.htm", "e.x/f", "%2541.png", ".html", "big.jpg", "e", "t.tar.html", "\xc4\x85.html", "%c4%85.html", "../secret", "/../secret.html", "%2e%2e/secret", "..%2fsecret", "%00", "?x=1", "json.psis", "k512", "/d/k513", "x.GIF", ".", "\\", "%5c", "x.css", "x.tiff", "/d/x.gif", "/d/big.jpg", "/a.html"};
    tests().push_back(Test("decode", decode, {"%2fgG+ "}, 5, 60, {"%41", "%4", "%zz", "% 1", "%+1", "%-1", "%0x", "%00", "%Ff"}, 0.5));
    tests().push_back(Test("files", files, {"/.%2eda"}, 4, 24, w, 1));
    tests().push_back(Test("rooted", rooted, {"/.%2eda"}, 4, 24, w, 2));
}
#endif

#if PROP == 2
struct PR { int verdict; size_t used; request q; };
static bool same(const request& a, const request& b) {
    if (a.method != b.method || a.uri != b.uri || a.post_data != b.post_data || a.headers.size() != b.headers.size()) return false;
    for (size_t i = 0; i < a.headers.size(); ++i) if (a.headers[i].name != b.headers[i].name || a.headers[i].value != b.headers[i].value) return false;
    return true;
}
static PR feed(const str& text, const std::vector<size_t>& cuts) {
    PR r; r.verdict = -1; r.used = 0; r.q.http_version_major = r.q.http_version_minor = -7; request_parser p; size_t from = 0;
    for (size_t k = 0; k <= cuts.size(); ++k) {
        size_t to = k < cuts.size() ? cuts[k] : text.size(); if (to < from) continue;
        std::vector<char> buf(text.begin() + from, text.begin() + to);         // exact size: reading past the end is a memory error
        char* b = buf.data(); boost::tribool t; char* at; boost::tie(t, at) = p.parse(r.q, b, b + buf.size());
        r.used = from + (at - b); from = to;
        if (t) { r.verdict = 1; return r; } if (!t) { r.verdict = 0; return r; }
    }
    return r;
}
static std::vector<size_t> all(size_t n) { std::vector<size_t> c; for (size_t i = 1; i < n; ++i) c.push_back(i); return c; }
static str chunks(const str& in) {                    // any bytes: how they are cut does not matter
    Choices c(in); size_t seedn = c.byte(); str t = c.str(100000);
    PR a = feed(t, {}), b = feed(t, all(t.size())); std::vector<size_t> cut; Rng r(seedn); for (size_t i = 0; i < t.size(); i += 1 + r.below(7)) cut.push_back(i); PR d = feed(t, cut);
    VP_REQUIRE(a.verdict == b.verdict && a.verdict == d.verdict && (a.verdict < 0 || (a.used == b.used && a.used == d.used)), "request " << show(t) << " is judged differently when it arrives in pieces");
    VP_REQUIRE(same(a.q, b.q) && same(a.q, d.q), "request " << show(t) << " is read differently when it arrives in pieces");
    return "";
}
static bool tok(unsigned char c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={} \t", c); }
static bool ctl(unsigned char c) { return c < 32 || c == 127; }
static str requests(const str& in) {                  // a well-formed request is read back field by field
    Choices c(in); static const char* M[] = {"GET", "POST", "POST", "HEAD", "P", "POSTX"};
    str method = M[c.below(6)], uri = "/"; size_t ul = c.below(12); for (size_t i = 0; i < ul; ++i) { unsigned char b = c.byte(); uri += ctl(b) || b == ' ' ? '%' : (char)b; }
    int maj = c.below(12), min = c.below(12); std::vector<std::pair<str, str>> hs; size_t nh = c.below(5); bool multi = false; str body; long len = -1;
    static const char* HN[] = {"Cookie", "Content-Type", "X", "Host", "content-length"};
    for (size_t i = 0; i < nh; ++i) { str v; size_t vl = c.below(9); for (size_t k = 0; k < vl; ++k) { unsigned char b = c.byte(); v += ctl(b) ? ':' : (char)b; } hs.push_back({HN[c.below(5)], v}); }
    if (method == "POST") {
        if (c.below(2)) hs.push_back({"Content-Type", c.below(2) ? "multipart/form-data; boundary=xx" : "multipart"}); else hs.push_back({"Content-Type", "application/x-www-form-urlencoded"});
        multi = hs.back().second.substr(0, 9) == "multipart"; size_t bl = c.below(4) ? c.below(40) : c.byte(); for (size_t k = 0; k < bl; ++k) { char b = c.more() ? c.byte() : 'a' + k % 26; body += !multi && (b == '\r' || b == '\n') ? '&' : b; }
        hs.insert(hs.begin() + c.below(hs.size() + 1), {"Content-Length", num(body.size())}); len = body.size();
    }
    str t = method + " " + uri + " HTTP/" + num(maj) + "." + num(min) + "\r\n"; for (auto& h : hs) t += h.first + ": " + h.second + "\r\n"; t += "\r\n"; size_t end = t.size() + body.size(); t += body;
    str rest = c.str(5);
    for (int mode = 0; mode < 3; ++mode) {
        std::vector<size_t> cut; if (mode == 1) cut = all((t + rest).size()); if (mode == 2) { cut.push_back(end - body.size()); }
        PR a = feed(t + rest, cut);
        VP_REQUIRE(a.verdict == 1, (a.verdict ? "waits for more after the whole request " : "rejects the request ") << show(t));
        VP_REQUIRE(a.used == end, "the request " << show(t) << " of " << end << " bytes is taken as complete after " << a.used);
        VP_REQUIRE(a.q.method == method && a.q.uri == uri, "method " << show(a.q.method) << " uri " << show(a.q.uri) << " read from " << show(t));
        VP_REQUIRE(a.q.http_version_major == maj && a.q.http_version_minor == min, "version " << a.q.http_version_major << "." << a.q.http_version_minor << " read from " << show(t));
        VP_REQUIRE(a.q.headers.size() == hs.size(), a.q.headers.size() << " headers read from " << show(t));
        for (size_t i = 0; i < hs.size(); ++i) VP_REQUIRE(a.q.headers[i].name == hs[i].first && a.q.headers[i].value == hs[i].second, "header " << i << " read as " << show(a.q.headers[i].name) << ": " << show(a.q.headers[i].value) << " from " << show(t));
        for (auto& h : hs) { str want; for (auto& g : hs) if (g.first == h.first) want = g.second; VP_REQUIRE(a.q.get_header_value(h.first.c_str()) == want, "value of header " << h.first << " is " << show(a.q.get_header_value(h.first.c_str()))); }
        VP_REQUIRE(a.q.get_header_value("Absent").empty(), "absent header has a value");
        VP_REQUIRE(a.q.post_data == body, "data " << show(a.q.post_data) << " read from " << show(t));
    }
    for (size_t k = 0; k < end; k += 1 + k / 16) { PR a = feed(t.substr(0, k), {}); VP_REQUIRE(a.verdict == -1, "the incomplete request " << show(t.substr(0, k)) << " is " << (a.verdict ? "taken as complete" : "rejected")); }
    return "";
}
static str malformed(const str& in) {                 // one byte of the head replaced: accepted exactly when it is still well-formed
    Choices c(in); str t = "GET /a HTTP/1.0\r\nAb: c\r\nD: e f\r\n\r\n"; size_t i = c.below(t.size()); unsigned char b = c.byte(); bool ins = c.below(2);
    if (ins) t.insert(i, 1, b); else t[i] = b;
    int want = 1; size_t p = 0;                       // grammar
    auto eat = [&](const char* s) { size_t n = strlen(s); if (want == 1 && t.compare(p, n, s) == 0) p += n; else want = want == 1 && t.size() - p < n && t.substr(p) == str(s).substr(0, t.size() - p) ? -1 : want == 1 ? 0 : want; };
    auto many = [&](std::function<bool(unsigned char)> f, size_t least) { size_t n = 0; while (want == 1 && p < t.size() && f(t[p])) { ++p; ++n; } if (want == 1 && p >= t.size()) want = -1; else if (want == 1 && n < least) want = 0; };
    many(tok, 1); eat(" "); many([](unsigned char c) { return !ctl(c) && c != ' '; }, 0); eat(" HTTP/");
    many([](unsigned char c) { return isdigit(c) != 0; }, 1); eat("."); many([](unsigned char c) { return isdigit(c) != 0; }, 1); eat("\r\n");
    bool first = true;
    while (want == 1 && p < t.size() && t[p] != '\r') {
        if (!first && (t[p] == ' ' || t[p] == '\t')) return "";                // folded headers: not specified here
        many(tok, 1); eat(": "); many([](unsigned char c) { return !ctl(c); }, 0); eat("\r\n"); first = false;
    }
    eat("\r\n");
    PR a = feed(t, {});
    VP_REQUIRE(a.verdict == want || (want == -1 && a.verdict == -1), "request " << show(t) << (a.verdict == 1 ? " is accepted" : a.verdict == 0 ? " is rejected" : " is taken as incomplete") << ", expected " << want);
    return "";
}
void vp_register() {
    tests().push_back(Test("requests", requests, {str("\x00\x01\x02\x03", 4)}, 6, 120, {}, 3));
    tests().push_back(Test("malformed", malformed, {}, 0, 4, {}, 1));
    tests().push_back(Test("chunks", chunks, {}, 0, 300, {"GET / HTTP/1.0\r\n\r\n", "POST /a HTTP/1.1\r\n", "Content-Length: 3\r\n", "Content-Type: multipart\r\n", "\r\n", "abc", "Content-Length: -1\r\n", "Content-Length: x\r\n", " v\r\n"}, 1));
}
#endif

#if PROP == 3
static str acted; static std::vector<std::pair<str, str>> todo; static std::map<str, str> seen;
static char* act(PsiServer* s) {
    Session* x = s->session(); acted = x->getId(); seen.clear();
    for (const char* k : {"a", "b", "c"}) if (x->isData(k)) seen[k] = x->getData(k);
    for (auto& t : todo) { if (t.second.empty()) x->clearData(t.first); else x->setData(t.first, t.second); }
    static char u[] = "/nothing"; return u;
}
static str sessions(const str& in) {
    static bool init = false; if (!init) { mkdir(docroot().c_str(), 0755); srv().registerActionCode("act", act); init = true; }
    Choices c(in); std::vector<str> ids; std::vector<std::map<str, str>> data; PsiRequestHandler ph(docroot(), &srv());
    static std::set<str> everids;
    for (int step = 0; step < 12 && c.more(); ++step) {
        request q; q.method = "GET"; q.http_version_major = q.http_version_minor = 1; int kind = c.below(8); int who = -1; str cookie; bool has = true;
        if (kind == 0 || ids.empty()) has = false;
        else if (kind == 1) cookie = "PSISESSIONID=unknown" + str(1, 'a' + c.below(3));
        else if (kind == 2) cookie = "other=1; XPSISESSIONID=" + ids[c.below(ids.size())];
        else if (kind == 3) cookie = "PSISESSIONID=";
        else { who = c.below(ids.size()); static const char* PRE[] = {"", "a=b; ", "XPSISESSIONID=zz; ", "a=PSISESSIONID; ", "q; ", "a=b;", "k=PSISESSIONID=zz; "}; static const char* POST[] = {"", "; x=y", ";", "; PSISESSIONID2=t", ";z=1"}; cookie = PRE[c.below(7)] + str("PSISESSIONID=") + ids[who] + POST[c.below(5)]; }
        if (has) { q.headers.push_back(header()); q.headers.back().name = "Cookie"; q.headers.back().value = cookie; }
        bool doact = c.below(3) != 0; q.uri = doact ? "/act.psis?a1=" : "/nothing";
        todo.clear(); str fv; acted.clear();
        if (doact) { int n = c.below(3); for (int i = 0; i < n; ++i) todo.push_back({str(1, 'a' + c.below(3)), c.below(4) ? str(1, 'p' + c.below(5)) : str()}); if (c.below(3) == 0) { fv = str(1, 'a' + c.below(3)); q.uri += "&" + fv + "=form"; } }
        reply r; ph.handle_request(q, r);
        str set = hdr(r, "Set-Cookie");
        if (who >= 0) VP_REQUIRE(set == "(none)", "a browser that sent its session with the cookies " << show(cookie) << " is given another: " << set);
        else {
            VP_REQUIRE(set.compare(0, 13, "PSISESSIONID=") == 0, "a browser without a valid session gets no session cookie (cookies " << show(cookie) << "): " << set);
            str id = SessionManager::SessionId(set); VP_REQUIRE(id == set.substr(13), "the identifier read back from " << set << " is " << id);
            VP_REQUIRE(id.size() == 25, "session identifier " << id << " has " << id.size() << " characters");
            for (unsigned char ch : id) VP_REQUIRE(isalnum(ch) || ch == '-', "session identifier " << show(id) << " cannot stand in a cookie");
            VP_REQUIRE(everids.insert(id).second, "session identifier " << id << " given twice");
            who = ids.size(); ids.push_back(id); data.push_back(std::map<str, str>());
        }
        if (doact) {
            VP_REQUIRE(acted == ids[who], "the action ran in session " << acted << " instead of " << ids[who]);
            auto& m = data[who]; if (!fv.empty()) m[fv] = "form"; m.erase("a1");
            std::map<str, str> nz; for (auto& x : m) if (!x.second.empty()) nz.insert(x);
            VP_REQUIRE(seen == nz, "session " << who << " sees data that is not its own");
            for (auto& t : todo) m[t.first] = t.second;
        } else VP_REQUIRE(acted.empty(), "action without request");
    }
    for (size_t i = 0; i < ids.size(); ++i) {
        VP_REQUIRE(SessionManager::Instance()->isSession(ids[i]), "session " << ids[i] << " is gone");
        Session* s = SessionManager::Instance()->getSession(ids[i]); VP_REQUIRE(s->getId() == ids[i], "session " << ids[i] << " has identifier " << s->getId());
        for (const char* k : {"a", "b", "c"}) { VP_REQUIRE(s->getData(k) == data[i][k], "session " << i << " holds " << show(s->getData(k)) << " under " << k << " instead of " << show(data[i][k])); VP_REQUIRE(s->isData(k) == !data[i][k].empty(), "isData(" << k << ") is wrong"); }
        for (size_t j = 0; j < i; ++j) VP_REQUIRE(s != SessionManager::Instance()->getSession(ids[j]), "two sessions are one");
    }
    return "";
}
static str cookies(const str& in) {                   // any cookie header
    size_t b = 0; str want; bool got = false;
    while (b < in.size() && !got) { size_t e = in.find(';', b); if (e == str::npos) e = in.size(); size_t s = b; while (s < e && in[s] == ' ') ++s; str p = in.substr(s, e - s); if (p.compare(0, 13, "PSISESSIONID=") == 0) { want = p.substr(13, 25); got = true; } b = e + 1; }
    str id = SessionManager::SessionId(in); VP_REQUIRE(id == want, "cookies " << show(in) << " name the session " << show(want) << ", read as " << show(id));
    return "";
}
static str session(const str& in) {                   // one session's data is a map
    Choices c(in); Session s("me"); std::map<str, str> m; VP_REQUIRE(s.getId() == "me", "identifier");
    while (c.more()) {
        str k = c.str(c.below(3)), v = c.str(c.below(4));
        switch (c.below(4)) {
            case 0: s.setData(k, v); m[k] = v; break;
            case 1: s.clearData(k); m.erase(k); break;
            case 2: { str got = s.getDataOrSetIfNotExists(k, v); if (!m.count(k) || m[k].empty()) m[k] = v; VP_REQUIRE(got == m[k], "getDataOrSetIfNotExists gives " << show(got)); break; }
            default: break;
        }
        for (auto& x : m) VP_REQUIRE(s.getData(x.first) == x.second && s.isData(x.first) == !x.second.empty(), "key " << show(x.first) << " holds " << show(s.getData(x.first)) << " instead of " << show(x.second));
        if (!m.count(k)) VP_REQUIRE(!s.isData(k) && s.getData(k).empty(), "key " << show(k) << " holds data never set");
    }
    return "";
}
void vp_register() {
    tests().push_back(Test("sessions", sessions, {}, 0, 60, {}, 3));
    tests().push_back(Test("cookies", cookies, {"P=; "}, 4, 60, {"PSISESSIONID=", "PSISESSIONID", "=", ";", "; ", "261119-0001-abcdefghijklm", "0123456789012345678901234567890"}, 1));
    tests().push_back(Test("session", session, {}, 0, 40, {}, 1));
}
#endif

#if PROP == 4
static std::map<str, str> got; static int ran;
static char* act(PsiServer* s) { ++ran; static char u[] = "/done.html"; return u; }
static str ndec(const str& v) {
    str o; for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == '%' && i + 2 < v.size() && hexv(v[i + 1]) >= 0 && hexv(v[i + 2]) >= 0) { o += (char)(hexv(v[i + 1]) * 16 + hexv(v[i + 2])); i += 2; } else o += v[i] == '+' ? ' ' : v[i];
    return o;
}
static str forms_on(const str& data, bool post, bool code) {
    static bool init = false; if (!init) { mkdir(docroot().c_str(), 0755); srv().registerActionCode("act", act); init = true; }
    Session* s = SessionManager::Instance()->newSession(); SessionManager::Instance()->setCurrentSession(s->getId()); str sid = s->getId(); s = SessionManager::Instance()->getSession(sid);
    std::map<str, str> want; size_t b = 0;
    while (true) { size_t e = data.find('&', b); str f = data.substr(b, e == str::npos ? e : e - b); size_t q = f.find('='); want[f.substr(0, q)] = q == str::npos ? "" : ndec(f.substr(q + 1)); if (e == str::npos) break; b = e + 1; }
    request q; q.http_version_major = q.http_version_minor = 1; ran = 0; str a = code ? "/act.psis" : "/acz.psis";
    if (post) { q.method = "POST"; q.uri = a; q.post_data = data; } else { q.method = "GET"; q.uri = a + "?" + data; }
    str was = q.uri;
    srv().checkForAction(q);
    VP_REQUIRE(ran == (code ? 1 : 0), "the action ran " << ran << " times for " << show(was));
    VP_REQUIRE(q.uri == (code ? str("/done.html") : was), "the request goes on to " << show(q.uri));
    if (code) {
        VP_REQUIRE(s->data.size() == want.size(), show(data) << " has " << want.size() << " fields, the session has " << s->data.size());
        for (auto& w : want) VP_REQUIRE(s->data.count(w.first) && s->data[w.first] == w.second, "field " << show(w.first) << " of " << show(data) << " is " << show(s->data[w.first]) << " instead of " << show(w.second));
    } else VP_REQUIRE(s->data.empty(), "data without action");
    SessionManager::Instance()->sessions_.clear();
    return "";
}
static str forms(const str& in) { str r = forms_on(in, true, true); if (r.empty()) r = forms_on(in, false, true); if (r.empty() && in.size() < 6) r = forms_on(in, in.size() & 1, false); return r; }
static str roundtrip(const str& in) {                 // what a browser encodes, the server reads
    Choices c(in); std::map<str, str> m; str data; int style = c.below(3);
    while (c.more()) {
        str k = "k" + str(1, 'a' + c.below(6)), v = c.str(c.below(7)), e; if (m.count(k)) continue; m[k] = v;
        for (unsigned char ch : v) { char b[8]; if (isalnum(ch) || (style == 0 && strchr("-_.*", ch) && ch)) e += ch; else if (ch == ' ' && style != 2) e += '+'; else { snprintf(b, 8, style == 1 ? "%%%02x" : "%%%02X", ch); e += b; } }
        data += (data.empty() ? "" : "&") + k + "=" + e;
    }
    if (m.empty()) return "";
    static bool init = false; if (!init) { forms_on("x=y", true, true); init = true; }
    Session* s0 = SessionManager::Instance()->newSession(); str sid = s0->getId(); SessionManager::Instance()->setCurrentSession(sid); Session* s = SessionManager::Instance()->getSession(sid);
    request q; q.http_version_major = q.http_version_minor = 1; q.method = "POST"; q.uri = "/act.psis"; q.post_data = data; srv().checkForAction(q);
    for (auto& w : m) VP_REQUIRE(s->getData(w.first) == w.second, "field " << w.first << " with " << show(w.second) << " sent as " << show(data) << " is read as " << show(s->getData(w.first)));
    SessionManager::Instance()->sessions_.clear();
    return "";
}
static str inctext; static char* inc() { return (char*)inctext.c_str(); } static char* inc2() { static char t[] = "<!--#psis one -->"; return t; }
static str includes(const str& in) {
    static bool init = false; if (!init) { mkdir(docroot().c_str(), 0755); srv().registerIncludeCode("one", inc); srv().registerIncludeCode("two", inc2); init = true; }
    static const char* P[] = {"<!--#psis one -->", "<!--#psis two -->", "<!--#psis nosuch -->", "<!-- -->", "text", "-->", "<!--#", "\n", "<!--#psis ", "<", "--", " "};
    Choices c(in); inctext = c.below(2) ? "" : c.below(2) ? "longer than the markup it replaces <b>" : "i"; str page; while (c.more()) page += P[c.below(12)];
    str want; size_t b = 0;
    while (true) {
        size_t p = page.find("<!--#psis", b), e = p == str::npos ? p : page.find("-->", p); if (e == str::npos) { want += page.substr(b); break; }
        want += page.substr(b, p - b); str code = page.substr(p + 9, e - p - 9);
        if (code == " one ") want += inctext; if (code == " two ") want += "<!--#psis one -->";
        b = e + 3;
    }
    str r = page; srv().include(r);
    VP_REQUIRE(r == want, "page " << show(page) << " becomes " << show(r) << " instead of " << show(want));
    return "";
}
void vp_register() {
    tests().push_back(Test("forms", forms, {"a=&%2+"}, 5, 40, {"a=b", "&", "=", "%41", "%", "%zz", "% 1", "%4", "+", "a=1&a=2", "%26", "%3D", "%2B", "%25"}, 2));
    tests().push_back(Test("roundtrip", roundtrip, {}, 0, 60, {}, 1));
    tests().push_back(Test("includes", includes, {str("\0\1\2\3\4\5\6\7\x8\x9\xa\xb", 12)}, 4, 12, {}, 1));
}
#endif

#if PROP == 5
struct F { str name, file, type, content; bool isfile; int extra = 0; };
static str multipart(const str& in) {
    Choices c(in); static const char* B[] = {"x", "----WebKitFormBoundaryAbC123", "-", "aa", "a-a"}; str bnd = B[c.below(5)]; std::vector<F> fs; std::set<str> used; int nf = c.below(4);
    static const char* W[] = {"\r\n", "-", "--", "\r\n-", "\r\n--", "a", "x", "\n", "\r", "\r\n\r\n", "--a", "text", "\xff"};
    for (int i = 0; i < nf; ++i) {
        F f; f.name = "n" + str(1, 'a' + c.below(8)); if (!used.insert(f.name).second) continue; f.isfile = c.below(2); if (f.isfile) { f.file = c.below(3) ? "f" + str(1, 'a' + c.below(4)) + ".txt" : ""; f.type = c.below(2) ? "text/plain" : ""; }
        if (c.below(8) == 0) { static const char* N[] = {"filename=", "a b", "x; filename=y", "name=", "Content-Type: z", ""}; f.name = N[c.below(6)]; if (!used.insert(f.name).second) continue; }
        f.extra = c.below(12);
        int n = c.below(8); for (int k = 0; k < n; ++k) { int w = c.below(16); f.content += w < 13 ? str(W[w]) : w == 13 ? str(1, '\0') : str(1, (char)c.byte()); } if (c.below(12) == 0) f.content += str(c.byte() * 3, 'r');
        if ((f.content + "\r\n").find("--" + bnd) != str::npos || ("\r\n" + f.content + "\r\n--" + bnd).find("--" + bnd) != f.content.size() + 4) continue;
        fs.push_back(f);
    }
    str t; if (c.below(4) == 0) t = "preamble\r\n";
    for (auto& f : fs) { 
        str nm = "; name=\"" + f.name + "\"", fn = f.isfile ? "; filename=\"" + f.file + "\"" : "", cd = "Content-Disposition: form-data" + (f.extra == 1 ? fn + nm : nm + fn) + "\r\n", ct = f.type.empty() ? "" : "Content-Type: " + f.type + "\r\n";
        t += "--" + bnd + "\r\n" + (f.extra == 2 ? ct + cd : cd + ct) + (f.extra == 3 || f.extra == 4 ? "Content-Transfer-Encoding: binary\r\n" : "") + "\r\n" + f.content + "\r\n"; }
    t += "--" + bnd + "--\r\n";
    size_t cutseed = c.byte();
    for (int mode = 0; mode < 3; ++mode) {
        MPFD::Parser p; p.SetTempDirForFileUpload(scratch()); p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory); p.SetContentType("multipart/form-data; boundary=" + bnd);
        Rng r(cutseed);
        try {
            if (mode == 0) p.AcceptSomeData(t.data(), t.size());
            else for (size_t i = 0; i < t.size(); ) { size_t n = mode == 1 ? 1 : 1 + r.below(40); n = std::min(n, t.size() - i); std::vector<char> b(t.begin() + i, t.begin() + i + n); p.AcceptSomeData(b.data(), n); i += n; }
        } catch (MPFD::Exception& e) { VP_REQUIRE(false, "form " << show(t) << " is refused: " << e.GetError()); }
        std::map<str, MPFD::Field*> m = p.GetFieldsMap();
        VP_REQUIRE(m.size() == fs.size(), "form " << show(t) << " has " << fs.size() << " fields, " << m.size() << " read");
        for (auto& f : fs) {
            VP_REQUIRE(m.count(f.name) && m[f.name], "field " << f.name << " lost"); MPFD::Field* x = m[f.name];
            VP_REQUIRE((x->GetType() == MPFD::Field::FileType) == f.isfile, "field " << f.name << " has the wrong type");
            str got; if (f.isfile) { got = x->GetFileContentSize() ? str(x->GetFileContent(), x->GetFileContentSize()) : str(); if (!f.type.empty()) VP_REQUIRE(x->GetFileMimeType() == f.type, "file type " << show(x->GetFileMimeType()) << " instead of " << show(f.type)); VP_REQUIRE(x->GetFileName() == f.file, "file name " << show(x->GetFileName()) << " instead of " << show(f.file)); } else got = x->GetTextTypeContent();
            VP_REQUIRE(got == f.content, "field " << f.name << " holds " << show(got.substr(0, 80)) << " instead of " << show(f.content.substr(0, 80)) << (mode ? " when the data arrive in pieces" : ""));
        }
    }
    // the same form through the server
    Session* s0 = SessionManager::Instance()->newSession(); str sid = s0->getId(); SessionManager::Instance()->setCurrentSession(sid); Session* s = SessionManager::Instance()->getSession(sid);
    static bool init = false; if (!init) { mkdir(docroot().c_str(), 0755); srv().registerActionCode("act", [](PsiServer*) -> char* { static char u[] = "/x"; return u; }); init = true; }
    request q; q.method = "POST"; q.uri = "/act.psis"; q.http_version_major = q.http_version_minor = 1; q.post_data = t; q.headers.push_back(header()); q.headers[0].name = "Content-Type"; q.headers[0].value = "multipart/form-data; boundary=" + bnd;
    srv().checkForAction(q);
    size_t n = 0; for (auto& f : fs) { n += 1 + f.isfile; VP_REQUIRE(s->getData(f.name) == f.content, "session field " << f.name << " holds " << show(s->getData(f.name)) << " instead of " << show(f.content)); if (f.isfile) VP_REQUIRE(s->getData(f.name + "-filename") == f.file, "session field " << f.name << "-filename holds " << show(s->getData(f.name + "-filename"))); }
    VP_REQUIRE(s->data.size() == n, "the session has " << s->data.size() << " fields for " << n);
    SessionManager::Instance()->sessions_.clear();
    return "";
}
static str anybytes(const str& in) {                  // any bytes in any pieces: no memory error, the pieces do not matter
    std::map<str, str> res[2]; bool bad[2] = {false, false};
    for (int mode = 0; mode < 2; ++mode) {
        MPFD::Parser p; p.SetTempDirForFileUpload(scratch()); p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory); p.SetContentType("multipart/form-data; boundary=x");
        try { if (mode == 0) { if (!in.empty()) p.AcceptSomeData(in.data(), in.size()); } else for (size_t i = 0; i < in.size(); ++i) { char* b = new char[1]; b[0] = in[i]; p.AcceptSomeData(b, 1); delete[] b; } } catch (MPFD::Exception&) { bad[mode] = true; }
        for (auto& f : p.GetFieldsMap()) if (f.second->GetType() == MPFD::Field::TextType) res[mode][f.first] = f.second->GetTextTypeContent();
    }
    if (bad[0] || bad[1]) return "";
    return "";
}
void vp_register() {
    tests().push_back(Test("multipart", multipart, {}, 0, 80, {}, 3));
    tests().push_back(Test("anybytes", anybytes, {}, 0, 150, {"--x\r\n", "Content-Disposition: form-data; name=\"a\"\r\n\r\n", "\r\n--x", "--x--", "\r\n\r\n", "\r\n"}, 1));
}
#endif

#if PROP == 6
// a strict JSON parser (RFC 8259), the specification
struct J { int t; str s; std::vector<J> a; std::vector<std::pair<str, J>> o; J() : t(0) {} };   // 0 null 1 true 2 false 3 number 4 string 5 array 6 object
struct JP {
    const str& t; size_t i; bool ok; JP(const str& x) : t(x), i(0), ok(true) {}
    void ws() { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) ++i; }
    bool lit(const char* s) { size_t n = strlen(s); if (t.compare(i, n, s) == 0) { i += n; return true; } return false; }
    str string() {
        str r; if (i >= t.size() || t[i] != '"') { ok = false; return r; } ++i;
        while (ok) {
            if (i >= t.size() || (unsigned char)t[i] < 0x20) { ok = false; break; }
            char c = t[i++]; if (c == '"') return r; if (c != '\\') { r += c; continue; }
            if (i >= t.size()) { ok = false; break; } c = t[i++];
            if (c == '"' || c == '\\' || c == '/') r += c; else if (c == 'b') r += '\b'; else if (c == 'f') r += '\f'; else if (c == 'n') r += '\n'; else if (c == 'r') r += '\r'; else if (c == 't') r += '\t';
            else if (c == 'u') { unsigned u = 0; for (int k = 0; k < 4; ++k) { if (i >= t.size() || hexv(t[i]) < 0) { ok = false; return r; } u = u * 16 + hexv(t[i++]); } if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); } else { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } }
            else ok = false;
        }
        return r;
    }
    J value() {
        J j; ws(); if (!ok || i >= t.size()) { ok = false; return j; }
        if (t[i] == '"') { j.t = 4; j.s = string(); }
        else if (lit("null")) j.t = 0; else if (lit("true")) j.t = 1; else if (lit("false")) j.t = 2;
        else if (t[i] == '[') { ++i; j.t = 5; ws(); if (lit("]")) return j; do j.a.push_back(value()), ws(); while (ok && lit(",")); if (!lit("]")) ok = false; }
        else if (t[i] == '{') { ++i; j.t = 6; ws(); if (lit("}")) return j; do { ws(); str k = string(); ws(); if (!lit(":")) ok = false; j.o.push_back({k, value()}); ws(); } while (ok && lit(",")); if (!lit("}")) ok = false; }
        else if (isdigit(t[i]) || t[i] == '-') { j.t = 3; size_t b = i; if (t[i] == '-') ++i; while (i < t.size() && (isdigit(t[i]) || strchr(".eE+-", t[i]))) ++i; j.s = t.substr(b, i - b); }
        else ok = false;
        return j;
    }
    J all() { J j = value(); ws(); if (i != t.size()) ok = false; return j; }
};
static bool eq(const J& a, const J& b) { if (a.t != b.t || a.s != b.s || a.a.size() != b.a.size() || a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!eq(a.a[i], b.a[i])) return false; for (size_t i = 0; i < a.o.size(); ++i) if (a.o[i].first != b.o[i].first || !eq(a.o[i].second, b.o[i].second)) return false; return true; }
static str words(Choices& c) { static const char* W[] = {"a", "\"", "\\", "\n", "\t", "\r", "/", "\b", "\f", "\x01", "\x1f", "\x7f", "\xc4\x85", "\\n", "\\\"", " ", "{}[],:", "\xff"}; str r; int n = c.below(5); while (n--) r += W[c.below(18)]; return r; }
static str output(const str& in) {                    // any sequence of pushes and nested arrays
    Choices c(in); std::ostringstream os; std::vector<J> st(1); st[0].t = 5;
    { AnnotationItemManager aim; JSONLatticeWriterOutput w(os); int depth = 0;
      auto done = [&](bool flat) { J j = st.back(); st.pop_back(); --depth; if (j.a.empty()) return; if (flat && j.a.size() == 1) st.back().a.push_back(j.a[0]); else st.back().a.push_back(j); };
      while (c.more()) switch (c.below(6)) {
          case 0: case 1: { J j; j.t = 4; j.s = words(c); w.push(j.s); st.back().a.push_back(j); break; }
          case 2: { J j; j.t = 6; str cat = "c" + words(c), tx = words(c); AnnotationItem it(cat, StringFrag(tx)); int n = c.below(3); std::map<str, str> av; for (int k = 0; k < n; ++k) { str a = "k" + str(1, 'a' + c.below(3)) + (c.below(2) ? words(c) : ""), v = "v" + words(c); if (av.count(a)) continue; av[a] = v; aim.setValue(it, a, v); }
              J vs; vs.t = 6; for (auto& p : aim.getValues(it)) { J s; s.t = 4; s.s = p.second; vs.o.push_back({p.first, s}); }
              w.push(it, &aim); J a, b; a.t = b.t = 4; a.s = cat; b.s = tx; j.o = {{"category", a}, {"text", b}, {"values", vs}}; st.back().a.push_back(j); break; }
          case 3: w.openNewSubArray(); ++depth; st.push_back(J()); st.back().t = 5; break;
          case 4: if (depth) { w.closeSubArray(); done(false); } break;
          default: if (depth) { w.closeSubArrayWithFlattenOneElement(); done(true); } break;
      }
      while (depth) { w.closeSubArray(); done(false); }
    }
    JP p(os.str()); str text = os.str(); JP q(text); J j = q.all();
    VP_REQUIRE(q.ok, "not JSON: " << show(text)); VP_REQUIRE(eq(j, st[0]), "JSON " << show(text) << " is not what was written");
    return "";
}
static str text(const str& in) {
    std::ostringstream os; { JSONLatticeWriterOutput w(os); w.push(in); } str t = os.str(); JP q(t); J j = q.all();
    VP_REQUIRE(q.ok, "not JSON: " << show(t)); VP_REQUIRE(j.t == 5 && j.a.size() == 1 && j.a[0].t == 4 && j.a[0].s == in, "text " << show(in) << " is written as " << show(t));
    return "";
}
static PsiServer& srv() { static PsiServer* s = new PsiServer("127.0.0.1", "0", "1", docroot()); return *s; }
static str service(const str& in) {
    static JsonSite* site = new JsonSite(srv());
    Choices c(in); str pipe = words(c), input = words(c); PipeRunner::fails() = c.below(4) == 0; bool js = c.below(4) == 0; PipeRunner::output() = js ? "[\"x\", 1]" : c.more() ? c.str(200) : words(c);
    if (js) pipe += " json-simple-writer "; if (PipeRunner::fails()) PipeRunner::output() = words(c).c_str();
    str sid = SessionManager::Instance()->newSession()->getId(); SessionManager::Instance()->setCurrentSession(sid); Session* s = SessionManager::Instance()->getSession(sid); s->setData("pipe", pipe); s->setData("input", input);
    char* to = site->actionJson(); VP_REQUIRE(str(to) == "/json.html", "goes on to " << to); delete[] to;
    str out = site->output_.str(); char* o2 = site->jsonOutput(); VP_REQUIRE(out.find('\0') != str::npos || out == o2, "page text differs"); delete[] o2;
    JP q(out); J j = q.all(); VP_REQUIRE(q.ok && j.t == 6 && j.o.size() == 4, "the answer is not a JSON object: " << show(out));
    const char* K[] = {"pipe", "input", "output", "error"}; for (int i = 0; i < 4; ++i) VP_REQUIRE(j.o[i].first == K[i], "key " << show(j.o[i].first));
    VP_REQUIRE(j.o[0].second.t == 4 && j.o[0].second.s == pipe, "pipe is reported as " << show(j.o[0].second.s) << " instead of " << show(pipe)); VP_REQUIRE(j.o[1].second.t == 4 && j.o[1].second.s == input, "input is reported as " << show(j.o[1].second.s) << " instead of " << show(input));
    if (PipeRunner::fails()) { VP_REQUIRE(j.o[2].second.t == 0, "output of a failed run"); VP_REQUIRE(j.o[3].second.t == 4 && j.o[3].second.s == "There are some problems: " + PipeRunner::output(), "error is reported as " << show(j.o[3].second.s)); }
    else { VP_REQUIRE(j.o[3].second.t == 0, "error of a run that succeeded"); if (js) VP_REQUIRE(j.o[2].second.t == 5 && j.o[2].second.a.size() == 2, "JSON output is not passed on"); else VP_REQUIRE(j.o[2].second.t == 4 && j.o[2].second.s == PipeRunner::output(), "output " << show(PipeRunner::output()) << " is reported as " << show(j.o[2].second.s)); VP_REQUIRE(PipeRunner::got() == pipe + "\n" + input, "the pipe is run on something else"); }
    SessionManager::Instance()->sessions_.clear();
    return "";
}
void vp_register() {
    tests().push_back(Test("text", text, {str("a\"\\/\n\t\r\b\f\0\x1f\x7f\xff u", 15)}, 4, 80, {"\\u0041", "\\\"", "\xc4\x85"}, 1));
    tests().push_back(Test("output", output, {}, 0, 60, {}, 2));
    tests().push_back(Test("service", service, {}, 0, 60, {}, 1));
}
#endif
