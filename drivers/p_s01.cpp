// Entry points for the string-fragment proofs: fragments are built through the public API in each of the ways
// a fragment comes about, then one operation is applied.
//  kind 0: a view of src[b, b+n)   1: owns its text   2: view grown by appending the adjacent view
//  kind 3: a sub-fragment of a view 4: a sub-fragment of a fragment that owns its text
#include "string_frag.hpp"
typedef unsigned long ul;
#define MK0(f, s, b, k, n) StringFrag f(s, b, n);
#define MK1(f, s, b, k, n) StringFrag f(s.substr(b, n));
#define MK2(f, s, b, k, n) StringFrag f(s, b, k); { StringFrag g_(s, b + k, n - k); f.append(g_); }
#define MK3(f, s, b, k, n) StringFrag f##0(s, b - k, n + k); StringFrag f(f##0, k, n);
#define MK4(f, s, b, k, n) StringFrag f##0(s.substr(b - k, n + k)); StringFrag f(f##0, k, n);
#define OPS(K) \
void vp_str##K(std::string& o, const std::string& s, ul b, ul k, ul n) { MK##K(f, s, b, k, n) o = f.str(); } \
ul vp_len##K(const std::string& s, ul b, ul k, ul n) { MK##K(f, s, b, k, n) return f.length(); } \
char vp_at##K(const std::string& s, ul b, ul k, ul n, ul i) { MK##K(f, s, b, k, n) return f[i]; } \
char vp_data##K(const std::string& s, ul b, ul k, ul n, ul i) { MK##K(f, s, b, k, n) return f.data()[i]; } \
ul vp_find##K(const std::string& s, ul b, ul k, ul n, char c, ul pos) { MK##K(f, s, b, k, n) return f.find(c, pos); } \
void vp_sub##K(std::string& o, const std::string& s, ul b, ul k, ul n, ul p, ul m) { MK##K(f, s, b, k, n) o = f.substr(p, m); } \
void vp_frag##K(std::string& o, const std::string& s, ul b, ul k, ul n, ul p, ul m) { MK##K(f, s, b, k, n) StringFrag g(f, p, m); o = g.str(); } \
void vp_copy##K(std::string& o, const std::string& s, ul b, ul k, ul n) { MK##K(f, s, b, k, n) StringFrag g(f); o = g.str(); } \
void vp_app##K(std::string& o, const std::string& s, ul b, ul k, ul n, const std::string& s2, ul b2, ul n2) { MK##K(f, s, b, k, n) MK0(g, s2, b2, 0, n2) f.append(g); o = f.str(); } \
void vp_apps##K(std::string& o, const std::string& s, ul b, ul k, ul n, ul b2, ul n2) { MK##K(f, s, b, k, n) MK0(g, s, b2, 0, n2) f.append(g); o = f.str(); } \
ul vp_appl##K(const std::string& s, ul b, ul k, ul n, ul b2, ul n2) { MK##K(f, s, b, k, n) MK0(g, s, b2, 0, n2) f.append(g); return f.length(); } \
void vp_appo##K(std::string& o, const std::string& s, ul b, ul k, ul n, const std::string& s2, ul b2, ul n2) { MK##K(f, s, b, k, n) MK1(g, s2, b2, 0, n2) f.append(g); o = f.str(); } \
void vp_self##K(std::string& o, const std::string& s, ul b, ul k, ul n) { MK##K(f, s, b, k, n) f.append(f); o = f.str(); } \
void vp_asg##K(std::string& o, const std::string& s, ul b, ul k, ul n, const std::string& s2, ul b2, ul n2) { MK##K(f, s, b, k, n) MK0(g, s2, b2, 0, n2) g = f; o = g.str(); }
extern "C" {
OPS(0) OPS(1) OPS(2) OPS(3) OPS(4)
}
