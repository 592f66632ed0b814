// Entry points of the encoding units: the code under contract is compiled from the sources in /repo.
extern "C" {
#include "tiniconv.c"
#include "tiniconv_desc.c"
int vp_u8enc(conv_t c, unsigned char* r, ucs4_t wc, int n) { return utf8_wctomb(c, r, wc, n); }
int vp_u8dec(conv_t c, ucs4_t* w, const unsigned char* s, int n) { return utf8_mbtowc(c, w, s, n); }
int vp_tcv(tiniconv_ctx_s* c, const unsigned char* in, int n, int* nc, unsigned char* out, int m, int* mc) { return tiniconv_convert(c, in, n, nc, out, m, mc); }
int vp_mb(conv_t, ucs4_t*, const unsigned char*, int); int vp_wc(conv_t, unsigned char*, ucs4_t, int);
int vp_use(conv_t c) { return vp_mb(c, 0, 0, 0) + vp_wc(c, 0, 0, 0); }
#define SB(X) int vp_d_##X(ucs4_t* w, unsigned char b) { return X##_mbtowc(0, w, &b, 1); } int vp_e_##X(unsigned char* r, ucs4_t w) { return X##_wctomb(0, r, w, 1); }
SB(ascii) SB(cp1250) SB(cp1251) SB(cp1252) SB(cp1253) SB(cp1254) SB(cp1256) SB(cp1257) SB(iso8859_1) SB(iso8859_2) SB(iso8859_3) SB(iso8859_4) SB(iso8859_5) SB(iso8859_6) SB(iso8859_7) SB(iso8859_8) SB(iso8859_9) SB(iso8859_10) SB(iso8859_11) SB(iso8859_13) SB(iso8859_14) SB(iso8859_15) SB(iso8859_16) SB(cp866) SB(koi8_r) SB(koi8_ru) SB(koi8_u) SB(mac_cyrillic)
}
