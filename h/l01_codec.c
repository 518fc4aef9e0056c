/* L01: character codecs. One call on an arbitrary byte sequence / code point. */
#include "symx.h"
#include <stdlib.h>
#include "rlib/rutf.h"
#include "rlib/rcharconv.h"
#include "rpagrep/rpagreputf.h"
#define MAXN 6
typedef unsigned char uc;
static int cont(uc b) { return (b & 0xC0) == 0x80; }
/* what the description says: length of the complete character that starts at p, or 0 */
static unsigned ref8(const uc *p, unsigned n, unsigned *wc) {
  uc c = p[0];
  if (c < 0x80) { *wc = c; return 1; }
  if (c >= 0xC2 && c <= 0xDF && n >= 2 && cont(p[1])) { *wc = (c - 0xC0u) * 64 + (p[1] - 0x80u); return 2; }
  if (c >= 0xE0 && c <= 0xEF && n >= 3 && cont(p[1]) && cont(p[2])) { *wc = (c - 0xE0u) * 4096 + (p[1] - 0x80u) * 64 + (p[2] - 0x80u); return 3; }
  if (c >= 0xF0 && c <= 0xF4 && n >= 4 && cont(p[1]) && cont(p[2]) && cont(p[3])) { *wc = (c - 0xF0u) * 262144 + (p[1] - 0x80u) * 4096 + (p[2] - 0x80u) * 64 + (p[3] - 0x80u); return 4; }
  return 0;
}
static unsigned ref16(const uc *p, unsigned n, unsigned *wc) {
  if (n < 2) return 0;
  unsigned a = p[0] + 256u * p[1];
  if (a < 0xD800 || a > 0xDFFF) { *wc = a; return 2; }
  if (a >= 0xDC00 || n < 4) return 0;
  unsigned b = p[2] + 256u * p[3];
  if (b < 0xDC00 || b > 0xDFFF) return 0;
  *wc = 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00); return 4;
}
static void decode(void) {
  unsigned n = symx_choose("n", 0, MAXN), which = symx_choose("codec", 0, 3);
  uc *p = malloc(n ? n : 1); symx_bytes(p, n, "in");
  unsigned wc = 0x5A5A5A, rw = 0; int l;
  if (which == 0) l = r_utf8_mbtowc(&wc, p, p + n);
  else if (which == 1) l = r_utf16_mbtowc(&wc, p, p + n);
  else if (which == 2) l = (int)rpa_grep_utf8_mbtowc(&wc, p, p + n);
  else l = (int)rpa_grep_utf16_mbtowc(&wc, p, p + n);
  if (n == 0) { CHECK(l == 0, "decoding at the end consumes nothing"); symx_cover("empty"); free(p); return; }
  unsigned rl = which & 1 ? ref16(p, n, &rw) : ref8(p, n, &rw);
  if (rl) { CHECK(l == (int)rl, "a complete character is consumed exactly"); CHECK(wc == rw, "a complete character decodes to its code point"); if (rl == 4) symx_cover("four"); }
  else { CHECK(l == 1, "a byte that starts no complete character has length one"); CHECK(wc == p[0], "a byte that starts no complete character is returned as itself"); symx_cover("invalid"); }
  CHECK(l >= 1 && (unsigned)l <= n && l <= 4, "consumes one to four of the remaining bytes");
  free(p);
}
static void encode(void) {
  unsigned which = symx_choose("codec", 0, 3), size = symx_choose("size", 0, 6), wc = symx_u32("wc"), back = 0, k;
  uc buf[8], *out = malloc(size ? size : 1); int l, dl;
  for (k = 0; k < size; k++) out[k] = 0xAA;
  if (which == 0) l = r_utf8_wctomb(wc, out, size);
  else if (which == 1) l = r_utf16_wctomb(wc, out, size);
  else if (which == 2) l = rpa_grep_utf8_wctomb(wc, out, size);
  else l = rpa_grep_utf16_wctomb(wc, out, size);
  unsigned need;
  if (which & 1) need = wc >= 0xD800 && wc <= 0xDFFF ? 0 : wc < 0x10000 ? 2 : wc <= 0x10FFFF ? 4 : 0;
  else need = wc < 0x80 ? 1 : wc < 0x800 ? 2 : wc < 0x10000 ? 3 : wc <= 0x10FFFF ? 4 : 0;
  if (!need || size < need) {
    CHECK(l == 0, "unencodable value or short buffer returns zero");
    for (k = 0; k < size; k++) CHECK(out[k] == 0xAA, "a refused encoding writes nothing");
    symx_cover("refused"); free(out); return;
  }
  CHECK(l == (int)need, "encoded length is the length of the code point");
  for (k = need; k < size; k++) CHECK(out[k] == 0xAA, "nothing is written after the encoding");
  for (k = 0; k < need; k++) buf[k] = out[k];
  buf[need] = symx_u8("next"); /* whatever follows must not matter */
  if (which == 0) dl = r_utf8_mbtowc(&back, buf, buf + need + 1);
  else if (which == 1) dl = r_utf16_mbtowc(&back, buf, buf + need + 1);
  else if (which == 2) dl = (int)rpa_grep_utf8_mbtowc(&back, buf, buf + need + 1);
  else dl = (int)rpa_grep_utf16_mbtowc(&back, buf, buf + need + 1);
  CHECK(dl == l, "decoding the encoding consumes it exactly");
  CHECK(back == wc, "decoding the encoding returns the code point");
  /* decoding a prefix never yields the full character */
  symx_cover("roundtrip"); free(out);
}
static void fold(void) {
  unsigned long c = symx_u64("c"), i = r_charicase(c);
  CHECK(r_charicase(i) == c, "case exchange is an involution");
  if (c < 128) {
    int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
    CHECK(r_charlow(c) == (up ? c + 32 : c), "r_charlow is ASCII lower case");
    CHECK(r_charhigh(c) == (lo ? c - 32 : c), "r_charhigh is ASCII upper case");
    CHECK(i == (up ? c + 32 : lo ? c - 32 : c), "case exchange on ASCII");
    symx_cover("fold");
  }
}
int main(void) {
  switch (symx_choose("kind", 0, 2)) { case 0: decode(); break; case 1: encode(); break; default: fold(); }
  symx_cover("end"); return 0;
}
