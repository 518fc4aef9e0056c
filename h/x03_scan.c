/* match and scan of a compiled expression: leftmost longest, filter never hides a match, nothing outside the subject read */
#include "x_common.h"
#ifndef N
#define N 5
#endif
#ifndef NQ
#define NQ 3
#endif
#ifndef ALO
#define ALO 0
#endif
#ifndef AHI
#define AHI 3
#endif
#ifndef ENC
#define ENC 0      /* 0 bytes, 1 utf-8 of valid characters, 2 utf-8 of arbitrary bytes */
#endif
#ifndef NMIN
#define NMIN 0
#endif
#ifndef NLO
#define NLO 3
#endif
/* The filter hashes the low five bits: those are chosen from the ones the patterns use and two others, the rest is symbolic. */
#ifdef WINDOW     /* subjects longer than the filter's window: four letters (chosen by the solver) and two wide characters */
#define NW 2
static unsigned char byte(int ascii) { unsigned char c = symx_u8("c"); symx_assume(c == 'a' || c == 'b' || c == 'c' || c == 'q'); return c; }
#else
#define NW 5
static unsigned char byte(int ascii) { static const unsigned char los[] = { 1, 2, 31, 3, 9, 12, 0 }; unsigned char h = symx_u8("h"); symx_assume(h < (ascii ? 4 : 8)); return (unsigned char)(h << 5 | los[symx_choose("lo", 0, NLO)]); }
#endif
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); unsigned i, n, pos[N + 2], at, len; int root, r; rexregex_t *re; const char *where; unsigned char *b;
  symx_fork_select();
#ifdef WINDOW
  { static const char *const pats[] = { "abc", "ab(c|\xC3\xA9)", "a\xE2\x82\xAC" "b", "(ab|ba)c+", "[a\xC3\xA9]ab", "a(b\xC3\xA9)?c" }; xg_s(pats[symx_choose("pattern", 0, PHI)]); }
#else
  switch (symx_choose("shape", 0, 4)) {
  case 0: xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1); break;
  case 1: xg_s("("); xg_atom("a", ALO, AHI); xg_s("|b"); xg_atom("a", 0, 1); xg_quant(NQ); xg_s(")"); xg_atom("a", ALO, AHI); break;
  case 2: xg_s("("); xg_atom("a", ALO, AHI); xg_s("b)"); xg_quant(NQ); xg_s("a"); break;
  case 3: xg_atom("a", ALO, AHI); break;
  case 4: xg_atom("a", 0, 1); xg_atom("a", ALO, AHI); xg_s("a"); xg_quant(NQ); xg_atom("a", 0, 1); break;
  }
#endif
  xg_t[xg_n] = 0; root = x_parse(xg_t, xg_n); CHECK(root >= 0, "generated pattern is well formed");
  re = rex_regex_create_s(xg_t); CHECK(re != 0, "a well-formed pattern is accepted");
#if ENC == 1
  { unsigned char sub[4 * N]; unsigned p = 0; static const char *const wide[] = { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC4\xAB", "\xC2\x81" }; n = symx_choose("n", NMIN, N); xs_n = n; pos[0] = 0;
    for (i = 0; i < n; i++) { unsigned w = symx_choose("w", 0, NW);
      if (w == 0) { unsigned char c = byte(1); sub[p++] = c; xs_c[i] = c; }
      else { ruint32 wc; unsigned l = strlen(wide[w - 1]); memcpy(sub + p, wide[w - 1], l); r_utf8_mbtowc(&wc, sub + p, sub + p + l); xs_c[i] = wc; p += l; }
      pos[i + 1] = p; }
    b = malloc(p); memcpy(b, sub, p); }
#else
  n = symx_choose("n", 0, N); b = malloc(n); for (i = 0; i < n; i++) b[i] = byte(0);
#if ENC == 0
  xs_n = n; for (i = 0; i < n; i++) { xs_c[i] = b[i]; pos[i] = i; } pos[n] = n;
#else
  { unsigned p = 0; xs_n = 0; while (p < n) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, b + p, b + n); CHECK(inc > 0, "a character is decoded"); xs_c[xs_n] = wc; pos[xs_n++] = p; p += inc; } pos[xs_n] = n; }
#endif
#endif
  len = pos[xs_n];
  /* what should be found */
  { unsigned best = 0, s, k; at = 0;
    for (s = 0; s < xs_n; s++) { unsigned m = x_mt(root, 1u << s); for (k = s + 1; k <= xs_n; k++) if ((m >> k) & 1) best = k; if (best) { at = s; break; }
    }
    /* exact matching at the start and at the place found */
    r = rex_regex_match(re, ENC ? REX_ENCODING_UTF8 : REX_ENCODING_BYTE, (const char *)b, (const char *)b + len);
    CHECK(r == (best && at == 0 ? (int)pos[best] : 0), "the match length is the longest prefix in the language");
    where = (const char *)b + len;
    r = rex_regex_scan(re, ENC ? REX_ENCODING_UTF8 : REX_ENCODING_BYTE, (const char *)b, (const char *)b + len, &where);
    if (!best) { CHECK(r == 0, "no match is reported exactly when no position matches"); symx_cover("none"); }
    else { CHECK(r > 0, "a match is found"); CHECK(where == (const char *)b + pos[at], "the leftmost position"); CHECK(r == (int)(pos[best] - pos[at]), "the longest length there"); symx_cover("found"); if (at >= 2) symx_cover("later"); }
    r = rex_regex_scan(re, ENC ? REX_ENCODING_UTF8 : REX_ENCODING_BYTE, (const char *)b, (const char *)b + len, 0);
    CHECK((r > 0) == (best > 0), "the position may be omitted"); }
  rex_regex_destroy(re); free(b);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
