/* the grammar grep: exactly the matches or exactly the matching lines, in the encoding in force, and the exit status */
#include "x_common.h"
#include "rpagrep.h"
#ifndef N
#define N 3
#endif
#ifndef PLO
#define PLO 0
#endif
#ifndef PHI
#define PHI 7
#endif
#ifndef OPT
#define OPT 0
#endif
#ifndef MODE
#define MODE 0   /* 0 utf-8, 1 byte forced, 2 utf-16 by its mark, 3 utf-16 forced with or without mark */
#endif
/* the grammar, and the same set of texts in the notation of the reference parser (chosen so that ordered choice and greed find the longest text) */
static const struct { const char *g, *ref; } pats[] = { {"r ::= 'ab'", "ab"}, {"r ::= 'a' | 'bc'", "a|bc"}, {"r ::= 'a' 'b'* 'c'", "ab*c"}, {"r ::= ('ab')+", "(ab)+"}, {"x ::= 'b'+\nr ::= 'a' <x>?", "ab*"}, {"r ::= 'a'*", "a*"}, {"r ::= 'b' ([#0xA] | 'a')", "b(\\n|a)"}, {"r ::= [a-b] 'a'", "[ab]a"},
  {"r ::= '\xC3\xA9'", "\xC3\xA9"}, {"r ::= 'a' '\xE2\x82\xAC'?", "a\xE2\x82\xAC?"}, {"r ::= [\xC4\x80-\xC4\xBF] 'a'*", "[\xC4\x80-\xC4\xBF]a*"} };
static unsigned char exp_[16 * N + 64]; static unsigned en; static unsigned char *b; static unsigned nb; static int root, wide, icase;
static void put(const void *p, unsigned n) { memcpy(exp_ + en, p, n); en += n; }
static int dec(ruint32 *wc, unsigned p, unsigned e) { return wide ? r_utf16_mbtowc(wc, b + p, b + e) : MODE == 1 ? (*wc = b[p], 1) : r_utf8_mbtowc(wc, b + p, b + e); }
/* what is shown of a text: its characters in UTF-8, those a terminal might misread as NUL */
static void show(unsigned p, unsigned e) {
  while (p < e) { ruint32 wc; unsigned char o[8]; int n = wide ? r_utf16_mbtowc(&wc, b + p, b + e) : r_utf8_mbtowc(&wc, b + p, b + e); p += n;
    if (symx_concretize((wc < 32 && wc != '\t' && wc != '\n' && wc != '\r') || (wc >= 127 && wc <= 255))) wc = 0;
    n = r_utf8_wctomb(wc, o, sizeof o); put(o, n); }
}
enum { SCAN, LINES, MATCH };
static void search(unsigned s, unsigned e, int how, const char *file, int *shown) {
  static unsigned pos[2 * N + 4]; unsigned p = s, i = 0, k, best; xs_n = 0;
  while (p < e) { ruint32 wc; int inc = dec(&wc, p, e); if (icase && symx_concretize(wc >= 'A' && wc <= 'Z')) wc += 32; xs_c[xs_n] = wc; pos[xs_n++] = p; p += inc; }
  pos[xs_n] = e;
  while (i < xs_n) {
    unsigned m = x_mt(root, 1u << i); best = 0; for (k = i + 1; k <= xs_n; k++) if ((m >> k) & 1) best = k;
    if (best) {
      symx_cover("found"); if (i) symx_cover("later");
      if (file && !*shown) put(file, strlen(file)), put(":\n", 2);
      *shown = 1;
      if (how == LINES) { show(s, e); return; }
      show(pos[i], pos[best]); put("\n", 1); i = best;
    } else i++;
    if (how == MATCH) return;
  }
}
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(), len; unsigned i, how, p0, bom; int shown = 0; rpa_grep_t *g; rpa_buffer_t buf; const char *o, *file; char *in;
  p0 = symx_choose("grammar", PLO, PHI); how = symx_choose("how", 0, 2); file = symx_choose("name", 0, NAME) ? "f" : 0; icase = symx_choose("icase", 0, ICASE); bom = 0;
  root = x_parse(pats[p0].ref, strlen(pats[p0].ref)); CHECK(root >= 0, "well formed");
  g = rpa_grep_create(); CHECK(g != 0, "created"); memset(&buf, 0, sizeof buf);
  buf.s = (char *)pats[p0].g; buf.size = strlen(pats[p0].g); CHECK(rpa_grep_load_pattern(g, &buf) == 0, "the grammar is loaded");
  if (symx_choose("plain", 0, OPT)) rpa_grep_optimizations(g, 0);
  CHECK(rpa_dbex_compile(g->hDbex) == 0, "the grammar is compiled");
  g->greptype = how == SCAN ? RPA_GREPTYPE_SCAN : how == LINES ? RPA_GREPTYPE_SCANLINES : RPA_GREPTYPE_MATCH; g->icase = icase; g->filename = (void *)file;
#if MODE == 1
  g->forceEncoding = RPA_GREP_FORCE_BYTE;
#elif MODE >= 2
  wide = 1; bom = 2; if (MODE == 3) { g->forceEncoding = RPA_GREP_FORCE_UTF16; bom = 2 * symx_choose("mark", 0, 1); }
#endif
  symx_fork_select();
  nb = symx_choose("n", 0, N); in = malloc(nb + bom); b = malloc(nb + 1);
  if (bom) in[0] = (char)0xFF, in[1] = (char)0xFE;
  for (i = 0; i < nb; i++) { b[i] = symx_u8("c"); in[bom + i] = b[i]; }
#if MODE == 0
  if (nb >= 2) symx_assume(!(b[0] == 0xFF && b[1] == 0xFE));
#elif MODE == 3
  if (!bom && nb >= 2) symx_assume(!(b[0] == 0xFF && b[1] == 0xFE));
#endif
  if (icase) for (i = 0; i < nb; i++) { symx_assume(b[i] < 0x80); }
  buf.s = in; buf.size = nb + bom;
  cap_begin(); rpa_grep_scan_buffer(g, &buf); o = cap_end(&len);
  if (how != LINES) search(0, nb, how, file, &shown);
  else { unsigned s = 0, st = wide ? 2 : 1; for (i = 0; i < nb; i += st) if ((i + st <= nb && symx_concretize(wide ? b[i] == '\n' && b[i + 1] == 0 : b[i] == '\n')) || i + st >= nb) { unsigned e = i + st < nb ? i + st : nb; if (wide && nb - e == 1 && !symx_concretize(b[i] == '\n' && b[i + 1] == 0)) e = nb; search(s, e, LINES, file, &shown); s = e; if (s >= nb) break; } }
  CHECK(g->ret == (shown ? 0 : 1), "the exit status says whether anything matched");
  CHECK(len == en, "the amount of output is exactly that of the matches"); for (i = 0; i < en; i++) CHECK(o[i] == (char)exp_[i], "the output is exactly the matches, in order");
  if (!shown) symx_cover("none");
  rpa_grep_destroy(g); free(in); free(b); CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
