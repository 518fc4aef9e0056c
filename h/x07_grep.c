/* the regular-expression grep: exactly the matching lines, or exactly the matches, with either engine */
#include "x_common.h"
#include "rexgrep.h"
#ifndef N
#define N 4
#endif
#ifndef PLO
#define PLO 0
#endif
#ifndef PHI
#define PHI 8
#endif
#ifndef DFA
#define DFA 1
#endif
#ifndef BHI
#define BHI 3
#endif
#ifndef BSET
#define BSET 'a', 'b', '\n', 'c', ' '
#endif
/* as given to the tool (where blanks are ordinary characters) and in the notation of the reference parser */
static const struct { const char *tool, *ref; } pats[] = { {"ab", "ab"}, {"a|bc", "a|bc"}, {"ab*c", "ab*c"}, {"(ab)+", "(ab)+"}, {"[^b]a", "[^b]a"}, {"b{2}", "b{2}"}, {"a\\nb?", "a\\nb?"}, {"a b", "a\\ b"}, {"ab?a*b", "ab?a*b"},
  {"\xC3\xA9", "\xC3\xA9"}, {"a\xC3\xA9?b", "a\xC3\xA9?b"}, {"[\xC3\xA9-\xC3\xAB]a", "[\xC3\xA9-\xC3\xAB]a"}, {".a", ".a"}, {"b*", "b*"}, {"aaa|b", "aaa|b"} };
static unsigned char b[N + 1], exp_[16 * N + 64]; static unsigned en;
static void put(const void *p, unsigned n) { memcpy(exp_ + en, p, n); en += n; }
static int root[2], np;
static unsigned mt(unsigned m) { unsigned r = x_mt(root[0], m); if (np > 1) r |= x_mt(root[1], m); return r; }
/* matches of the bytes s..e; whole: the first one outputs the whole range */
static void search(unsigned s, unsigned e, int whole, int name) {
  unsigned pos[N + 2], p = s, i = 0, k, best; xs_n = 0;
  while (p < e) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, b + p, b + e); xs_c[xs_n] = wc; pos[xs_n++] = p; p += inc; }
  pos[xs_n] = e;
  while (i < xs_n) {
    unsigned m = mt(1u << i); best = 0; for (k = i + 1; k <= xs_n; k++) if ((m >> k) & 1) best = k;
    if (!best) { i++; continue; }
    symx_cover("found"); if (i) symx_cover("later");
    if (name) put("file:", 5);
    if (whole) { put(b + s, e - s); return; }
    put(b + pos[i], pos[best] - pos[i]); put("\n", 1); i = best;
  }
}
int main(void) {
  static const unsigned char set[] = { BSET };
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(), len; unsigned i, n, p0, lines, name; rexgrep_t *g; rbuffer_t buf; const char *o; char *in;
  symx_fork_select();
  p0 = symx_choose("pattern", PLO, PHI); np = 1 + symx_choose("two", 0, TWO); lines = symx_choose("lines", 0, 1); name = symx_choose("name", 0, NAME);
  root[0] = x_parse(pats[p0].ref, strlen(pats[p0].ref)); CHECK(root[0] >= 0, "well formed");
  g = rex_grep_create(); CHECK(g != 0, "created");
  buf.s = (char *)pats[p0].tool; buf.size = strlen(pats[p0].tool); CHECK(rex_grep_load_pattern(g, &buf) == 0, "the pattern is loaded");
  if (np > 1) { unsigned p1 = (p0 + 1 + symx_choose("pattern", 0, 1)) % (PHI + 1); root[1] = x_parse(pats[p1].ref, strlen(pats[p1].ref)); buf.s = (char *)pats[p1].tool; buf.size = strlen(pats[p1].tool); CHECK(rex_grep_load_string_pattern(g, &buf) == 0, "a second pattern is loaded"); }
  g->greptype = lines ? REX_GREPTYPE_SCANLINES : REX_GREPTYPE_MATCH; g->showfilename = name; g->filename = (void *)"file";
#if DFA
  { rexdb_t *d = rex_db_createdfa(g->nfa, g->startuid); g->dfa = rex_db_todfa(d, 0); rex_dfa_hash(g->dfa, REX_HASH_BYTES, REX_HASH_BITS); rex_db_destroy(d); g->usedfa = 1; }
#endif
  n = symx_choose("n", 0, N); in = malloc(n);
  for (i = 0; i < n; i++) {
#if DFA
    unsigned char c = set[symx_choose("c", 0, BHI)]; if (c < 0x80 && c != '\n') { unsigned char h = symx_u8("h"); symx_assume(h < 2); c |= h << 7; } b[i] = c;
#else
    b[i] = symx_u8("c");
#endif
    in[i] = b[i]; }
  buf.s = in; buf.size = n;
  cap_begin(); rex_grep_scan_buffer(g, &buf); o = cap_end(&len);
  if (!lines) search(0, n, 0, name);
  else { unsigned s = 0; for (i = 0; i < n; i++) if (symx_concretize(b[i] == '\n') || i + 1 == n) { search(s, i + 1, 1, name); s = i + 1; } }
  CHECK(len == en, "the amount of output is exactly that of the matches"); for (i = 0; i < en; i++) CHECK(o[i] == (char)exp_[i], "the output is exactly the matches, unchanged and in order");
  CHECK(g->scsize == n, "the bytes scanned are counted");
  if (!en) symx_cover("none");
  rex_grep_destroy(g); free(in); CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
