/* composed patterns: nesting, repetition of repetitions, alternation inside repetition */
#include "x_common.h"
#ifndef N
#define N 4
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef NQ
#define NQ 14
#endif
#ifndef ALO
#define ALO 0
#endif
#ifndef AHI
#define AHI 3
#endif
int main(void) {
  unsigned char sub[4 * N + 1]; unsigned i, w[N], pos = 0, end[N + 1]; long st; int root; rex_nfasimulator_t *si; rexdb_t *nfa;
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(), k, best = 0; unsigned m, want = 0;
#if SHAPE == 0            /* ((A q) q) q */
  xg_s("(("); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_s(")"); xg_quant(NQ); xg_s(")"); xg_quant(NQ);
#elif SHAPE == 1          /* A q A q */
  xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1);
#elif SHAPE == 2          /* (A q | A A q) q A */
  xg_s("("); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_s("|"); xg_atom("a", ALO, AHI); xg_atom("a", 0, 1); xg_quant(3); xg_s(")"); xg_quant(NQ); xg_atom("a", 0, 1);
#elif SHAPE == 3          /* A q B q (C q)q over two adjacent atoms inside a repeated group */
  xg_s("(a"); xg_quant(NQ); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_s(")"); xg_quant(NQ); xg_s("|b"); xg_quant(3);
#else                     /* one atom */
  xg_atom("a", ALO, AHI); xg_quant(NQ);
#endif
  xg_t[xg_n] = 0;
  root = x_parse(xg_t, xg_n);
  CHECK(root >= 0, "generated pattern is well formed");
  nfa = rex_db_create(REXDB_TYPE_NFA);
  st = rex_db_addexpression_s(nfa, (size_t)-1, xg_t, 42);
  CHECK(st >= 0, "a well-formed pattern is accepted"); if (st < 0) return 0;
  xs_n = N; end[0] = 0;
  for (i = 0; i < N; i++) {
    uint32_t c;
#if AHI < XG_ASCII
    w[i] = 1;
#else
    w[i] = symx_choose("w", 1, 4);
#endif
    c = symx_u32("c");
    if (w[i] == 1) symx_assume(c < 0x80); else if (w[i] == 2) { symx_assume(c >= 0x80); symx_assume(c < 0x800); } else if (w[i] == 3) { symx_assume(c >= 0x800); symx_assume(c < 0x10000); } else { symx_assume(c >= 0x10000); symx_assume(c < 0x110000); }
    xs_c[i] = c;
    if (w[i] == 1) sub[pos++] = c;
    else if (w[i] == 2) { sub[pos++] = 0xC0 | c >> 6; sub[pos++] = 0x80 | (c & 0x3F); }
    else if (w[i] == 3) { sub[pos++] = 0xE0 | c >> 12; sub[pos++] = 0x80 | (c >> 6 & 0x3F); sub[pos++] = 0x80 | (c & 0x3F); }
    else { sub[pos++] = 0xF0 | c >> 18; sub[pos++] = 0x80 | (c >> 12 & 0x3F); sub[pos++] = 0x80 | (c >> 6 & 0x3F); sub[pos++] = 0x80 | (c & 0x3F); }
    end[i + 1] = pos;
  }
  si = rex_nfasimulator_create();
  rex_nfasimulator_run(si, nfa, st, (const char *)sub, pos);
  for (k = 0; k < r_array_length(si->accepts); k++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(si->accepts, k); CHECK(a->state->userdata == 42 && a->count <= N && end[a->count] == a->inputsize, "the accept names the pattern"); if (a->inputsize > best) best = a->inputsize; }
  m = x_mt(root, 1);
  for (i = 1; i <= N; i++) want = (m >> i) & 1 ? end[i] : want;
  CHECK(best == want, "longest prefix in the language of the pattern");
  if (best == pos) symx_cover("all"); if (best == 0) symx_cover("none");
  rex_nfasimulator_destroy(si); rex_db_destroy(nfa);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
