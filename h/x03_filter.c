/* the bit filter admits every character sequence the automaton can accept, whatever the hash geometry */
#include "x_common.h"
#ifndef NQ
#define NQ 4
#endif
#ifndef ALO
#define ALO 0
#endif
#ifndef AHI
#define AHI 8
#endif
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); static const unsigned char geo[][2] = { { 3, 5 }, { 1, 8 }, { 2, 4 }, { 4, 3 }, { 2, 7 } }; unsigned i, k, q = REX_DFA_STARTSTATE, g, shift = 0, ok = 0; long st; uint32_t c[4];
  rexdb_t *nfa, *dfa; rexdfa_t *t;
  symx_fork_select();
  switch (symx_choose("shape", 0, 2)) {
  case 0: xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1); break;
  case 1: xg_s("("); xg_atom("a", ALO, AHI); xg_s("|b"); xg_atom("a", ALO, AHI); xg_s(")"); xg_quant(NQ); xg_s("c"); break;
  case 2: xg_atom("a", ALO, AHI); xg_quant(NQ); xg_s("bcde"); break;
  }
  g = symx_choose("geo", 0, 4);
  nfa = rex_db_create(REXDB_TYPE_NFA); st = rex_db_addexpression(nfa, (size_t)-1, xg_t, xg_n, 1); CHECK(st >= 0, "a well-formed pattern is accepted");
  dfa = rex_db_createdfa(nfa, st); t = rex_db_todfa(dfa, 0);
  CHECK(rex_dfa_hash(t, geo[g][0], geo[g][1]) == 0, "hash is built");
  CHECK(t->hbytes == geo[g][0] && t->hbits == geo[g][1] && t->hsize * 8 >= REX_DFA_HASHSIZE(geo[g][0], geo[g][1]), "geometry recorded");
  CHECK(rex_dfa_hash(t, 8, 5) < 0, "a table that is too large is refused");
  for (k = 0; k < geo[g][0]; k++) {
    c[k] = symx_u32("c"); shift = shift << geo[g][1] | (c[k] & ((1u << geo[g][1]) - 1));
    if (!ok) { q = rex_dfa_next(t, q, c[k]); if (q == REX_DFA_DEADSTATE) { symx_cover("dead"); symx_end_path(); } if (rex_dfa_state(t, q)->type == REX_STATETYPE_ACCEPT) ok = 1; }
  }
  /* either a prefix is accepted already (then anything may follow) or the automaton is still alive */
  CHECK(REX_BITARRAY_GET(t->bits, shift), "the filter admits a beginning the automaton does not rule out");
  symx_cover(ok ? "accepted" : "alive");
  rex_dfa_destroy(t); rex_db_destroy(dfa); rex_db_destroy(nfa);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
