/* every string over the pattern alphabet: accepted exactly when well formed, and then matching by the textbook meaning */
#include "x_common.h"
#ifndef L
#define L 4
#endif
#ifndef N
#define N 3
#endif
#ifndef ALPHA
#define ALPHA "ab.()|*?+{}[]-^2,\\"
#endif
static const char alpha[] = ALPHA;
int main(void) {
  char pat[8]; unsigned n, i; int root; size_t mem = r_debug_get_allocmem(), live = symx_live_heap(), ml; long st; unsigned char sub[8];
  rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA);
  rex_nfasimulator_t *si = rex_nfasimulator_create();
  n = symx_choose("n", 0, L);
  for (i = 0; i < n; i++) pat[i] = alpha[symx_choose("p", 0, sizeof(alpha) - 2)];
  char *p = malloc(n ? n : 1); memcpy(p, pat, n);
  root = x_parse(pat, n);
  st = rex_db_addexpression(nfa, (size_t)-1, p, n, 7);
  CHECK((st >= 0) == (root >= 0), "a pattern is accepted exactly when it is well formed");
  if (st < 0) { symx_cover("rejected"); CHECK(rex_db_numstates(nfa) == 0, "a rejected pattern leaves no states"); }
  else {
    unsigned m, want = 0; size_t k, best = 0;
    xs_n = N; for (i = 0; i < N; i++) { sub[i] = symx_u8("s"); symx_assume(sub[i] < 0x80); xs_c[i] = sub[i]; }
    rex_nfasimulator_run(si, nfa, st, (const char *)sub, N);
    for (k = 0; k < r_array_length(si->accepts); k++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(si->accepts, k); CHECK(a->state->userdata == 7 && a->count == a->inputsize, "the accept names the pattern"); if (a->inputsize > best) best = a->inputsize; }
    m = x_mt(root, 1);
    for (i = 1; i <= N; i++) want = (m >> i) & 1 ? i : want;
    CHECK(best == want, "longest prefix in the language of the pattern");
    symx_cover("matched");
  }
  rex_nfasimulator_destroy(si); rex_db_destroy(nfa); free(p);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
