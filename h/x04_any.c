/* arbitrary bytes as a pattern: terminates, in bounds, accepted or refused, nothing left behind */
#include "x_common.h"
#ifndef L
#define L 3
#endif
#ifndef REGEX
#define REGEX 0
#endif
int main(void) {
  static const char *const pre[] = { "", "[", "[^a-", "a{", "(a|", "[#", "[#x", "a\\", "(a{2,3}", "[a-#0", "a {2 ,", "a|", "(((", "[\xC3\xA9-" };
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); unsigned i, n, m; unsigned char *b; long st = 0;
  n = symx_choose("n", 0, L); i = symx_choose("pre", 0, sizeof(pre) / sizeof(pre[0]) - 1); m = strlen(pre[i]);
  b = malloc(m + n); memcpy(b, pre[i], m); for (i = 0; i < n; i++) 
#if REGEX
    { static const char al[] = "ab()[]{}*+?|\\^-,.#2\n\xC3"; b[m + i] = al[symx_choose("p", 0, sizeof(al) - 2)]; }
#else
    b[m + i] = symx_u8("p");
#endif

  /* a count of more than one digit only asks for more memory */
  for (i = 0; i + 1 < n; i++) symx_assume(!(b[m + i] >= '0' && b[m + i] <= '9' && b[m + i + 1] >= '0' && b[m + i + 1] <= '9'));
  if (m && b[m - 1] >= '0' && b[m - 1] <= '9' && n) symx_assume(!(b[m] >= '0' && b[m] <= '9'));
#if REGEX
  { rexregex_t *re = rex_regex_create((const char *)b, m + n); const char *where; static const char sub[] = "aXb\xC3\xA9";
    if (re) { int r = rex_regex_match(re, REX_ENCODING_UTF8, sub, sub + 5); CHECK(r >= 0 && r <= 5, "match length within the subject"); r = rex_regex_scan(re, REX_ENCODING_BYTE, sub, sub + 5, &where); CHECK(r >= 0 && r <= 5, "match length within the subject"); symx_cover("accepted"); } else symx_cover("refused");
    rex_regex_destroy(re); }
#else
  { rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA); rex_nfasimulator_t *si = rex_nfasimulator_create(); long first = -1, acc = 0; size_t before, k; int had = symx_choose("had", 0, 1);
    if (had) { first = rex_db_addexpression_s(nfa, (size_t)-1, "ab", 1); CHECK(first >= 0, "first expression accepted"); }
    before = rex_db_numstates(nfa);
    st = rex_db_addexpression(nfa, (size_t)first, (const char *)b, m + n, 2);
    if (st < 0) { symx_cover("refused"); CHECK(rex_db_numstates(nfa) == before, "a refused pattern leaves the database as it was"); }
    else { symx_cover("accepted"); CHECK(!had || st == first, "the common start state is returned"); first = st; }
    if (first >= 0) { rex_nfasimulator_run(si, nfa, first, "ab", 2);
      for (k = 0; k < r_array_length(si->accepts); k++) if (((rex_accept_t *)r_array_slot(si->accepts, k))->state->userdata == 1) acc++;
      CHECK(acc == had, "the earlier expression still matches"); }
    /* the database can be added to afterwards */
    st = rex_db_addexpression_s(nfa, (size_t)first, "ac", 3); CHECK(st >= 0, "a later expression is accepted");
    rex_nfasimulator_run(si, nfa, st, "ac", 2); for (acc = k = 0; k < r_array_length(si->accepts); k++) if (((rex_accept_t *)r_array_slot(si->accepts, k))->state->userdata == 3) acc++; CHECK(acc == 1, "the later expression matches");
    rex_nfasimulator_destroy(si); rex_db_destroy(nfa); }
#endif
  free(b);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
