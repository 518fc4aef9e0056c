/* P05: left-recursive grammars against "a base followed by any number of recursive tails" */
#include "p_common.h"
#include "rpa/rpastatpriv.h"
#ifndef NIN
#define NIN 4
#endif
static int el(int k) {
  switch (k) { case 0: return n_chr('a'); case 1: return n_chr('b'); case 2: return n_ref(1); case 3: return n_cls('a', 'b'); case 4: return n_str("ab"); default: return n_op(N_SEQ, n_chr('b'), n_q(n_chr('a'), QOPT)); }
}
static int take(unsigned *x, unsigned n) { int r = (int)(*x % n); *x /= n; return r; }
int main(void) {
  static char buf[NIN + 1]; rpadbex_t *db; rpastat_t *st; rarray_t *rs = rpa_records_create(); unsigned n, i, x; long r, rid; int l, k, s, a, cfg;
  cfg = (int)symx_choose("cfg", CLO, CHI);
  db = rpa_dbex_create(); CHECK(db != 0, "a database is created");
  rpa_dbex_cfgset(db, RPA_DBEXCFG_OPTIMIZATIONS, cfg & 1); rpa_dbex_cfgset(db, RPA_DBEXCFG_BITMAP, (cfg >> 1) & 1); CHECK(rpa_dbex_open(db) == 0, "a fresh database opens");
  st = rpa_stat_create(db, 8192); CHECK(st != 0, "a matching context is created"); if (!(cfg & 4)) rpa_stat_cachedisable(st, 1);
  g_reset(); o_anylr = 1;
#if KIND == 0
  /* S ::= three branches, in any order, each a base or a recursive tail; A is a plain or right-recursive rule, or mentions S after its first character */
  x = symx_choose("g", 0, 5 * 6 * 6 * 6 * 8 - 1);
  { int sh = take(&x, 8), e[3], j, b[3]; for (j = 0; j < 3; j++) e[j] = take(&x, 6);
    /* which branches are recursive: 1..6 (not none, not all); shape 0: two branches, tail first; 7: two tails elements */
    int rec = sh >= 1 && sh <= 6 ? sh : 1, nb = sh == 0 ? 2 : 3;
    for (j = 0; j < nb; j++) b[j] = (rec >> j & 1) ? n_op(N_SEQ, n_ref(0), el(e[j])) : el(e[j]);
    if (sh == 7) { n_add(b[0], el(e[1])); nb = 2; b[1] = el(e[2]); }
    s = n_op(N_ALT, b[0], b[1]); if (nb == 3) n_add(s, b[2]);
    g_rule("S", s);
    switch (take(&x, 5)) { case 4: a = n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_chr('b'), n_q(n_chr('a'), QOPT)), n_ref(1)), n_chr('a')); break; case 0: a = n_op(N_ALT, n_chr('b'), n_chr('a')); break; case 1: a = n_op(N_ALT, n_op(N_SEQ, n_chr('a'), n_q(n_ref(1), QOPT)), n_chr('b')); break; case 2: a = n_op(N_SEQ, n_op(N_SEQ, n_chr('b'), n_ref(0)), n_q(n_chr('b'), QOPT)); break; default: a = n_op(N_ALT, n_op(N_SEQ, n_ref(1), n_chr('b')), n_chr('a')); break; }
    g_rule("A", a); }
#elif KIND == 2
  switch (symx_choose("g", 0, 3)) {
  case 0: /* E ::= E + T | E - T | T ; T ::= T * F | F ; F ::= ( E ) | a */
    g_rule("S", n_add(n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_ref(0), n_chr('+')), n_ref(1)), n_op(N_SEQ, n_op(N_SEQ, n_ref(0), n_chr('-')), n_ref(1))), n_ref(1)));
    g_rule("T", n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_ref(1), n_chr('*')), n_ref(2)), n_ref(2)));
    g_rule("F", n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_chr('('), n_ref(0)), n_chr(')')), n_chr('a'))); break;
  case 1: /* the base first, a right-recursive operand */
    g_rule("S", n_op(N_ALT, n_ref(1), n_op(N_SEQ, n_op(N_SEQ, n_ref(0), n_chr('+')), n_ref(1))));
    g_rule("T", n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_ref(2), n_chr('^')), n_ref(1)), n_ref(2)));
    g_rule("F", n_op(N_ALT, n_q(n_cls('a', 'c'), QMUL), n_op(N_SEQ, n_op(N_SEQ, n_chr('('), n_ref(0)), n_chr(')')))); break;
  case 2: /* member access and calls: S ::= S . a | S ( S? ) | a */
    g_rule("S", n_add(n_op(N_ALT, n_op(N_SEQ, n_op(N_SEQ, n_ref(0), n_chr('.')), n_ref(1)), n_add(n_op(N_SEQ, n_op(N_SEQ, n_ref(0), n_chr('(')), n_q(n_ref(0), QOPT)), n_chr(')'))), n_ref(1)));
    g_rule("T", n_cls('a', 'b')); break;
  default: /* several recursive rules side by side */
    g_rule("S", n_op(N_SEQ, n_ref(1), n_q(n_ref(2), QMOP)));
    g_rule("T", n_op(N_ALT, n_op(N_SEQ, n_ref(1), n_chr('a')), n_chr('b')));
    g_rule("F", n_op(N_ALT, n_op(N_SEQ, n_ref(2), n_ref(1)), n_chr('+'))); break;
  }
#else
  /* indirect: S and A (and B) refer to each other at their beginnings */
  x = symx_choose("g", 0, 5 * 4 * 4 * 4 * 4 - 1);
  { int sh = take(&x, 5), e0 = take(&x, 4), e1 = take(&x, 4), e2 = take(&x, 4), e3 = take(&x, 4);
    static const unsigned char EM[4] = { 0, 1, 3, 4 };
    e0 = EM[e0]; e1 = EM[e1]; e2 = EM[e2]; e3 = EM[e3];
    switch (sh) {
    case 0: g_rule("S", n_op(N_ALT, n_op(N_SEQ, n_ref(1), el(e0)), el(e1))); g_rule("A", n_op(N_ALT, n_op(N_SEQ, n_ref(0), el(e2)), el(e3))); break;
    case 1: g_rule("S", n_op(N_ALT, n_ref(1), el(e1))); g_rule("A", n_op(N_SEQ, n_op(N_SEQ, n_ref(0), el(e2)), n_q(el(e3), QOPT))); break;
    case 2: g_rule("S", n_op(N_ALT, n_ref(1), el(e0))); g_rule("A", n_op(N_SEQ, n_ref(2), el(e1))); g_rule("B", n_op(N_ALT, n_op(N_SEQ, n_ref(0), el(e2)), el(e3))); break;
    case 3: g_rule("S", n_op(N_ALT, n_op(N_SEQ, n_ref(0), el(e0)), n_ref(1))); g_rule("A", n_op(N_ALT, n_op(N_SEQ, n_ref(1), el(e1)), n_op(N_ALT, el(e2), el(e3)))); break;
    default: g_rule("S", n_add(n_op(N_ALT, n_ref(1), n_ref(2)), el(e0))); g_rule("A", n_op(N_SEQ, n_ref(0), el(e1))); g_rule("B", n_op(N_SEQ, n_ref(0), n_op(N_SEQ, el(e2), el(e3)))); break;
    } }
#endif
  g_text(); g_load(db);
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN, "in");
  for (i = 0; i < n; i++) or_in[i] = (unsigned char)buf[i];
  or_n = (int)n;
  r = rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, buf, buf, buf + n, rs);
  l = o_match(0, 0); CHECK(r == l, "left recursion matches the longest left-associative expansion");
#ifdef RECS
  CHECK(rpa_records_length(rs) == nor, "as many records as rules matched");
  for (k = 0; k < nor; k++) {
    rparecord_t *p = rpa_records_slot(rs, k);
    CHECK((p->type & (RPA_RECORD_START | RPA_RECORD_END)) == (unsigned)orc[k].type && strcmp(p->rule, gr[orc[k].rule].name) == 0, "the record tree of left recursion nests to the left");
    CHECK(p->inputoff == (unsigned long)orc[k].off && p->inputsiz == (unsigned long)orc[k].siz, "records of left recursion cover the text of each level");
  }
#endif
  if (l > 2) symx_cover("grown"); if (l == 0) symx_cover("no-match");
  symx_cover("end");
  return 0;
}
