/* P10: emission and abort directives */
#include "p_common.h"
#ifndef NIN
#define NIN 3
#endif
#ifndef ND
#define ND 2
#endif
#ifndef GHI
#define GHI 6
#endif
#ifndef GLO
#define GLO 0
#endif
#ifndef OFF
#define OFF 2
#endif
static void grammars(unsigned g) {
  switch (g) {
  case 0: g_rule("S", n_op(N_SEQ, n_op(N_ALT, n_op(N_SEQ, n_ref(1), n_ref(2)), n_ref(2)), n_q(n_chr('c'), QOPT))); g_rule("A", n_op(N_SEQ, n_chr('a'), n_q(n_ref(2), QOPT))); g_rule("B", n_op(N_ALT, n_chr('b'), n_chr('c'))); break;
  case 1: g_rule("S", n_q(n_ref(1), QMUL)); g_rule("A", n_op(N_ALT, n_op(N_MIN, n_ref(2), n_chr('b')), n_op(N_SEQ, n_chr('b'), n_q(n_ref(2), QMOP)))); g_rule("B", n_cls('a', 'c')); break;
  case 2: g_rule("S", n_op(N_ALT, n_op(N_SEQ, n_ref(0), n_ref(1)), n_ref(2))); g_rule("A", n_op(N_SEQ, n_chr('a'), n_q(n_ref(2), QOPT))); g_rule("B", n_op(N_ALT, n_chr('b'), n_chr('c'))); break;
  case 3: g_rule("S", n_op(N_SEQ, n_not(n_ref(1)), n_ref(2))); g_rule("A", n_op(N_SEQ, n_chr('a'), n_chr('b'))); g_rule("B", n_q(n_op(N_ALT, n_ref(1), n_cls('a', 'c')), QMUL)); break;
  case 4: g_rule("S", n_op(N_ALT, n_ref(1), n_ref(2))); g_rule("A", n_op(N_ALT, n_op(N_SEQ, n_ref(1), n_chr('c')), n_op(N_SEQ, n_ref(2), n_chr('a')))); g_rule("B", n_op(N_SEQ, n_chr('b'), n_q(n_ref(2), QOPT))); break;
  case 5: g_rule("S", n_op(N_SEQ, n_q(n_ref(1), QOPT), n_q(n_chr('c'), QOPT))); g_rule("A", n_op(N_SEQ, n_q(n_chr('a'), QMOP), n_q(n_ref(2), QOPT))); g_rule("B", n_op(N_SEQ, n_chr('b'), n_ref(1))); break;
  case 6: g_rule("S", n_op(N_ALT, n_op(N_SEQ, n_ref(1), n_chr('c')), n_ref(2))); g_rule("A", n_op(N_ALT, n_op(N_SEQ, n_ref(0), n_chr('b')), n_chr('a'))); g_rule("B", n_chr('b')); break;
  }
}
static const char *const ALIAS[] = { "", "NAME_B " };
int main(void) {
  static char buf[NIN + 4]; char *in; unsigned g, nd_, d, n, i, icase; rpadbex_t *db; rpastat_t *st; rarray_t *rs; long r, rid, r0; int l, k, l0, cfg; rpa_errinfo_t err;
  o_anylr = 1; g_reset(); grammars(g = symx_choose("grammar", GLO, GHI)); cfg = (int)symx_choose("config", CLO, 3);
  db = g_db(cfg & 1, cfg >> 1);
  nd_ = symx_choose("directives", NDLO, ND);
  for (d = 0; d < nd_; d++) {
    unsigned op = symx_choose("op", OPLO, OPHI), ru; static const char *const nm[] = { "emit ", "noemit ", "emitid ", "abort " };
    if (op < 2) { tx(op ? "#!emitall\n" : "# ! emitnone\n"); for (k = 0; k < ngr; k++) gr[k].emit = (int)op; continue; }
    op -= 2; ru = op / 4; op %= 4; tx("#!"); tx(nm[op]); tx(gr[ru].name);
    switch (op) { case 0: gr[ru].emit = 1; break; case 1: gr[ru].emit = 0; break; case 3: symx_assume(!(g == 6 && ru == 1)); /* part of the growth of an indirectly left recursive rule */ gr[ru].abortf = 1; break;
    case 2: { static const int ids[] = { 1, 70000, 2147483647 }; gr[ru].emit = 1; gr[ru].uid = ids[d % 3]; tx(" "); tx(ALIAS[d & 1]); txnum((unsigned)ids[d % 3], 0); for (k = gn; gtxt[k] != '#'; k--) ; for (; k < gn; k++) gtxt[k] = gtxt[k + 1]; gn--; } }
    tx("\n");
  }
  g_text(); g_load(db);
  st = rpa_stat_create(db, 1024); CHECK(st != 0, "a matching context is created"); rs = rpa_records_create();
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  n = symx_choose("n", 0, NIN); symx_bytes(buf, NIN + 1 + OFF, "in"); in = buf + OFF;
  for (i = 0; i < n; i++) or_in[i] = (unsigned char)in[i];
  or_n = (int)n;
  r = rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, in, buf, in + n, rs);
  l = o_match(0, 0);
  if (l < 0) { int a = or_abort - 1; symx_cover("abort");
    CHECK(r < 0, "a failing rule with the abort directive stops the parse");
    CHECK(rpa_stat_lasterror(st) == RPA_E_RULEABORT, "an abort is reported as such");
    CHECK(rpa_stat_lasterrorinfo(st, &err) == 0 && err.code == RPA_E_RULEABORT, "the details of an abort are available");
    CHECK((err.mask & RPA_ERRINFO_NAME) && strcmp(err.name, gr[a].name) == 0, "an abort names the rule that failed");
    if (gr[a].uid) CHECK((err.mask & RPA_ERRINFO_RULEUID) && err.ruleuid == gr[a].uid, "an abort carries the identifier of the rule that failed");
    if (!gr[a].lrec) CHECK((err.mask & RPA_ERRINFO_OFFSET) && err.offset == or_abortpos + OFF, "an abort is located where the rule failed");
    CHECK(rpa_stat_match(st, rid, RPA_ENCODING_BYTE, in, buf, in + n) < 0, "matching aborts where parsing does");
  } else {
    CHECK(r == l, "directives do not change what is matched");
    CHECK(rpa_stat_lasterror(st) == 0, "no abort unless a designated rule fails");
    CHECK(rpa_stat_match(st, rid, RPA_ENCODING_BYTE, in, buf, in + n) == r, "matching agrees with parsing");
    CHECK((long)rpa_records_length(rs) == nor, "exactly the emitting rules leave records");
    for (k = 0; k < nor; k++) {
      rparecord_t *p = rpa_records_slot(rs, k); int ru = orc[k].rule;
      CHECK((p->type & (RPA_RECORD_START | RPA_RECORD_END)) == (unsigned)orc[k].type && p->rule && strcmp(p->rule, gr[ru].name) == 0 && p->inputoff == (unsigned long)orc[k].off + OFF && p->input == buf + p->inputoff && p->inputsiz == (unsigned long)orc[k].siz, "the records are those of the emitting rules");
      if (gr[ru].uid) { CHECK((long)p->ruleuid == gr[ru].uid, "a record carries the identifier given to its rule"); symx_cover("uid"); }
      CHECK((long)p->ruleid == rpa_dbex_lookup_s(db, gr[ru].name), "a record carries its rule's number");
    }
    if (nor) symx_cover("records"); else if (l > 0) symx_cover("silent match");
  }
  symx_cover("end");
  return 0;
}
