/* P02: optimizations, first-character filter and result cache change nothing that can be observed */
#include "p_gen.h"
#include "rpa/rpastatpriv.h"
#ifndef NIN
#define NIN 3
#endif
typedef struct { long len, slen, where; int nrec; struct { unsigned type; const char *rule; unsigned long off, siz, uid; } r[40]; } res_t;
static rpastat_t *sts[4]; static rpadbex_t *dbs[4]; static rarray_t *rss[8];
static void run(res_t *o, int cfg, rarray_t *rs, const char *in, unsigned n) {
  rpastat_t *st = sts[cfg & 3]; long rid = rpa_dbex_lookup_s(dbs[cfg & 3], "S"), i; const char *w = 0;
  rpa_stat_cachedisable(st, !(cfg & 4));
  o->len = rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, in, in, in + n, rs);
  o->nrec = (int)rpa_records_length(rs); CHECK(o->nrec <= 40, "bounded number of records");
  for (i = 0; i < o->nrec; i++) { rparecord_t *p = rpa_records_slot(rs, i); o->r[i].type = p->type; o->r[i].rule = p->rule; o->r[i].off = p->inputoff; o->r[i].siz = p->inputsiz; o->r[i].uid = p->ruleuid; }
  CHECK(rpa_stat_match(st, rid, RPA_ENCODING_BYTE, in, in, in + n) == o->len, "matching and parsing consume the same");
  o->slen = rpa_stat_scan(st, rid, RPA_ENCODING_BYTE, in, in, in + n, &w); o->where = o->slen > 0 ? w - in : -1;
}
int main(void) {
  static char buf[NIN + 1]; static res_t base, o; unsigned n, i; int c, k;
  for (c = 0; c < 4; c++) {
    dbs[c] = rpa_dbex_create(); CHECK(dbs[c] != 0, "a database is created");
    rpa_dbex_cfgset(dbs[c], RPA_DBEXCFG_OPTIMIZATIONS, c & 1); rpa_dbex_cfgset(dbs[c], RPA_DBEXCFG_BITMAP, c >> 1); CHECK(rpa_dbex_open(dbs[c]) == 0, "a fresh database opens");
    sts[c] = rpa_stat_create(dbs[c], 4096); CHECK(sts[c] != 0, "a matching context is created"); rss[c] = rpa_records_create(); rss[c + 4] = rpa_records_create();
  }
  g_reset();
#ifdef RULES
  { static const char *gs[] = {
    "S ::= 'a' ('b'? - 'c')\n", "S ::= ('a' | 'b' | 'c'?) 'd'\n", "S ::= ('a'? | 'b') 'c'\n", "S ::= ('a' | 'b')+ 'c'?\n", "S ::= ('a' | [b-y] | 'z')+\n",
    "A ::= 'b'? 'a'?\nS ::= <A> 'c' | 'd'\n", "A ::= 'b'? 'a'?\nS ::= <A>? 'c' | 'd'\n", "S ::= ^'a' 'b'\n", "S ::= ('a'? ^'b') 'b'\n", "S ::= [#x1-#xff]+ | 'a'\n", "S ::= [#60-#70] [#x30-#x39]\n",
    "S ::= (('a' - 'b') | ('c' - 'c')) . \n", "S ::= (('a' | 'b') - ('b' | 'c'))+\n", "A ::= <S> | 'b'\nS ::= 'a' <A>?\n", "S ::= ('a' | ('b' | ('c' | 'd')))+\n", "S ::= ('a'+ | 'b'* | 'c'?) 'c'\n",
    "A ::= 'a'\nB ::= <A> | 'b'\nS ::= (<A> | <B>)+\n", "S ::= ('ab' | 'a' | 'b')+\n", "S ::= ([ab] | [^b] | 'c') .\n", "S ::= <S> 'a' | 'a' | 'b'\n", "S ::= <S> ('a' | 'b') | 'a'\n", "A ::= <S> 'x' | 'b'\nS ::= <A> 'y' | 'a'\n",
    "A ::= <S> 'x' | 'b'\nS ::= 'a' <A> | <A> | 'a'\n", "S ::= ('a' | 'b' | \\t | \\n | \\\\)+\n", "S ::= ('a' | \\. | .) 'b'\n", "S ::= (\"a\" | \"b\"+ | \"c\") 'a'\n", "S ::= ((('a')) | (('b' | 'c')))+\n", "S ::= ('a'|'b'|'c') - 'b'\n", "S ::= ('a'|'b')? ('a'|'c')* 'd'\n", "S ::= ^('a'|'b') ('a'|'b')\n",
    "S ::= 'x' | [#x3a-#x46]\n", "S ::= ([#x3a-#x46] | 'x') 'b'\n", "S ::= ('a' | [9-C])+\n", "S ::= ([x-z] | [#x7e-#x81] | [#xbe-#xc1])+\n", "S ::= ([a-c] | [b-f] | [A-Z])? 'b'\n" };
    const char *t = gs[symx_choose("grammar", 0, sizeof(gs) / sizeof(gs[0]) - 1)]; tx(t); }
#else
  gen_grammar();
  g_text();
#endif
  for (c = 0; c < 4; c++) g_load(dbs[c]);
  n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN, "in");
  run(&base, 0, rss[0], buf, n);
  if (base.len > 0) symx_cover("match"); if (base.where > 0) symx_cover("later");
  for (c = 1; c < 8; c++) {
    if (c == 5 || c == 6) continue;
    run(&o, c, rss[c], buf, n);
    CHECK(o.len == base.len, "the configuration does not change the length matched");
    CHECK(o.slen == base.slen && o.where == base.where, "the configuration does not change what a scan finds");
    CHECK(o.nrec == base.nrec, "the configuration does not change the number of records");
    for (k = 0; k < o.nrec; k++) {
      CHECK(o.r[k].type == base.r[k].type && strcmp(o.r[k].rule, base.r[k].rule) == 0, "the configuration does not change the record tree");
      CHECK(o.r[k].off == base.r[k].off && o.r[k].siz == base.r[k].siz && o.r[k].uid == base.r[k].uid, "the configuration does not change where records lie");
    }
  }
  symx_cover("end");
  return 0;
}
