/* P09: a matching context with a past against a fresh one */
#include "p_common.h"
void rpa_stat_cachedisable(rpastat_t *stat, unsigned int disable);
static const char G[] =
  "#!abort X\n"
  "S ::= <A> 'b' | 'a' <A>+ | <L>\n" "A ::= 'a' | 'c' <A>?\n" "L ::= <L> 'b' | 'd' | [#x3b1]\n" "R ::= '(' <R>? ')'\n" "Y ::= <A>* (<X> | 'b')\n" "X ::= 'x' 'y'\n" "K ::= ('a' | <A>)* - 'b'\n";
static const char *const RU[] = { "S", "L", "R", "Y", "K" };
static const unsigned EN[] = { RPA_ENCODING_BYTE, RPA_ENCODING_UTF8, RPA_ENCODING_ICASE_UTF16LE, RPA_ENCODING_ICASE_UTF8 };
#ifndef NA
#define NA 2
#endif
#ifndef NB
#define NB 2
#endif
#ifndef ENA
#define ENA 3
#endif
#ifndef ENB
#define ENB 3
#endif
enum { PARSE, MATCH, SCAN };
typedef struct { long r; long code; const char *w; rarray_t *rs; } out_t;
static void request(rpadbex_t *db, rpastat_t *st, int ru, int op, unsigned enc, const char *in, const char *start, const char *end, out_t *o) {
  long rid = rpa_dbex_lookup_s(db, RU[ru]); CHECK(rid >= 0, "a defined rule is found"); o->w = 0;
  o->r = op == PARSE ? rpa_stat_parse(st, rid, enc, in, start, end, o->rs) : op == MATCH ? rpa_stat_match(st, rid, enc, in, start, end) : rpa_stat_scan(st, rid, enc, in, start, end, &o->w);
  o->code = rpa_stat_lasterror(st);
}
static rpadbex_t *mkdb(void) {
  rpadbex_t *db = g_db(1, 1); CHECK(rpa_dbex_load(db, G, sizeof(G) - 1) == (long)sizeof(G) - 1, "a well-formed grammar is accepted in full"); rpa_dbex_close(db); CHECK(rpa_dbex_compile(db) == 0, "a well-formed grammar compiles"); return db;
}
int main(void) {
  static char a[NA + 2], b[NB + 2], deep[200]; rpadbex_t *db = mkdb(), *db2 = mkdb(); unsigned past, n, m, op, off; int ra, rb, i, same, pre; out_t A, B, C, D; rpastat_t *st, *fr; const char *bi, *ai, *bs; long k;
  A.rs = rpa_records_create(); B.rs = rpa_records_create(); C.rs = rpa_records_create(); D.rs = 0;
  st = rpa_stat_create(db, 512); fr = rpa_stat_create(db2, 512); CHECK(st != 0 && fr != 0, "a matching context is created");
  past = symx_choose("past", PLO, PHI);
  ra = (int)symx_choose("ra", 0, 4); rb = (int)symx_choose("rb", 0, 4); op = symx_choose("op", OPLO, OPHI);
  same = (int)symx_choose("same", 0, SAMEHI);
  switch (past) {
  case 0: /* any request on any input */
    n = symx_choose("n", NALO, NA); symx_bytes(a, NA, "a"); ai = a;
    request(db, st, ra, PARSE, EN[symx_choose("ea", 0, ENA)], ai, ai, ai + n, &A); symx_cover(A.r > 0 ? "past match" : A.r == 0 ? "past failure" : "past abort"); break;
  case 1: /* running out of stack */
    memset(deep, '(', sizeof(deep)); request(db, st, 2, PARSE, RPA_ENCODING_BYTE, deep, deep, deep + sizeof(deep), &A); CHECK(A.r < 0 && A.code != 0, "running out of stack is reported"); symx_cover("past exhaustion"); break;
  case 2: /* an abort by directive */
    request(db, st, 3, PARSE, RPA_ENCODING_BYTE, "ax", "ax", "ax" + 2, &A); break;
  case 3: rpa_stat_abort(st); break;
  case 4: request(db, st, ra, PARSE, RPA_ENCODING_UTF8, deep + 2, deep + 3, deep + 1, &A); CHECK(A.r < 0 && A.code != 0, "an invalid range is reported"); break;
  case 5: rpa_stat_cachedisable(st, 1); memset(deep, 'a', 8); request(db, st, ra, PARSE, RPA_ENCODING_BYTE, deep, deep, deep + 8, &A); rpa_stat_cachedisable(st, symx_choose("again", 0, 1)); break;
  case 6: /* a long input, then a scan */
    memset(deep, 'd', 8); deep[7] = 'b'; request(db, st, ra, PARSE, RPA_ENCODING_UTF8, deep, deep, deep + 8, &A); request(db, st, rb, SCAN, RPA_ENCODING_ICASE_UTF16LE, deep, deep, deep + 8, &A); break;
  }
  m = symx_choose("m", NBLO, NB); off = symx_choose("off", 0, 1);
  if (same && past == 0) { /* the same storage with new contents */ symx_bytes(a, NB < NA ? NB : NA, "b"); if (m > NA) m = NA; bs = a; } else { symx_bytes(b, NB, "b"); bs = b; }
  bi = off && m ? bs + 1 : bs;
  i = (int)symx_choose("eb", EBLO, ENB);
  pre = (int)rpa_records_length(B.rs);
  /* the request under test: on the used context, with what the past left in its record list for a parse */
  if (op == PARSE) {
    long k0 = rpa_records_length(A.rs), kk; static rparecord_t keep[64];
    if (k0 <= 64 && past != 1 && past != 2 && !(past == 0 && A.r < 0)) {
      rarray_t *t = B.rs; for (kk = 0; kk < k0; kk++) keep[kk] = *rpa_records_slot(A.rs, kk);
      B.rs = A.rs; request(db, st, rb, PARSE, EN[i], bi, bs, bs + m, &B); pre = (int)k0;
      for (kk = 0; kk < k0; kk++) { rparecord_t *p = rpa_records_slot(A.rs, kk); CHECK(p && p->rule == keep[kk].rule && p->ruleid == keep[kk].ruleid && p->ruleuid == keep[kk].ruleuid && p->type == keep[kk].type && p->input == keep[kk].input && p->inputoff == keep[kk].inputoff && p->inputsiz == keep[kk].inputsiz, "a parse leaves the records of the previous one alone"); symx_cover("appended"); }
      A.rs = t;
    } else { request(db, st, rb, PARSE, EN[i], bi, bs, bs + m, &B); }
  } else request(db, st, rb, (int)op, EN[i], bi, bs, bs + m, &B);
  request(db2, fr, rb, (int)op, EN[i], bi, bs, bs + m, &C);
  CHECK(B.r == C.r, "a used context gives the same result as a fresh one");
  CHECK(B.code == C.code, "a used context reports the same error as a fresh one");
  CHECK(B.w == C.w, "a used context finds the match at the same place as a fresh one");
  if (op == PARSE && B.r >= 0) {
    CHECK(rpa_records_length(B.rs) - pre == rpa_records_length(C.rs), "a used context emits as many records as a fresh one");
    for (k = 0; k < (long)rpa_records_length(C.rs); k++) {
      rparecord_t *p = rpa_records_slot(B.rs, pre + k), *q = rpa_records_slot(C.rs, k);
      CHECK(strcmp(p->rule, q->rule) == 0 && p->ruleid == q->ruleid && p->ruleuid == q->ruleuid && p->type == q->type && p->usertype == q->usertype && p->input == q->input && p->inputoff == q->inputoff && p->inputsiz == q->inputsiz, "a used context emits the same records as a fresh one");
    }
  }
  if (B.r > 0) { symx_cover("match"); } else if (B.r < 0) symx_cover("abort"); else symx_cover("failure");
  if (B.r > 0 && symx_choose("moved", 0, 1)) { /* the same text elsewhere */
    static char c[NB + 10]; memcpy(c + 7, bs, m); D.rs = op == PARSE ? rpa_records_create() : 0; request(db, st, rb, (int)op, EN[i], c + 7 + (bi - bs), c + 7, c + 7 + m, &D);
    CHECK(D.r == B.r && D.code == B.code && (!B.w || D.w - c - 7 == B.w - bs), "the address of the input does not matter"); symx_cover("moved");
    if (D.rs) { CHECK(rpa_records_length(D.rs) == rpa_records_length(C.rs), "the address of the input does not matter to the records"); rpa_records_destroy(D.rs); }
  }
  symx_cover("end");
  return 0;
}
