/* P11: failures inside a match */
#include "p_common.h"
static const char G[] = "R ::= '(' <R>? ')' | <A>\n" "E ::= <E> 'a' | <R>\n" "A ::= 'a' | '[' <E> ']'\n" "N ::= ^<R> <N>? | <R> - 'x'\n#!emitid A 7\n";
static const char *const RU[] = { "R", "E", "A", "N" };
#ifndef NIN
#define NIN 4
#endif
#ifndef NLO
#define NLO 0
#endif
#ifndef SMAX
#define SMAX 80
#endif
static rpadbex_t *mkdb(int cfg) {
  rpadbex_t *db = g_db(cfg & 1, cfg >> 1); CHECK(rpa_dbex_load(db, G, sizeof(G) - 1) == (long)sizeof(G) - 1, "a well-formed grammar is accepted in full"); rpa_dbex_close(db); return db;
}
int main(void) {
  static char buf[NIN + 2], deep[64]; unsigned n, mode, ru, op, s; rpadbex_t *db; rpastat_t *st, *big; rarray_t *rs, *rb; long r, q, rid, before, k; const char *w = 0, *w2 = 0, *in; rpa_errinfo_t err;
  db = mkdb((int)symx_choose("config", CLO, 3)); mode = symx_choose("mode", MLO, MHI);
  if (mode != 3) CHECK(rpa_dbex_compile(db) == 0, "a well-formed grammar compiles");
  ru = symx_choose("rule", 0, 3); rid = rpa_dbex_lookup_s(db, RU[ru]); op = symx_choose("op", 0, 2); rs = rpa_records_create(); rb = rpa_records_create();
  big = rpa_stat_create(db, 4096); CHECK(big != 0, "a matching context is created");
  if (mode <= 1) { /* a small stack: the answer of a large one, or a reported failure */
    if (mode == 1) rpa_stat_match(big, rid, RPA_ENCODING_BYTE, deep, deep, deep + 64);
    before = r_debug_get_allocmem();
    s = symx_choose("stack", 1, SMAX);
    st = rpa_stat_create(db, s); CHECK(st != 0, "a matching context is created");
    if (mode == 0) { n = symx_choose("n", NLO, NIN); symx_bytes(buf, NIN, "in"); in = buf; } else { unsigned i; n = symx_choose("depth", 1, 30); for (i = 0; i < n; i++) deep[i] = i % 3 == 2 ? '[' : '('; deep[n] = 'a'; for (i = 0; i < n; i++) deep[2 * n - i] = i % 3 == 2 ? ']' : ')'; n = 2 * n + 1; in = deep; }
    q = op == 0 ? rpa_stat_parse(big, rid, RPA_ENCODING_BYTE, in, in, in + n, rb) : op == 1 ? rpa_stat_match(big, rid, RPA_ENCODING_BYTE, in, in, in + n) : rpa_stat_scan(big, rid, RPA_ENCODING_BYTE, in, in, in + n, &w2);
    CHECK(q >= 0 && rpa_stat_lasterror(big) == 0, "a large stack suffices");
    r = op == 0 ? rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, in, in, in + n, rs) : op == 1 ? rpa_stat_match(st, rid, RPA_ENCODING_BYTE, in, in, in + n) : rpa_stat_scan(st, rid, RPA_ENCODING_BYTE, in, in, in + n, &w);
    if (r < 0) { symx_cover("exhausted"); CHECK(rpa_stat_lasterror(st) > 0, "a failed request reports an error code"); CHECK(rpa_stat_lasterrorinfo(st, &err) == 0 && err.code == rpa_stat_lasterror(st), "the details agree with the error code"); }
    else {
      CHECK(rpa_stat_lasterror(st) == 0, "a completed request reports no error"); CHECK(r == q, "a small stack does not change the answer"); CHECK(w == w2, "a small stack does not change where"); symx_cover(r > 0 ? "match" : "no match");
      if (op == 0) { CHECK(rpa_records_length(rs) == rpa_records_length(rb), "a small stack does not change the records"); for (k = 0; k < (long)rpa_records_length(rb); k++) { rparecord_t *a = rpa_records_slot(rs, k), *b = rpa_records_slot(rb, k); CHECK(a->type == b->type && a->ruleid == b->ruleid && a->inputoff == b->inputoff && a->inputsiz == b->inputsiz, "a small stack does not change the records"); } }
    }
    if (!(mode == 1 && op < 2) || symx_choose("again", 0, 1)) { r = rpa_stat_match(st, rpa_dbex_lookup_s(db, "A"), RPA_ENCODING_BYTE, "a", "a", "a" + 1); CHECK(r == 1 || (r < 0 && s < 24 && rpa_stat_lasterror(st) > 0), "the context remains usable"); }
    else { rpa_stat_destroy(st); symx_cover("destroyed"); if (op == 1) CHECK(r_debug_get_allocmem() == before, "a context returns its memory"); }
  } else if (mode == 2) { /* every range */
    unsigned a = symx_choose("input", 0, 3), b = symx_choose("start", 0, 3), c = symx_choose("end", 0, 3); int ok = b <= a && a <= c; unsigned i = symx_choose("first", 0, 2);
    st = rpa_stat_create(db, 0); CHECK(st != 0, "a matching context is created"); memset(deep, 'a', 8);
    if (i == 1) rpa_stat_abort(st); if (i == 2) CHECK(rpa_stat_match(st, 9999, RPA_ENCODING_BYTE, deep, deep, deep) < 0, "an unknown rule is refused");
    r = op == 0 ? rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, deep + a, deep + b, deep + c, rs) : op == 1 ? rpa_stat_match(st, rid, RPA_ENCODING_BYTE, deep + a, deep + b, deep + c) : rpa_stat_scan(st, rid, RPA_ENCODING_BYTE, deep + a, deep + b, deep + c, &w);
    if (!ok) { CHECK(r < 0, "an invalid range is refused"); CHECK(rpa_stat_lasterror(st) == RPA_E_PARAM, "an invalid range is reported"); symx_cover("bad range"); CHECK(rpa_records_length(rs) == 0, "a refused request leaves no records"); }
    else { CHECK(r >= 0 && r <= (long)c - (long)a, "a match lies in its range"); CHECK(rpa_stat_lasterror(st) == 0, "a completed request reports no error"); if (r > 0) symx_cover("match"); }
  } else { /* rules that are not there, databases that are not ready */
    long id; unsigned i = symx_choose("what", 0, 5);
    st = rpa_stat_create(db, 256); CHECK(st != 0, "a matching context is created");
    if (i) CHECK(rpa_dbex_compile(db) == 0, "a well-formed grammar compiles");
    id = i == 0 ? rid : i == 1 ? -1 : i == 2 ? 5 : i == 3 ? 6 : i == 4 ? 1000000 : -9223372036854775807L - 1;
    r = op == 0 ? rpa_stat_parse(st, id, RPA_ENCODING_UTF8, "a", "a", "a" + 1, rs) : op == 1 ? rpa_stat_match(st, id, RPA_ENCODING_UTF8, "a", "a", "a" + 1) : rpa_stat_scan(st, id, RPA_ENCODING_UTF8, "a", "a", "a" + 1, &w);
    CHECK(r < 0, i ? "an unknown rule is refused" : "a database that is not compiled is refused"); CHECK(rpa_stat_lasterror(st) > 0, "a refused request reports an error code"); symx_cover("refused");
    if (i) { CHECK(rpa_stat_match(st, rpa_dbex_lookup_s(db, "A"), RPA_ENCODING_UTF8, "a", "a", "a" + 1) == 1, "the context remains usable"); CHECK(rpa_stat_lasterror(st) == 0, "a completed request reports no error"); }
  }
  symx_cover("end");
  return 0;
}
