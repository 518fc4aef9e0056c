/* P08: grammar text with arbitrary bytes in it */
#include <stdlib.h>
#include "p_common.h"
#ifndef K
#define K 2
#endif
static const char *const T[][2] = {
  { "S ::= ", "\n" }, { "S ::= 'a' ", " 'b'\n" }, { "S ::= [", "]\n" }, { "S ::= 'a", "'\n" }, { "S ::= ('a' | ", ")?\n" }, { "S ::= [#x", "]\n" }, { "S ::= [a-", "]\n" }, { "S ::= 'a' - ", "\n" }, { "S ::= ^", " 'a'\n" },
  { "S ::= <S> 'a' ", "| 'b'\n" }, { "A ::= <S> ", " | 'a'\nS ::= <A> 'b' | 'c'\n" }, { "S ::= ('a' ", " <S>)? 'b'\n" },
  /* the bytes can end up in names */
  { "", "" }, { "S ::= <", "> 'a'\n" }, { "S", "'a'\n" }, { "#!", "\nS ::= 'a'\n" }, { "#!emitid S ", "\nS ::= 'a'\n" }, { "S ::= 'a'\n", "T ::= <S>\n" }, { "S ::= <:T:> | '", "\nT ::= 'a'\n" }, { "#!emit", " S\nS ::= 'a'\n" }, { "#!abort ", "\nS ::= 'a'\n" }, { "S ::= 'a'\n#!emitid S 1", "" }, { "S ::= [#x6", "]" } };
#define NAMES 12
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI ((int)(sizeof(T) / sizeof(T[0])) - 1)
#endif
static int contains(const char *t, long n, const char *s, long m) {
  long i, j; for (i = 0; i + m <= n; i++) { for (j = 0; j < m; j++) if (t[i + j] != s[j]) break; if (j == m) return 1; } return 0;
}
int main(void) {
  static char tbuf[128]; char *txt = tbuf; const char *const *t; long n, r, i, before = r_debug_get_allocmem(); rpadbex_t *db; rpastat_t *st; rpa_errinfo_t err; long rid; unsigned k, ti = symx_choose("template", TLO, THI); t = T[ti];
  n = (long)strlen(t[0]); memcpy(txt, t[0], (size_t)n);
  k = symx_choose("k", KLO, K); symx_bytes(txt + n, k, "g"); n += (long)k; strcpy(txt + n, t[1]); n += (long)strlen(t[1]);
  txt = malloc((size_t)n); memcpy(txt, tbuf, (size_t)n); /* nothing readable behind the text */
  db = g_db((int)symx_choose("opt", OLO, 1), FILTER);
  r = rpa_dbex_load(db, txt, (unsigned long)n);
  if (r < 0) {
    symx_cover("rejected");
    CHECK(rpa_dbex_lasterror(db) != 0, "a rejected grammar leaves an error code");
    CHECK(rpa_dbex_lasterrorinfo(db, &err) == 0 && err.code == rpa_dbex_lasterror(db), "error details agree with the error code");
    if (err.mask & RPA_ERRINFO_OFFSET) CHECK(err.offset >= 0 && err.offset <= n, "the error offset lies inside the text"); else CHECK(0, "a rejected grammar reports where");
    CHECK(rpa_dbex_load(db, "Z ::= 'z'\n", 10) == 10, "a good grammar is accepted after a rejected one");
    rpa_dbex_close(db);
    CHECK(rpa_dbex_compile(db) == 0, "a good grammar compiles after a rejected one");
    CHECK(rpa_dbex_first(db) == 0 && rpa_dbex_next(db, 0) < 0 && rpa_dbex_lookup_s(db, "Z") == 0, "a rejected grammar adds no rules");
  } else {
    symx_cover("accepted");
    CHECK(r == n, "an accepted grammar is consumed in full");
    { int conc = ti >= NAMES; for (i = (long)strlen(t[0]); i < (long)strlen(t[0]) + (long)k; i++) if (txt[i] == '\n' || txt[i] == '\r' || txt[i] == '<') conc = 1;
      if (conc) for (i = 0; i < n; i++) txt[i] = (char)symx_concretize((unsigned char)txt[i]); /* from here on, one path for every accepted text */ }
    rpa_dbex_close(db);
    for (rid = rpa_dbex_first(db), i = 0; rid >= 0; rid = rpa_dbex_next(db, rid), i++) {
      const char *nm = rpa_dbex_name(db, rid);
      CHECK(nm != 0 && contains(txt, n, nm, (long)strlen(nm)), "a rule's name comes from the text");
      CHECK(i < n, "no more rules than characters");
    }
    if (rpa_dbex_compile(db) < 0) {
      CHECK(rpa_dbex_lasterror(db) != 0, "a failed compilation leaves an error code");
      CHECK(rpa_dbex_lasterrorinfo(db, &err) == 0, "error details are available");
      if (err.code == RPA_E_UNRESOLVEDSYMBOL) {
        char *q = err.name; long m = (long)strlen(q); symx_cover("undefined");
        CHECK((err.mask & RPA_ERRINFO_NAME) && m > 0 && contains(txt, n, q, m), "the missing rule is named");
        CHECK(rpa_dbex_lookup_s(db, q) < 0, "the rule named as missing is not defined");
      }
    } else {
      rid = rpa_dbex_lookup_s(db, "S"); symx_cover("compiled");
      if (rid >= 0 && rpa_dbex_executableoffset(db, rid) >= 0) {
        static char in[] = "ab";
        st = rpa_stat_create(db, 1024); CHECK(st != 0, "a matching context is created");
        r = rpa_stat_match(st, rid, RPA_ENCODING_UTF8, in, in, in + 2); CHECK(r <= 2, "a match lies inside the input"); if (r > 0) symx_cover("matches");
        rpa_stat_destroy(st);
      }
    }
  }
  rpa_dbex_destroy(db);
  CHECK(r_debug_get_allocmem() == before, "destroying the database releases all memory");
  symx_cover("end");
  return 0;
}
