/* P06: scanning with a rule whose failure aborts the attempt: the scan goes on at the next character */
#include "p_common.h"
#include "rlib/rutf.h"
#ifndef NIN
#define NIN 4
#endif
static const char *G[] = {
  "#!abort T\nS ::= [#0x61#0xE9#0x100-#0x7FF] <T> | 'b'\nT ::= 'b'\n",
  "#!abort T\nS ::= <U>? <T>\nU ::= [#0x100-#0xFFFF]\nT ::= 'b'\n",
};
static ruint32 cp[NIN + 2]; static int pos[NIN + 2], n_cp;
static int is(int i, ruint32 c) { return i < n_cp && cp[i] == c; }
/* characters matched at i; 0 = no match or aborted */
static int attempt(int g, int i) {
  if (g == 0) { if (is(i, 'a') || is(i, 0xE9) || (i < n_cp && cp[i] >= 0x100 && cp[i] <= 0x7FF)) return is(i + 1, 'b') ? 2 : 0; return is(i, 'b') ? 1 : 0; }
  { int u = i < n_cp && cp[i] >= 0x100 && cp[i] <= 0xFFFF; return is(i + u, 'b') ? 1 + u : 0; }
}
int main(void) {
  static char buf[NIN + 2]; const char *w = 0; int g = (int)symx_choose("grammar", 0, 1), i, l = 0; unsigned n, ei; long r, at; ruint32 wc;
  static const unsigned enc[3] = { RPA_ENCODING_UTF8, RPA_ENCODING_UTF16LE, RPA_ENCODING_BYTE };
  rpadbex_t *db = g_db((int)symx_choose("opt", OLO, 1), (int)symx_choose("filter", 0, 1)); rpastat_t *st;
  CHECK(rpa_dbex_load_s(db, G[g]) > 0, "the grammar loads"); rpa_dbex_close(db); CHECK(rpa_dbex_compile(db) == 0, "the grammar compiles");
  st = rpa_stat_create(db, 4096); ei = symx_choose("encoding", 0, EHI); n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN, "in");
  for (n_cp = 0, at = 0; at < (long)n; n_cp++) {
    int k = ei == 0 ? r_utf8_mbtowc(&wc, (const unsigned char *)buf + at, (const unsigned char *)buf + n) : ei == 1 ? r_utf16_mbtowc(&wc, (const unsigned char *)buf + at, (const unsigned char *)buf + n) : (wc = (unsigned char)buf[at], 1);
    CHECK(k > 0, "a character is at least one byte"); cp[n_cp] = wc; pos[n_cp] = (int)at; at += k;
  }
  pos[n_cp] = (int)n;
  r = rpa_stat_scan(st, rpa_dbex_lookup_s(db, "S"), enc[ei], buf, buf, buf + n, &w);
  for (i = 0; i < n_cp; i++) if ((l = attempt(g, i)) > 0) break;
  if (i == n_cp) { CHECK(r == 0, "a scan finds nothing exactly when the rule matches nowhere"); symx_cover("none"); }
  else {
    CHECK(r > 0, "a scan finds the match that exists after aborted attempts");
    CHECK(w == buf + pos[i] && r == pos[i + l] - pos[i], "a scan with aborted attempts reports the leftmost match, on a character boundary");
    symx_cover("found"); if (i) symx_cover("later"); if (r > l) symx_cover("wide");
  }
  rpa_stat_destroy(st); rpa_dbex_destroy(db);
  symx_cover("end");
  return 0;
}
