/* P01: the real pipeline against the reference interpreter, for every generated grammar and every input */
#include "p_gen.h"
#ifndef NIN
#define NIN 3
#endif
#ifndef STYLES
#define STYLES 1
#endif
int main(void) {
  static char buf[NIN + 1]; rpadbex_t *db = rpa_dbex_create(); rpastat_t *st = rpa_stat_create(db, 4096); unsigned n, i; long r, rid; int l;
  CHECK(db != 0 && st != 0, "a database and a matching context are created"); CHECK(rpa_dbex_open(db) == 0, "a fresh database opens");
  g_reset();
  g_style = (int)symx_choose("style", 0, STYLES - 1);
  gen_grammar();
  g_text(); g_load(db);
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN, "in");
  for (i = 0; i < n; i++) or_in[i] = (unsigned char)buf[i];
  or_n = (int)n;
  r = rpa_stat_match(st, rid, RPA_ENCODING_BYTE, buf, buf, buf + n);
  l = o_match(0, 0); CHECK(r == l, "the match has the length the grammar assigns"); if (l) symx_cover("match"); else symx_cover("no-match"); if (l >= 2) symx_cover("long");
  CHECK(rpa_stat_lasterror(st) == 0, "an ordinary match leaves no error");
  symx_cover("end");
  return 0;
}
