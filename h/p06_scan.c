/* P06: scanning against matching by the reference interpreter at every character position */
#include "p_text.h"
#include "rlib/rutf.h"
#ifndef NIN
#define NIN 4
#endif
#ifndef GLO
#define GLO 0
#endif
#ifndef ELO
#define ELO 0
#define EHI 2
#endif
#ifndef GHI
#define GHI (NTEXTG - 1)
#endif
int main(void) {
  static char buf[NIN + 4]; const char *in, *w = (const char *)1; int pos[NIN + 2], i, l = 0; unsigned n, off, ei; long r, rid, at; rpadbex_t *db; rpastat_t *st; ruint32 wc;
  static const unsigned enc[3] = { RPA_ENCODING_UTF8, RPA_ENCODING_UTF16LE, RPA_ENCODING_BYTE };
  g_reset(); text_grammar(symx_choose("grammar", GLO, GHI));
  g_style = (int)symx_choose("style", 0, STYLES - 1) * 2;
  db = g_db((int)symx_choose("opt", OLO, 1), (int)symx_choose("filter", OLO, 1)); g_text(); g_load(db);
  st = rpa_stat_create(db, 4096); CHECK(st != 0, "a matching context is created");
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  ei = symx_choose("encoding", ELO, EHI); or_icase = (int)symx_choose("icase", 0, 1);
  off = symx_choose("off", OFFLO, 1);
  n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN + 2, "in"); in = buf + off;
  for (or_n = 0, at = 0; at < (long)n; or_n++) {
    int k = ei == 0 ? r_utf8_mbtowc(&wc, (const unsigned char *)in + at, (const unsigned char *)in + n) : ei == 1 ? r_utf16_mbtowc(&wc, (const unsigned char *)in + at, (const unsigned char *)in + n) : (wc = (unsigned char)in[at], 1);
    CHECK(k > 0, "a character is at least one byte"); if (or_icase) symx_assume(!odd_case(wc));
    or_in[or_n] = wc; pos[or_n] = (int)at; at += k;
  }
  pos[or_n] = (int)n; CHECK(at == (long)n, "characters end at the end of the input");
  r = rpa_stat_scan(st, rid, enc[ei] | (or_icase ? RPA_ENCODING_ICASE : 0), in, buf, in + n, &w);
  for (i = 0; i < or_n; i++) if ((l = o_match(0, i)) > 0) break;
  if (i == or_n) { CHECK(r == 0, "a scan finds nothing exactly when the rule matches nowhere"); symx_cover("none"); }
  else {
    CHECK(r > 0, "a scan finds the match that exists");
    CHECK(w == in + pos[i], "a scan reports the leftmost match, on a character boundary");
    CHECK(r == pos[i + l] - pos[i], "a scan reports the length that matching there yields");
    CHECK(w >= in && w + r <= in + n, "the reported text lies inside the scanned input");
    CHECK(rpa_stat_match(st, rid, enc[ei] | (or_icase ? RPA_ENCODING_ICASE : 0), w, buf, in + n) == r, "matching at the reported place yields the reported length");
    symx_cover("found"); if (i) symx_cover("later"); if (r > l) symx_cover("wide");
  }
  CHECK(rpa_stat_lasterror(st) == 0, "an ordinary scan leaves no error");
  symx_cover("end");
  return 0;
}
