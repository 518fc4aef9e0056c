/* P07: one text presented in every encoding it has; and case folding */
#include "p_text.h"
#ifndef NCP
#define NCP 2
#endif
#ifndef GLO
#define GLO 0
#endif
#ifndef GHI
#define GHI (NTEXTG - 1)
#endif
static int enc16(unsigned c, char *o) {
  if (c < 0x10000) { o[0] = (char)c; o[1] = (char)(c >> 8); return 2; }
  c -= 0x10000; o[0] = (char)(c >> 10); o[1] = (char)(0xD8 | c >> 18); o[2] = (char)c; o[3] = (char)(0xDC | (c >> 8 & 3)); return 4;
}
static rpastat_t *st; static long rid; static rarray_t *rs; static int maxr;
static void one(unsigned e, const char *b, const int *pos, int l, const char *msg) {
  long r = rpa_stat_parse(st, rid, e | (or_icase ? RPA_ENCODING_ICASE : 0), b, b, b + pos[or_n], rs); int k;
  CHECK(r == pos[l], msg);
  CHECK(rpa_stat_match(st, rid, e | (or_icase ? RPA_ENCODING_ICASE : 0), b, b, b + pos[or_n]) == r, "matching and parsing consume the same");
  CHECK(rpa_records_length(rs) == nor, "the encoding does not change the record tree");
  for (k = 0; k < nor; k++) {
    rparecord_t *p = rpa_records_slot(rs, k);
    CHECK((p->type & (RPA_RECORD_START | RPA_RECORD_END)) == (unsigned)orc[k].type && p->rule && strcmp(p->rule, gr[orc[k].rule].name) == 0, "the encoding does not change the record tree");
    CHECK(p->inputoff == (unsigned long)pos[orc[k].off] && p->inputsiz == (unsigned long)(pos[orc[k].off + orc[k].siz] - pos[orc[k].off]), "records lie on the characters the rule matched in every encoding");
  }
  r_array_setlength(rs, 0);
}
int main(void) {
  static char u8[4 * NCP + 4], u16[4 * NCP + 4], by[NCP + 4]; int p8[NCP + 1], p16[NCP + 1], p1[NCP + 1], i, l, bytes = 1; unsigned n; rpadbex_t *db;
  g_reset(); text_grammar(symx_choose("grammar", GLO, GHI));
  g_style = (int)symx_choose("style", 0, STYLES - 1);
  db = g_db(1, 1); g_text(); g_load(db);
  st = rpa_stat_create(db, 4096); rs = rpa_records_create(); CHECK(st != 0 && rs != 0, "a matching context is created");
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  or_icase = (int)symx_choose("icase", 0, 1);
  n = symx_choose("n", 0, NCP); or_n = (int)n; p8[0] = p16[0] = p1[0] = 0;
  for (i = 0; i < (int)n; i++) {
    unsigned c = symx_u32("c"); symx_assume(c < 0x110000 && !(c >= 0xD800 && c <= 0xDFFF)); if (or_icase) symx_assume(!odd_case(c));
    or_in[i] = c; p8[i + 1] = p8[i] + enc8(c, u8 + p8[i]); p16[i + 1] = p16[i] + enc16(c, u16 + p16[i]);
    if (bytes && c < 256) by[i] = (char)c; else bytes = 0;
    p1[i + 1] = i + 1;
  }
  l = o_match(0, 0);
  one(RPA_ENCODING_UTF8, u8, p8, l, "a UTF-8 text matches as its characters do");
  one(RPA_ENCODING_UTF16LE, u16, p16, l, "a UTF-16 text matches as its characters do");
  if (bytes) { one(RPA_ENCODING_BYTE, by, p1, l, "a byte text matches as its characters do"); symx_cover("bytes"); }
  if (l > 0) { symx_cover("match"); if (p8[l] > l) symx_cover("wide"); if (or_icase) symx_cover("folded"); }
  symx_cover("end");
  return 0;
}
