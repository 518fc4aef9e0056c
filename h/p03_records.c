/* P03: the records of a parse are the parse tree, for every generated grammar and every input */
#include "p_gen.h"
#ifndef NIN
#define NIN 3
#endif
int main(void) {
  static char buf[NIN + 3]; rpadbex_t *db = rpa_dbex_create(); rpastat_t *st = rpa_stat_create(db, 4096); rarray_t *rs = rpa_records_create();
  unsigned n, i, off; long r, rid; int l, k; const char *in;
  CHECK(db != 0 && st != 0 && rs != 0, "a database and a matching context are created"); CHECK(rpa_dbex_open(db) == 0, "a fresh database opens");
  g_reset();
  gen_grammar();
  g_text(); g_load(db);
  rid = rpa_dbex_lookup_s(db, "S"); CHECK(rid >= 0, "a defined rule is found");
  off = symx_choose("off", 0, 1);
  n = symx_choose("n", 0, NIN);
  symx_bytes(buf, NIN + 1, "in"); in = buf + off;
  for (i = 0; i < n; i++) or_in[i] = (unsigned char)in[i];
  or_n = (int)n;
  r = rpa_stat_parse(st, rid, RPA_ENCODING_BYTE, in, buf, in + n, rs);
  l = o_match(0, 0); CHECK(r == l, "the parse has the length the grammar assigns");
  CHECK(rpa_records_length(rs) == nor, "as many records as rules matched");
  for (k = 0; k < nor; k++) {
    rparecord_t *p = rpa_records_slot(rs, k); const char *nm = gr[orc[k].rule].name;
    CHECK(p != 0, "every record is accessible");
    CHECK((p->type & (RPA_RECORD_START | RPA_RECORD_END)) == (unsigned)orc[k].type, "begin and end records nest as the rules did");
    CHECK(p->rule && strcmp(p->rule, nm) == 0, "a record names the rule that matched");
    CHECK(p->inputoff == (unsigned long)orc[k].off + off, "a record begins where its rule began to match");
    CHECK(p->input == in + orc[k].off, "a record points at its text");
    CHECK(p->inputsiz == (unsigned long)orc[k].siz, "a record covers exactly the text its rule matched");
    CHECK((long)p->ruleid == rpa_dbex_lookup_s(db, nm), "a record carries the identifier of its rule");
    if (orc[k].rule) symx_cover("nested");
  }
  if (nor >= 6) symx_cover("many");
  symx_cover("end");
  return 0;
}
