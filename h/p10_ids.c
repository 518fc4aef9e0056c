/* P10: every identifier an emitid directive can give */
#include "p_common.h"
/* ? stands for any digit */
static const char *const PAT[] = { "?", "??", "???", "1??6", "655??", "99?9?", "?000000", "21474836??", "42949672??", "?000000000" };
int main(void) {
  static char t[128]; unsigned n, i, al = symx_choose("alias", 0, 1), sp = symx_choose("space", 0, 1); unsigned long v = 0; const char *pat = PAT[symx_choose("pattern", 0, sizeof(PAT) / sizeof(PAT[0]) - 1)]; rpadbex_t *db = g_db(1, 1); rpastat_t *st; rarray_t *rs = rpa_records_create(); long rid, k, sz;
  strcpy(t, sp ? "\t# ! emitid\t B  " : "#!emitid B "); if (al) strcat(t, sp ? "ID_B\t" : "ID_B "); sz = (long)strlen(t); n = (unsigned)strlen(pat);
  for (i = 0; i < n; i++) { unsigned char c = (unsigned char)pat[i]; if (c == '?') c = (unsigned char)('0' + symx_choose("d", i ? 0 : 1, 9)); t[sz + i] = (char)c; v = v * 10 + (c - '0'); }
  symx_assume(v <= 0xFFFFFFFFul); sz += n;
  strcpy(t + sz, "\nS ::= <B> | 'a' <B>\n#!emitall\nB ::= 'b'\n");
  sz = (long)strlen(t);
  CHECK(rpa_dbex_load(db, t, (unsigned long)sz) == sz, "a well-formed grammar is accepted in full"); rpa_dbex_close(db); CHECK(rpa_dbex_compile(db) == 0, "a well-formed grammar compiles");
  st = rpa_stat_create(db, 512); rid = rpa_dbex_lookup_s(db, "S");
  CHECK(rpa_stat_parse(st, rid, RPA_ENCODING_UTF8, "ab", "ab", "ab" + 2, rs) == 2, "the input matches");
  CHECK(rpa_records_length(rs) == 4, "both rules leave records");
  for (k = 0; k < 4; k++) { rparecord_t *p = rpa_records_slot(rs, k); int b = k == 1 || k == 2; CHECK(strcmp(p->rule, b ? "B" : "S") == 0, "records nest as the rules did"); CHECK((unsigned)p->ruleuid == (b ? (unsigned)v : 0), "a record carries the identifier given to its rule"); CHECK(rpa_record_getruleuid(rs, k) == (long)p->ruleuid, "the identifier can be asked for"); }
  if (v > 0x7FFFFFFF) symx_cover("large");
  symx_cover("end"); return 0;
}
