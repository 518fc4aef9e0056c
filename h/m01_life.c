/* M01: histories of operations on every kind of object; afterwards the library's accounting and the heap are what they were. */
#include "p_common.h"
#include "rlib/rharray.h"
#include "rlib/rcarray.h"
#include "rlib/rhash.h"
#include "rlib/rmap.h"
#include "rlib/rstring.h"
#include "rlib/rgc.h"
#include "rlib/rref.h"
#include "rlib/rbuffer.h"
#include "rlib/rspinlock.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmscope.h"
#include "rvm/rvmcodemap.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexdfaconv.h"
#include "rex/rexcompiler.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "rpa/rpaparser.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef NOPS
#define NOPS 3
#endif
#define OP(hi) symx_choose("op", 0, hi)
static size_t h0, m0;
static void done(void) { CHECK(r_debug_get_allocmem() == m0, "the library's memory accounting is back at its previous value"); CHECK(symx_live_heap() == h0, "every block was given back"); symx_cover("balanced"); }
static const char *const KEY[] = { "a", "b", "ab" };

static void k_array(void) {
  unsigned es = symx_choose("elt", 0, 1) ? 24 : 1; rarray_t *a = r_array_create(es), *c; char e[24]; int i; memset(e, 5, sizeof(e));
  for (i = 0; i < NOPS; i++) switch (OP(8)) {
    case 0: r_array_add(a, e); break;
    case 1: r_array_insert(a, symx_choose("at", 0, 3), symx_choose("null", 0, 1) ? e : 0); break;
    case 2: r_array_replace(a, symx_choose("at", 0, 9), e); break;
    case 3: { unsigned at = symx_choose("at", 0, 2); if (at < r_array_length(a)) r_array_delete(a, at); break; }
    case 4: r_array_setlength(a, symx_choose("len", 0, 12)); break;
    case 5: r_array_removelast(a); break;
    case 6: c = (rarray_t *)r_array_copy((robject_t *)a); r_array_destroy(a); a = c; symx_cover("copy"); break;
    case 7: c = (rarray_t *)r_array_copy((robject_t *)a); r_array_destroy(c); break;
    case 8: memset(r_array_slot_expand(a, symx_choose("at", 0, 4)), 1, es); break;
  }
  r_array_destroy(a); done();
}
static void k_carray(void) {
  rcarray_t *a = r_carray_create(8), *c; int i; long v = 7;
  for (i = 0; i < NOPS; i++) switch (OP(5)) {
    case 0: r_carray_add(a, symx_choose("null", 0, 1) ? &v : 0); break;
    case 1: { unsigned n = symx_choose("len", 0, 4); r_carray_setlength(a, n == 4 ? 1100 : n * 256); break; }
    case 2: r_carray_replace(a, symx_choose("at", 0, 2), &v); break;
    case 3: c = (rcarray_t *)r_carray_copy((robject_t *)a); r_carray_destroy(a); a = c; symx_cover("copy"); break;
    case 4: c = (rcarray_t *)r_carray_copy((robject_t *)a); r_carray_destroy(c); break;
    case 5: r_carray_inclength(a); break;
  }
  r_carray_destroy(a); done();
}
static void k_harray(void) {
  rharray_t *a = r_harray_create(8), *c; int i; long v = 3;
  for (i = 0; i < NOPS; i++) switch (OP(5)) {
    case 0: v++; r_harray_add_s(a, KEY[symx_choose("key", 0, 2)], &v); break;
    case 1: v++; r_harray_replace_s(a, KEY[symx_choose("key", 0, 2)], &v); break;
    case 2: { long x = r_harray_lookup(a, "ab", symx_choose("len", 0, 2)); if (x >= 0) { CHECK(*(long *)r_harray_get(a, (unsigned long)x) > 2, "a stored value is found"); symx_cover("found"); } break; }
    case 3: c = (rharray_t *)r_harray_copy((robject_t *)a); r_harray_destroy(a); a = c; symx_cover("copy"); break;
    case 4: c = (rharray_t *)r_harray_copy((robject_t *)a); r_harray_destroy(c); break;
    case 5: r_harray_set(a, symx_choose("at", 0, 1), &v); break;
  }
  r_harray_destroy(a); done();
}
static void k_hash(void) {
  rhash_t *h = r_hash_create(symx_choose("bits", 1, 2), r_hash_strequal, r_hash_strhash); int i;
  for (i = 0; i < NOPS; i++) { const char *k = KEY[symx_choose("key", 0, 2)]; switch (OP(4)) {
    case 0: r_hash_insert_index(h, k, 1); break;
    case 1: r_hash_insert_object(h, k, h); break;
    case 2: r_hash_remove(h, k); symx_cover("removed"); break;
    case 3: r_hash_removeall(h); break;
    case 4: (void)r_hash_lookup_index(h, k); break;
  } }
  r_hash_destroy(h); done();
}
static void k_map(void) {
  rmap_t *m = r_map_create(8, symx_choose("bits", 1, 5)), *c; int i; long v = 1;
  for (i = 0; i < NOPS; i++) switch (OP(6)) {
    case 0: r_map_add_s(m, KEY[symx_choose("key", 0, 2)], &v); break;
    case 1: r_map_delete(m, symx_choose("at", 0, 2)); symx_cover("removed"); break;
    case 2: r_map_add_l(m, 3, &v); break;
    case 3: r_map_add_d(m, 2.5, &v); break;
    case 4: c = (rmap_t *)((robject_t *)m)->copy((robject_t *)m); /* there is no copy of a map */ if (c) { r_map_destroy(m); m = c; } break;
    case 5: { double v = 9; unsigned long at = r_map_first(m); if (at != (unsigned long)-1) { r_map_setvalue(m, at, &v); (void)r_map_next(m, at); r_map_delete(m, at); symx_cover("removed"); } break; }
    case 6: (void)r_map_lookup_l(m, 3); (void)r_map_lookup_d(m, 2.5); (void)r_map_lookup_s(m, "a"); break;
  }
  r_map_destroy(m); done();
}
static void k_string(void) {
  rstring_t *s = symx_choose("from", 0, 1) ? r_string_create_from_ansi("x") : r_string_create_from_str_len("abc", 2), *c, *d; int i; rgc_t *gc = r_gc_create();
  for (i = 0; i < NOPS; i++) switch (OP(6)) {
    case 0: r_string_cat_len(s, "yz", symx_choose("len", 0, 2)); break;
    case 1: c = r_string_cat(s, s); r_string_destroy(s); s = c; break;
    case 2: c = (rstring_t *)((robject_t *)s)->copy((robject_t *)s); r_string_destroy(s); s = c; symx_cover("copy"); break;
    case 3: c = r_string_create_from_string(s); r_gc_add(gc, (robject_t *)c); symx_cover("collected"); break;
    case 4: r_gc_deallocateall(gc); break;
    case 5: c = r_string_create_from_int(-12); d = r_string_create_from_double(1.5); r_gc_add(gc, (robject_t *)c); r_gc_add(gc, (robject_t *)d); r_string_destroy(d); /* takes itself off the list */ break;
    case 6: { rstr_t *r = r_rstrdup("abc", 2); char *p = r_strdup("q"), *q = r_strndup("qr", 1); r_rstr_free(r); r_free(p); r_free(q); break; }
  }
  r_string_destroy(s); r_gc_destroy(gc); done();
}
static void k_ref(void) {
  rref_t *r = r_ref_create(RREF_TYPE_SHARED); unsigned n = 1; int i; rbuffer_t *b = r_buffer_create(symx_choose("size", 1, 3));
  for (i = 0; i < NOPS; i++) switch (OP(3)) {
    case 0: if (n) { CHECK(r_ref_inc(r) == ++n, "a new reference counts"); } break;
    case 1: if (n) { n--; CHECK(r_ref_dec(r) == n, "a reference given up no longer counts"); } break;
    case 2: r_buffer_append(b, "abcd", symx_choose("len", 0, 4)); break;
    case 3: if (n) CHECK(r_ref_get(r) == n, "the number of references"); break;
  }
  while (n) { n--; CHECK(r_ref_dec(r) == n, "a reference given up no longer counts"); }
  r_buffer_destroy(b); done();
}
/* the machine and the code generator */
static void swi0(rvmcpu_t *cpu, rvm_asmins_t *ins) { (void)ins; RVM_CPUREG_SETU(cpu, R0, 9); }
static rvm_switable_t tab[] = { { "one", swi0 }, { "two", swi0 }, { NULL, NULL } };
static void k_machine(void) {
  rvmcpu_t *c = rvm_cpu_create(symx_choose("stack", 1, 2) * 4); rvm_codegen_t *g = rvm_codegen_create(); rvm_codelabel_t *err; int i, k; rvm_scope_t *s = 0; static const char *const LB[] = { "f", "g", "h" };
  for (i = 0; i < NOPS; i++) { const char *l = LB[symx_choose("label", 0, 1)]; switch (OP(12)) {
    case 0: rvm_codegen_funcstart_s(g, l, 1); rvm_codegen_addins(g, rvm_asm(RVM_ADD, R0, R0, DA, 1)); rvm_codegen_funcend(g); break;
    case 1: rvm_codegen_addlabel_default_s(g, l); break;
    case 2: rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, l, rvm_asm(RVM_B, DA, XX, XX, 0)); break;
    case 3: rvm_codegen_addstring_s(g, l, "text"); break;
    case 4: rvm_codegen_adddata_s(g, l, "\1\2\3", 3); break;
    case 5: rvm_codegen_clear(g); symx_cover("cleared"); break;
    case 6: k = rvm_codegen_relocate(g, &err); symx_cover(k < 0 ? "unresolved" : "resolved"); break;
    case 7: rvm_codegen_destroy(g); g = rvm_codegen_create(); break;
    case 8: rvm_cpu_alloc_global(c); rvm_cpu_alloc_global(c); break;
    case 9: rvm_cpu_addswitable(c, l, tab); (void)rvm_cpu_swilookup_s(c, l, "two"); break;
    case 10: { rvm_asmins_t p[4]; unsigned n = symx_choose("ins", 0, 3); p[0] = n == 0 ? rvm_asm(RVM_PUSH, R0, XX, XX, 0) : n == 1 ? rvm_asm(RVM_ABORT, XX, XX, XX, 0) : n == 2 ? rvm_asm(RVM_DIV, R0, R0, DA, 0) : rvm_asm(RVM_MOV, R0, DA, XX, 5);
      p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0); (void)rvm_cpu_exec(c, p, 0); symx_cover("ran"); break; }
    case 11: if (!s) s = rvm_scope_create(); if (symx_choose("push", 0, 1)) rvm_scope_push(s); rvm_scope_addoffset_s(s, l, 3); rvm_scope_addpointer_s(s, "p", s); break;
    case 12: if (s) { if (rvm_scope_count(s)) rvm_scope_pop(s); (void)rvm_scope_lookup_s(s, l); symx_cover("scope"); } break;
  } }
  if (s) rvm_scope_destroy(s);
  if (symx_choose("order", 0, 1)) { rvm_codegen_destroy(g); rvm_cpu_destroy(c); } else { rvm_cpu_destroy(c); rvm_codegen_destroy(g); }
  done();
}
/* grammar databases and matching contexts */
static const char *const GR[] = {
  "A ::= 'a' <B>?\nB ::= 'b'\n", "A ::= <C>\n", "A ::= ('a' | \n", "#!emitid A 5\n#!abort B\nB ::= [a-c]*\n", "B ::= <B> 'x' | 'y'\n", "\xff\xfe", "A ::= 'a'\nA ::= 'b'\n", "#!emitid\nA ::= 'a'" };
static void k_database(void) {
  rpadbex_t *d = rpa_dbex_create(); rpastat_t *s = 0; int i, open = 0; rarray_t *r = rpa_records_create(); long x; rpa_errinfo_t ei;
  if (symx_choose("off", 0, 1)) rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, 0);
  i = (int)symx_choose("before", 0, 4); /* how far the object got before the symbolic operations */
  if (i > 0) { rpa_dbex_open(d); open = 1; }
  if (i > 1) { x = rpa_dbex_load_s(d, GR[symx_choose("first", 0, sizeof(GR) / sizeof(GR[0]) - 1)]); symx_cover(x < 0 ? "refused" : "loaded"); }
  if (i > 2) { rpa_dbex_close(d); rpa_dbex_compile(d); }
  if (i > 3) s = rpa_stat_create(d, symx_choose("stack", 0, 1) ? 8 : 512);
  for (i = 0; i < NOPS; i++) switch (OP(12)) {
    case 0: if (rpa_dbex_open(d) == 0) open = 1; break;
    case 1: { const char *t = GR[symx_choose("grammar", 0, NOPS + 1)]; x = rpa_dbex_load(d, t, strlen(t)); symx_cover(x < 0 ? "refused" : "loaded"); break; }
    case 2: rpa_dbex_close(d); break;
    case 3: x = rpa_dbex_compile(d); symx_cover(x < 0 ? "not compiled" : "compiled"); break;
    case 4: if (!s) s = rpa_stat_create(d, symx_choose("stack", 0, 1) ? 8 : 512); break;
    case 5: if (s) { x = rpa_stat_parse(s, rpa_dbex_lookup_s(d, "A"), RPA_ENCODING_UTF8, "ab", "ab", "ab" + 2, r); symx_cover(x > 0 ? "matched" : "nothing"); } break;
    case 6: if (s) { const char *w; const char *in = "xaby"; (void)rpa_stat_scan(s, rpa_dbex_lookup_s(d, symx_choose("rule", 0, 1) ? "B" : "A"), RPA_ENCODING_ICASE_UTF8, in, in, in + 4, &w); } break;
    case 7: if (s) { rpa_stat_destroy(s); s = 0; } break;
    case 8: (void)rpa_dbex_lasterrorinfo(d, &ei); if (s) (void)rpa_stat_lasterrorinfo(s, &ei); break;
    case 9: if (s) rpa_stat_abort(s); break;
    case 10: if (open) { char b[16]; long id = rpa_dbex_lookup_s(d, "A"); if (id >= 0) { (void)rpa_dbex_strncpy(d, b, id, sizeof(b)); (void)rpa_dbex_strlen(d, id); } (void)rpa_dbex_first(d); (void)rpa_dbex_last(d); } break;
    case 11: { size_t n; cap_begin(); rpa_dbex_dumpproductions(d); rpa_dbex_dumpinfo(d); rpa_dbex_dumpuids(d); rpa_dbex_dumprecords(d); cap_end(&n); break; }
    case 12: { rpa_parser_t *p = rpa_parser_create(); const char *t = GR[symx_choose("grammar", 0, NOPS)]; rarray_t *q = rpa_records_create(); (void)rpa_parser_load(p, t, strlen(t), q); rpa_records_destroy(q); rpa_parser_destroy(p); break; }
  }
  if (s) { rpa_stat_destroy(s); }
  rpa_dbex_destroy(d); rpa_records_destroy(r); done();
}
/* expressions, automata, simulators */
static const char *const EX[] = { "a(b|c)*", "a+b?", "(a", "a)", "[b-a", "a{2,3}", "*", "", "[^a-c]|x", "a|", "\\", "a{2" };
#define NEX (sizeof(EX) / sizeof(EX[0]) - 1)
static void k_automata(void) {
  rexdb_t *n = rex_db_create(REXDB_TYPE_NFA), *m = 0; rexdfa_t *d = 0; rex_nfasimulator_t *sn = 0; rex_dfasimulator_t *sd = 0; int i; long st = 0, x;
  if (symx_choose("before", 0, 1)) { st = rex_db_addexpression_s(n, 0, EX[symx_choose("expr", 0, 1)], 0); m = rex_db_createdfa(n, (size_t)st); }
  for (i = 0; i < NOPS; i++) switch (OP(9)) {
    case 0: x = rex_db_addexpression_s(n, (size_t)st, EX[symx_choose("expr", 0, NEX)], 0); if (x >= 0) st = x; symx_cover(x < 0 ? "refused" : "added"); break;
    case 1: if (st >= 0 && !rex_db_isempty(n)) { if (m) rex_db_destroy(m); m = rex_db_createdfa(n, (size_t)st); symx_cover("dfa"); } break;
    case 2: if (m) { if (d) rex_dfa_destroy(d); d = rex_db_todfa(m, (int)symx_choose("sub", 0, 1)); } break;
    case 3: if (d) { rexuint_t q = REX_DFA_STARTSTATE; q = rex_dfa_next(d, q, 'a'); (void)rex_dfa_next(d, q, 'b'); symx_cover("table"); } break;
    case 4: if (!sn) sn = rex_nfasimulator_create(); if (!rex_db_isempty(n)) (void)rex_nfasimulator_run_s(sn, n, (size_t)st, "abb"); break;
    case 5: if (m) { if (!sd) sd = rex_dfasimulator_create(); (void)rex_dfasimulator_run(sd, m, 0, "abb", 3); } break;
    case 6: if (m) { rex_db_destroy(m); m = 0; } break;
    case 7: { rexcompiler_t *co = rex_compiler_create(); rexdb_t *t = rex_db_create(REXDB_TYPE_NFA); (void)rex_compiler_expression_s(co, t, EX[symx_choose("expr", 0, NEX)], 0); rex_compiler_destroy(co); rex_db_destroy(t); break; }
    case 8: rex_db_setblanks_s(n, " \t"); break;
    case 9: rex_db_destroy(n); n = rex_db_create(REXDB_TYPE_NFA); st = 0; break;
  }
  if (sn) rex_nfasimulator_destroy(sn);
  if (sd) rex_dfasimulator_destroy(sd);
  if (d) rex_dfa_destroy(d);
  if (m) rex_db_destroy(m);
  rex_db_destroy(n); done();
}
/* any text given to the reader of expressions or of grammars, wherever it gives up */
#ifndef L
#define L 4
#endif
static void k_text(void) {
  static char t[L + 24]; unsigned n = symx_choose("n", 0, L), i; int rex = (int)symx_choose("reader", RLO, RHI); const char *al = rex ? "ab()[]{}|*+?-^.\\1," : "a<>'()|*+?-^[]#:= ";
  for (i = 0; i < n; i++) t[i] = al[symx_choose("c", 0, (unsigned)strlen(al) - 1)];
  t[n] = 0;
  if (rex) { rexregex_t *r = rex_regex_create(t, n); const char *w; if (r) { (void)rex_regex_match(r, REX_ENCODING_UTF8, "ab", "ab" + 2); (void)rex_regex_scan(r, REX_ENCODING_UTF8, "ab", "ab" + 2, &w); rex_regex_destroy(r); symx_cover("accepted"); } else symx_cover("refused"); }
  else { char g[L + 48]; rpadbex_t *d = rpa_dbex_create(); rpastat_t *s; long x; memcpy(g, "A ::= ", 6); memcpy(g + 6, t, n); memcpy(g + 6 + n, "\nB ::= 'b'\n", 12);
    rpa_dbex_open(d); x = rpa_dbex_load(d, g, 6 + n + 11); rpa_dbex_close(d); symx_cover(x == 17 + (long)n ? "accepted" : "refused"); if (rpa_dbex_compile(d) == 0) { rarray_t *r = rpa_records_create(); s = rpa_stat_create(d, 128); (void)rpa_stat_parse(s, rpa_dbex_lookup_s(d, "A"), RPA_ENCODING_UTF8, "a", "a", "a" + 1, r); rpa_stat_destroy(s); rpa_records_destroy(r); }
    rpa_dbex_destroy(d); }
  done();
}
int main(void) {
  static void (*const K[])(void) = { k_array, k_carray, k_harray, k_hash, k_map, k_string, k_ref, k_machine, k_database, k_automata, k_text };
  h0 = symx_live_heap(); m0 = r_debug_get_allocmem();
#if KIND == 0
  K[symx_choose("kind", 0, 6)]();
#else
  K[KIND]();
#endif
  symx_cover("end"); return 0;
}
