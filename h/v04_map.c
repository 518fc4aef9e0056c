/* V04: the label map under K arbitrary operations. */
#include "v_common.h"
#include "rvm/rvmcodemap.h"
int main(void) {
  static const char *N[] = {"x", "xy", "y"}; rvm_codemap_t *m = rvm_codemap_create(); int i, k, nl = 0, st[3] = {-1, -1, -1}; long id[3]; uint64_t val[3]; long base[3]; rvm_codelabel_t *err;
  for (k = 0; k < K; k++) {
    int op = symx_choose("op", 0, 4), n = symx_choose("name", 0, 2); uint64_t v = symx_range("v", 0, 0x7fffffff); long r;
    if (op == 0) { r = rvm_codemap_addpointer_s(m, N[n], (rpointer)v); }
    else if (op == 1) { int b = symx_choose("base", 0, 2); if (st[b] < 0 || b == n) continue; /* no cycles */ { int x = b, cyc = 0; while (st[x] == 1) { x = (int)base[x]; if (x == n) { cyc = 1; break; } } if (cyc) continue; } base[n] = b; r = rvm_codemap_addoffset_s(m, N[n], id[b], v); symx_cover("offset"); }
    else if (op == 2) r = rvm_codemap_invalid_add_s(m, N[n]);
    else if (op == 3) { r = rvm_codemap_lookupadd_s(m, N[n]); if (st[n] >= 0) { CHECK(r == id[n], "lookup-or-add finds the label"); continue; } }
    else { r = rvm_codemap_lookup(m, n == 1 ? "xyz" : N[n], n == 1 ? 2 : 1); CHECK(st[n] < 0 ? r < 0 : r == id[n], "lookup"); continue; }
    if (st[n] < 0) { CHECK(r == nl, "labels are numbered in order"); id[n] = r; nl++; } else { CHECK(r == id[n], "a repeated label keeps its index"); symx_cover("repeated"); }
    st[n] = op == 0 ? 0 : op == 1 ? 1 : 2; val[n] = v;
    /* a base that became undefined leaves its dependants unresolved; forget cyclic constructions above */
    for (i = 0; i < 3; i++) {
      long l = rvm_codemap_lookup_s(m, N[i]); CHECK(st[i] < 0 ? l < 0 : l == id[i], "every label is found under its name");
      if (st[i] < 0) continue;
      uint64_t e = 0; int x = i, bad = -1; while (st[x] == 1) { e += val[x]; x = (int)base[x]; } if (st[x] == 2) bad = x; else e += val[x];
      err = NULL; ruword q = rvm_codemap_resolve(m, id[i], &err);
      if (bad >= 0) { CHECK(q == (ruword)-1, "an undefined label does not resolve"); CHECK(err && !strcmp(err->name->str, N[bad]), "the undefined label is named"); symx_cover("undefined"); }
      else CHECK(q == e, "a label resolves to its value");
      CHECK(rvm_codemap_validindex(m, id[i]) == (st[i] != 2), "validity");
    }
  }
  if (symx_choose("clear", 0, 1)) { rvm_codemap_clear(m); for (i = 0; i < 3; i++) CHECK(rvm_codemap_lookup_s(m, N[i]) < 0, "cleared"); CHECK(rvm_codemap_addpointer_s(m, "y", (rpointer)5) == 0 && rvm_codemap_resolve(m, 0, &err) == 5, "usable after clearing"); }
  rvm_codemap_destroy(m); CHECK(r_debug_get_allocmem() == 0, "all memory returned"); symx_cover("end"); return 0;
}
