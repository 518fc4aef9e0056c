/* V05: K arbitrary scope operations over three names against an ideal stack of bindings. */
#include "v_common.h"
#include "rvm/rvmscope.h"
int main(void) {
  static const char *N[] = {"x", "xy", "y"}; rvm_scope_t *s = rvm_scope_create(); int k, i, j, nb = 0, ns = 0, bn[K], bt[K], sl[K]; uint64_t bv[K];
  for (k = 0; k < K; k++) {
    int op = symx_choose("op", 0, 3), n = 0;
    if (op == 0) { rvm_scope_push(s); sl[ns++] = nb; }
    else if (op == 1) { if (!ns) symx_end_path(); rvm_scope_pop(s); nb = sl[--ns]; symx_cover("pop"); }
    else { n = symx_choose("name", 0, 2); char buf[4] = "xyz"; if (n == 2) strcpy(buf, "yx"); uint64_t v = op == 2 ? symx_u32("off") : symx_u64("ptr");
      if (symx_choose("len", 0, 1)) { if (op == 2) rvm_scope_addoffset(s, buf, n == 1 ? 2 : 1, v); else rvm_scope_addpointer(s, buf, n == 1 ? 2 : 1, (rpointer)v); }
      else { if (op == 2) rvm_scope_addoffset_s(s, N[n], v); else rvm_scope_addpointer_s(s, N[n], (rpointer)v); }
      bn[nb] = n; bt[nb] = op; bv[nb++] = v; }
    CHECK(rvm_scope_count(s) == ns && rvm_scope_numentries(s) == nb, "counts");
    for (n = 0; n < 3; n++) for (j = 0; j < 2; j++) {
      rvm_varmap_t *r = j ? rvm_scope_tiplookup_s(s, N[n]) : rvm_scope_lookup(s, n == 1 ? "xyz" : N[n], n == 1 ? 2 : 1); int lo = j && ns ? sl[ns - 1] : 0;
      for (i = nb - 1; i >= lo && bn[i] != n; i--) ;
      if (i < lo) { CHECK(!r, j ? "the current scope does not define it" : "no open scope defines it"); symx_cover("absent"); }
      else { CHECK(r != NULL, "found"); if (!r) symx_end_path(); CHECK(!strcmp(r->name, N[n]), "name"); if (bt[i] == 2) CHECK(r->datatype == VARMAP_DATATYPE_OFFSET && r->data.offset == bv[i], "most recent definition"); else CHECK(r->datatype == VARMAP_DATATYPE_PTR && (uint64_t)r->data.ptr == bv[i], "most recent definition"); symx_cover("found"); }
    }
    CHECK(!rvm_scope_lookup_s(s, "z") && !rvm_scope_lookup(s, "x", 0) && !rvm_scope_tiplookup(s, "yx", 2), "undefined names");
  }
  rvm_scope_destroy(s); CHECK(r_debug_get_allocmem() == 0, "all memory returned"); symx_cover("end"); return 0;
}
