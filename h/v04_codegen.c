/* V04: a block program with symbolic control flow, label order, definition and reference style, against direct interpretation. */
#include "v_common.h"
#include "rvm/rvmcodegen.h"
static rvm_codegen_t *g;
static const char *L[] = {"a", "b", "ab", "end", "ghost", "str"};
#define INS(...) rvm_codegen_addins(g, rvm_asm(__VA_ARGS__))
static void ref(int style, int op, int opx, const char *l, int idx) {
  switch (style) {
  case 0: rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, l, rvm_asm(op, DA, XX, XX, 0)); break;
  case 1: rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, l, rvm_asm(opx, DA, XX, XX, 0)); break;
  case 2: rvm_codegen_index_addrelocins(g, RVM_RELOC_BRANCH, idx, rvm_asm(op, DA, XX, XX, 0)); break;
  case 3: rvm_codegen_addrelocins(g, RVM_RELOC_JUMP, "abend", 0, rvm_asm(opx, DA, XX, XX, 0)); break;
  }
}
int main(void) {
  int i, j, pos[3], t[3], def = symx_choose("def", 0, 3), sty = symx_choose("style", 0, 2), ghost = symx_choose("ghost", 0, 3), perm = symx_choose("perm", 0, 5), again = symx_choose("again", 0, 1), shadow = symx_choose("shadow", 0, 1); long idx[4]; uint64_t n = symx_range("steps", 1, STEPS), r0 = symx_u64("r0");
  static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  rvm_codelabel_t *err = NULL; rvmcpu_t *c = rvm_cpu_create(32);
  g = rvm_codegen_create();
  for (i = 0; i < 3; i++) { pos[i] = P[perm][i]; t[i] = symx_choose("target", 0, 2); }
  for (i = 0; i < 4; i++) idx[i] = -1;
  if (def == 2 || sty == 2) for (i = 0; i < 4; i++) idx[i] = rvm_codegen_invalid_addlabel_s(g, L[i]);
  if (shadow) { rvm_codegen_addlabel_default_s(g, L[0]); rvm_codegen_addlabel_default_s(g, L[3]); } /* defined twice: the last definition counts */
  rvm_codegen_addstring_s(g, "s0", "xyz"); rvm_codegen_addstring_s(g, "str", "hello");
  ref(sty, RVM_B, RVM_BX, L[0], idx[0]);
  INS(RVM_MOV, R7, DA, XX, 666); INS(RVM_EXT, XX, XX, XX, 0);
  for (j = 0; j < 3; j++) {
    i = pos[j];
    switch (def) {
    case 0: rvm_codegen_addlabel_default_s(g, L[i]); INS(RVM_MUL, R0, R0, DA, 4); break;
    case 1: rvm_codegen_addlabelins_s(g, L[i], rvm_asm(RVM_MUL, R0, R0, DA, 4)); break;
    case 2: CHECK(rvm_codegen_redefinelabel_default(g, idx[i]) == idx[i], "pending label defined"); INS(RVM_MUL, R0, R0, DA, 4); break;
    case 3: INS(RVM_MUL, R0, R0, DA, 4); rvm_codegen_addlabel_s(g, L[i], rvm_codegen_getcodesize(g) - 1); break;
    }
    INS(RVM_ADD, R0, R0, DA, i + 1);
    rvm_codegen_addrelocins_s(g, RVM_RELOC_DEFAULT, "str", rvm_asmp(RVM_MOV, R5, DA, XX, NULL)); INS(RVM_LDRB, R5, R5, XX, 0);
    if (i == 1) { rvm_codegen_addrelocins_s(g, RVM_RELOC_STRING, "str", rvm_asma(RVM_MOV, R4, DA, XX, "", 0)); }
    INS(RVM_SUB, R1, R1, DA, 1); INS(RVM_CMP, R1, DA, XX, 0);
    ref(sty, RVM_BEQ, RVM_BXEQ, L[3], idx[3]);
    ref(sty, RVM_B, RVM_BX, L[t[i]], idx[t[i]]);
  }
  if (ghost == 1) rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, "ghost", rvm_asm(RVM_B, DA, XX, XX, 0));
  if (ghost == 2) { rvm_codegen_invalid_addlabel_s(g, "ghost"); rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, "ghost", rvm_asm(RVM_BX, DA, XX, XX, 0)); }
  if (ghost == 3) rvm_codegen_invalid_addlabel_s(g, "unused");
  if (def == 2) rvm_codegen_redefinelabel_default(g, idx[3]); else rvm_codegen_addlabel_default_s(g, L[3]);
  INS(RVM_EXT, XX, XX, XX, 0);
  int rc = rvm_codegen_relocate(g, &err);
  if (ghost == 1 || ghost == 2) {
    CHECK(rc < 0, "an undefined label is an error"); CHECK(err && err->name && !strcmp(err->name->str, "ghost"), "the error names the label"); symx_cover("undefined");
  } else {
    CHECK(rc == 0, "relocates");
    if (again) CHECK(rvm_codegen_relocate(g, &err) == 0, "relocates again");
    setu(c, R0, r0); setu(c, R1, n);
    CHECK(rvm_cpu_exec(c, rvm_codegen_getcode(g, 0), 0) == 0, "runs");
    uint64_t e = r0; int cur = 0, sawb = 0;
    for (j = 0; j < STEPS; j++) { if (j < n) { e = e * 4 + cur + 1; } if (j < n && cur == 1) sawb = 1; cur = t[cur]; }
    CHECK(getu(c, R0) == e, "the program visits the blocks its jumps name"); CHECK(getu(c, R1) == 0 && getu(c, R7) == 0, "stops at the end label"); CHECK(getu(c, R5) == 'h', "data label resolves to its bytes");
    if (sawb) { rvmreg_t *q = rvm_cpu_getreg(c, R4); CHECK(q->size == 5 && q->type == RVM_DTYPE_STRPTR && !memcmp(q->v.p, "hello", 6), "string label resolves to its text and size"); symx_cover("string"); }
    symx_cover("runs");
  }
  rvm_codegen_destroy(g); rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
