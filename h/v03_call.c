/* V03: calls through BL, BXL and CALL nested to depth D and recursion; frames built by the code generator. */
#include "v_common.h"
#include "rvm/rvmcodegen.h"
static rvm_codegen_t *g;
static void call(const char *f, int how) {
  if (how == 0) rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, f, rvm_asm(RVM_BL, DA, XX, XX, 0));
  else if (how == 1) rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, f, rvm_asm(RVM_BXL, DA, XX, XX, 0));
  else rvm_codegen_addrelocins_s(g, RVM_RELOC_JUMP, f, rvm_asmf(RVM_CALL, DA, XX, XX, 0));
}
#define INS(...) rvm_codegen_addins(g, rvm_asm(__VA_ARGS__))
int main(void) {
  static const char *F[] = {"f0", "f1", "f2", "f3", "f4"};
  int i, j, d = symx_choose("depth", 1, D), rec = symx_choose("rec", 0, 1), how[5], nl[5], twice = 0; rvmcpu_t *c = rvm_cpu_create(200); rvm_codelabel_t *err = NULL; uint64_t x = symx_u64("x"), fp = symx_u64("fp"), lr = symx_u64("lr"), sp = symx_range("sp", 0, 7), exp;
  g = rvm_codegen_create();
  setu(c, FP, fp); setu(c, LR, lr); setu(c, SP, sp); setu(c, R0, x);
  symx_assume(sp == 0 || sp == 7); sp = symx_concretize(sp);
  setu(c, SP, sp);
  if (rec) { /* sum of 1..n + x by recursion, n symbolic */
    uint64_t n = symx_range("n", 0, NREC); int h = symx_choose("how", 0, 2), k;
    setu(c, R1, n);
    call("sum", h); INS(RVM_MOV, R6, DA, XX, 99); INS(RVM_EXT, XX, XX, XX, 0);
    rvm_codegen_funcstart_s(g, "sum", 1); INS(RVM_STS, R1, FP, DA, 1); INS(RVM_CMP, R1, DA, XX, 0);
    rvm_codegen_addrelocins_s(g, RVM_RELOC_BRANCH, "done", rvm_asm(RVM_BEQ, DA, XX, XX, 0));
    INS(RVM_SUB, R1, R1, DA, 1); call("sum", h); INS(RVM_LDS, R2, FP, DA, 1); INS(RVM_ADD, R0, R0, R2, 0);
    rvm_codegen_addlabel_default_s(g, "done"); rvm_codegen_funcend(g);
    CHECK(rvm_codegen_relocate(g, &err) == 0, "relocates"); CHECK(rvm_cpu_exec(c, rvm_codegen_getcode(g, 0), 0) == 0, "runs");
    exp = x; for (k = 1; k <= NREC; k++) exp += k <= n ? k : 0;
    CHECK(getu(c, R0) == exp, "recursion computes its sum"); CHECK(getu(c, R6) == 99, "returns to the instruction after the call"); symx_cover("recursion");
  } else {
    for (i = 0; i < d; i++) { how[i] = symx_choose("how", 0, 2); nl[i] = symx_choose("locals", 0, 2); }
    twice = symx_choose("twice", 0, 1);
    exp = x;
    call(F[0], how[0]); if (twice) call(F[0], how[d - 1]);
    INS(RVM_MOV, R6, DA, XX, 99); INS(RVM_EXT, XX, XX, XX, 0);
    /* fi: R0 = 3*R0+1; keep a local; call f(i+1); check the local; R0 += local */
    for (i = 0; i < d; i++) {
      rvm_codegen_funcstart_s(g, F[i], nl[i]);
      INS(RVM_MUL, R0, R0, DA, 3); INS(RVM_ADD, R0, R0, DA, 1);
      for (j = 1; j <= nl[i]; j++) INS(RVM_STS, R0, FP, DA, j);
      if (i + 1 < d) call(F[i + 1], how[i + 1]);
      for (j = 1; j <= nl[i]; j++) { INS(RVM_LDS, R2, FP, DA, j); INS(RVM_ADD, R0, R0, R2, 0); }
      rvm_codegen_funcend(g);
    }
    CHECK(rvm_codegen_relocate(g, &err) == 0, "relocates"); CHECK(rvm_cpu_exec(c, rvm_codegen_getcode(g, 0), 0) == 0, "runs");
    for (j = 0; j <= twice; j++) { uint64_t loc[5]; for (i = 0; i < d; i++) loc[i] = exp = exp * 3 + 1; for (i = d - 1; i >= 0; i--) { int q; for (q = 0; q < nl[i]; q++) exp += loc[i]; } }
    CHECK(getu(c, R0) == exp, "nested calls compute the expected value"); CHECK(getu(c, R6) == 99, "returns to the instruction after the call"); symx_cover("nested");
  }
  CHECK(getu(c, FP) == fp, "the caller's frame pointer is restored"); CHECK(getu(c, SP) == sp, "the caller's stack pointer is restored");
  /* a leaf without frame: BL/RET and BXL/BX LR */
  { rvm_asmins_t p[6]; int h = symx_choose("leaf", 0, 2);
    p[0] = h == 1 ? rvm_asmp(RVM_BXL, DA, XX, XX, p + 2) : rvm_asm(RVM_BL, DA, XX, XX, 3);
    p[1] = rvm_asm(RVM_ADD, R1, R1, DA, 7); p[2] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
    p[3] = rvm_asm(RVM_MOV, R1, DA, XX, 5); p[4] = h == 0 ? rvm_asm(RVM_RET, XX, XX, XX, 0) : rvm_asm(RVM_BX, LR, XX, XX, 0);
    CHECK(rvm_cpu_exec(c, p, 0) == 0 && getu(c, R1) == 12 && getu(c, SP) == sp && getu(c, FP) == fp, "leaf call returns after the call"); }
  rvm_codegen_destroy(g); rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
