/* V02: every branch, after a comparison of any two words and from every status word. */
#include "v_common.h"
enum { EQ, NE, LE, GE, LT, GT, AL };
static const struct { int op, rel, abs; } T[] = {
  {RVM_BEQ,EQ,0},{RVM_BNEQ,NE,0},{RVM_BLEQ,LE,0},{RVM_BGEQ,GE,0},{RVM_BLES,LT,0},{RVM_BGRE,GT,0},{RVM_B,AL,0},
  {RVM_BXEQ,EQ,1},{RVM_BXNEQ,NE,1},{RVM_BXLEQ,LE,1},{RVM_BXGEQ,GE,1},{RVM_BXLES,LT,1},{RVM_BXGRE,GT,1},{RVM_BX,AL,1}};
int main(void) {
  rvm_asmins_t p[10]; int i, k = symx_choose("ins", 0, 13), how = symx_choose("how", 0, 2), back = symx_choose("back", 0, 1), o = back ? 3 : 0;
  uint64_t a = symx_u64("a"), b = symx_u64("b"), st = symx_u64("st"), s0; int64_t sa = a, sb = b; rvmcpu_t *c = rvm_cpu_create(32);
  symx_assume((st & ~(uint64_t)RVM_STATUS_ALL) == 0);
  for (i = 0; i < 8; i++) setu(c, i, 100 + i);
  setu(c, R0, a); setu(c, R1, b); setu(c, SP, 5); setu(c, LR, 77); setu(c, FP, 88); c->status = st;
  /* o: program start; target 0 (backwards) or o+4 (forwards) */
  int tgt = back ? 0 : o + 4;
  for (i = 0; i < 10; i++) p[i] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  p[tgt] = rvm_asm(RVM_MOV, R3, DA, XX, 2);
  p[o] = how == 0 ? rvm_asm(RVM_CMP, R0, R1, XX, 0) : how == 1 ? rvm_asm(RVM_CMP, R0, DA, XX, b) : rvm_asm(RVM_NOP, XX, XX, XX, 0);
  p[o + 1] = T[k].abs ? rvm_asmp(T[k].op, DA, XX, XX, (rpointer)(p + tgt - 1)) : rvm_asm(T[k].op, DA, XX, XX, (ruword)(rword)(tgt - (o + 1)));
  p[o + 2] = rvm_asm(RVM_MOV, R3, DA, XX, 1);
  int rc = rvm_cpu_exec(c, p, o), taken = getu(c, R3) == 2, want, ov = 0;
  CHECK(rc == 0, "runs"); CHECK(taken || getu(c, R3) == 1, "goes one way or the other");
  s0 = c->status;
  int z = !!(s0 & RVM_STATUS_Z), n = !!(s0 & RVM_STATUS_N);
  switch (T[k].rel) { case EQ: want = z; break; case NE: want = !z; break; case LE: want = n || z; break; case GE: want = !n || z; break; case LT: want = n; break; case GT: want = !n && !z; break; default: want = 1; }
  CHECK(taken == want, "the branch follows the flags");
  if (how == 2) { CHECK(s0 == st, "a branch leaves the flags alone"); symx_cover("flags"); }
  else {
    switch (T[k].rel) { case EQ: want = a == b; break; case NE: want = a != b; break; case LE: want = sa <= sb; break; case GE: want = sa >= sb; break; case LT: want = sa < sb; break; case GT: want = sa > sb; break; }
    ov = T[k].rel >= LE && T[k].rel <= GT && (int)(a >> 63) != (int)(b >> 63) && (int)((a - b) >> 63) != (int)(a >> 63);
    if (ov) { symx_cover("overflow"); CHECK(taken == want, "signed branch after a comparison whose difference overflows"); }
    else CHECK(taken == want, "the branch is taken exactly when the relation holds");
  }
  CHECK(getu(c, R0) == a && getu(c, R1) == b, "operands unchanged");
  for (i = 2; i < 8; i++) if (i != 3) CHECK(getu(c, i) == 100 + i, "registers unchanged");
  CHECK(getu(c, SP) == 5 && getu(c, LR) == 77 && getu(c, FP) == 88, "system registers unchanged");
  rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover(taken ? "taken" : "not-taken"); symx_cover("end"); return 0;
}
