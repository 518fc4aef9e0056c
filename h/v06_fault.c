/* V06: faults stop the machine with the right status, touch nothing else, and leave it usable. */
#include "v_common.h"
#define SS 20
static void swi(rvmcpu_t *c, rvm_asmins_t *i) { rvm_cpu_abort(c); }
static void swiok(rvmcpu_t *c, rvm_asmins_t *i) { setu(c, R5, 4321); }
static rvm_switable_t tab[] = {{"stop", swi}, {"ok", swiok}, {NULL, NULL}};
int main(void) {
  rvm_asmins_t p[12], q[4]; int i, k = symx_choose("fault", FLO, FHI), dbg = 0; uint64_t r[16], sp = symx_u64("sp"), v = symx_u64("v"), w = symx_u64("w"); uint64_t err = 0; int n = 0, ok = 0, loop = 0, maybe = 0;
  rvmcpu_t *c = rvm_cpu_create(SS);
  rvm_cpu_addswitable(c, "t", tab);
  for (i = 0; i < SS; i++) { setu(c, R7, 900 + i); q[0] = rvm_asm(RVM_STS, R7, DA, XX, i); q[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0); CHECK(rvm_cpu_exec(c, q, 0) == 0, "fill"); }
  for (i = 0; i < 13; i++) { r[i] = 600 + i; setu(c, i, r[i]); }
  r[R0] = v; setu(c, R0, v); r[R1] = w; setu(c, R1, w); r[SP] = sp; setu(c, SP, sp);
  p[n++] = rvm_asm(RVM_NOP, XX, XX, XX, 0);
  static const int DV[] = {RVM_DIV, RVM_DIVS, RVM_DVS, RVM_MOD, RVM_MODS};
  switch (k) {
  case 0: { int o = DV[symx_choose("div", 0, 4)], im = symx_choose("imm", 0, 2); if (im == 0) p[n++] = rvm_asm(o, R2, R0, DA, 0); else if (im == 1) { r[R1] = 0; setu(c, R1, 0); p[n++] = rvm_asm(o, R2, R0, R1, 0); } else { r[R1] = 0; setu(c, R1, 0); p[n++] = rvm_asm(o, R2, DA, R1, v); } err = RVM_E_DIVZERO; break; }
  case 1: { unsigned op = symx_u32("opcode"); p[n] = rvm_asm(RVM_NOP, R0, R1, DA, v); p[n].opcode = op; symx_assume(p[n].opcode >= RVM_RESERVED84); if (p[n].opcode < RVM_COUNT) p[n].opcode = symx_concretize(p[n].opcode); n++; err = RVM_E_ILLEGAL; break; }
  case 2: { int im = symx_choose("imm", 0, 1); p[n++] = im ? rvm_asm(RVM_ABORT, DA, XX, XX, v) : rvm_asm(RVM_ABORT, R0, XX, XX, 0); symx_assume(v != 0); err = v; break; }
  case 3: symx_assume(sp >= SS - 1 && sp != ~0ull); p[n++] = rvm_asm(RVM_PUSH, R0, XX, XX, 0); err = RVM_E_NOMEM; break;
  case 4: symx_assume(sp >= SS); p[n++] = rvm_asm(RVM_POP, R0, XX, XX, 0); err = RVM_E_NOMEM; break;
  case 5: maybe = 1; p[n++] = rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R0) | BIT(R1) | BIT(LR)); err = RVM_E_NOMEM; symx_assume(sp >= SS - 3 && sp != ~0ull); break;
  case 6: symx_assume(sp >= SS); p[n++] = rvm_asm(RVM_POPM, DA, XX, XX, BIT(R0) | BIT(LR)); err = RVM_E_NOMEM; break;
  case 7: { int o = symx_choose("op", 0, 2); symx_assume(v + w >= SS); p[n++] = o == 0 ? rvm_asm(RVM_STS, R2, R0, R1, 0) : o == 1 ? rvm_asm(RVM_LDS, R2, R0, R1, 0) : rvm_asm(RVM_ADDRS, R2, R0, R1, 0); err = RVM_E_NOMEM; break; }
  case 8: { uint8_t t = symx_u8("type"); symx_assume(t != RVM_DTYPE_SWIID && t != RVM_DTYPE_FUNCTION && t != RVM_DTYPE_OPHANDLER); rvm_cpu_getreg(c, R0)->type = t; p[n++] = rvm_asm(RVM_CALL, R0, XX, XX, 0); err = RVM_E_NOTFUNCTION; break; }
  case 9: { uint8_t t = symx_u8("type"); symx_assume(t != RVM_DTYPE_POINTER); rvm_cpu_getreg(c, R1)->type = t; p[n++] = rvm_asm(RVM_STRR, R0, R1, XX, 0); err = RVM_E_LVALUE; break; }
  case 10: { unsigned t = symx_range("table", 1, 0xff); if (symx_choose("id", 0, 1)) p[n++] = rvm_asm(RVM_OPSWI(RVM_SWI_ID(t, 0)), R0, XX, XX, 0); else { r[R1] = RVM_SWI_ID(t, 0); setu(c, R1, r[R1]); p[n++] = rvm_asm(RVM_SWIID, R1, XX, XX, 0); } err = RVM_E_SWITABLE; break; }
  case 11: p[n++] = rvm_asm(RVM_OPSWI(RVM_SWI_ID(0, 0)), R0, XX, XX, 0); err = RVM_E_USERABORT; break;
  case 12: sp = symx_range("start", 0, 3); r[SP] = sp; setu(c, SP, sp); p[n++] = rvm_asm(RVM_PUSH, R0, XX, XX, 0); p[n++] = rvm_asm(RVM_B, DA, XX, XX, (ruword)-1); err = RVM_E_NOMEM; loop = 1; break;
  case 13: sp = 0; r[SP] = 0; setu(c, SP, 0); p[n++] = rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(LR) | BIT(FP)); p[n++] = rvm_asm(RVM_BL, DA, XX, XX, (ruword)-1); err = RVM_E_NOMEM; loop = 2; break;
  }
  p[n++] = rvm_asm(RVM_MOV, R6, DA, XX, 1); p[n++] = rvm_asm(RVM_MOV, R0, DA, XX, 1); p[n++] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  int rc = rvm_cpu_exec(c, p, 0);
  CHECK(rc < 0, "a fault makes the run fail"); CHECK(c->error == err, "the matching error status");
  CHECK(getu(c, R6) == 606, "the machine stops at the faulting instruction");
  for (i = 0; i < 13; i++) if (!(loop && (i == SP || i == LR)) && !(k == 11 && i == R5)) CHECK(getu(c, i) == r[i], "registers keep their values");
  for (i = 0; i < SS; i++) { if (loop && i > (int)0) continue; CHECK(((rvmreg_t *)c->stack)[i].v.w == 900 + i, "the stack keeps its content"); }
  if (loop == 1) { CHECK(getu(c, SP) == SS - 1, "every slot was used before the stack ran out"); for (i = 0; i < SS; i++) CHECK(((rvmreg_t *)c->stack)[i].v.w == (i > sp ? v : 900 + i), "pushed values"); symx_cover("loop"); }
  /* the machine runs another program afterwards */
  setu(c, SP, 0); setu(c, R1, 40); setu(c, R0, v);
  q[0] = rvm_asm(RVM_PUSH, R0, XX, XX, 0); q[1] = rvm_asm(RVM_ADD, R1, R1, DA, 2); q[2] = rvm_asm(RVM_POP, R2, XX, XX, 0); q[3] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  CHECK(rvm_cpu_exec(c, q, 0) == 0 && c->error == 0 && getu(c, R1) == 42 && getu(c, R2) == v && getu(c, SP) == 0, "the machine is usable after a fault");
  q[0] = rvm_asm(RVM_OPSWI(RVM_SWI_ID(0, 1)), R0, XX, XX, 0); q[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0); CHECK(rvm_cpu_exec(c, q, 0) == 0 && getu(c, R5) == 4321, "callbacks work after a fault");
  rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned"); (void)ok; (void)dbg; (void)maybe;
  symx_cover("end"); return 0;
}
