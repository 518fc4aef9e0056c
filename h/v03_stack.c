/* V03: PUSHM/PUSH of any register set followed by POPM/POP of the same set, registers of any type, any stack pointer. */
#include "v_common.h"
static int same(const rvmreg_t *a, const rvmreg_t *b) { return a->v.w == b->v.w && a->type == b->type && a->size == b->size && a->flags == b->flags; }
int main(void) {
  static const int REG[] = {R0, R1, R6, R7, IP, TP, FP, SP, LR};
  rvm_asmins_t p[48]; rvmreg_t r[16]; int i, n = 0, cnt = 0, pm = symx_choose("push", 0, 1), qm = symx_choose("pop", 0, 1); unsigned sel = symx_choose("mask", 0, MASKS), mask = 0;
  rvmcpu_t *c = rvm_cpu_create(32); uint64_t sp = symx_range("sp", 0, 14), st = symx_u64("st"); c->status = st;
  for (i = 0; i < 9; i++) if (sel >> i & 1) { mask |= BIT(REG[i]); cnt++; }
  memset(r, 0, sizeof r);
  for (i = 0; i < 13; i++) {
    r[i].v.w = symx_u64("v"); r[i].type = symx_u8("type"); r[i].size = symx_u32("size"); r[i].flags = symx_u16("flags");
    if (i == SP) { memset(&r[i], 0, sizeof r[i]); r[i].v.w = sp; }
    rvm_cpu_setreg(c, i, &r[i]);
  }
  if (pm) p[n++] = rvm_asm(RVM_PUSHM, DA, XX, XX, mask);
  else for (i = 0; i < 13; i++) if (mask & BIT(i)) { if (i == SP) { p[n++] = rvm_asm(RVM_MOV, R5, DA, XX, 0); p[n - 1].op2 = SP; p[n - 1].da = 0; p[n++] = rvm_asm(RVM_SUB, R5, R5, DA, __builtin_popcount(mask & (BIT(SP) - 1))); p[n++] = rvm_asm(RVM_PUSH, R5, XX, XX, 0); } else p[n++] = rvm_asm(RVM_PUSH, i, XX, XX, 0); }
  p[n++] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  int mid = n;
  for (i = 0; i < 13; i++) if (i != SP) p[n++] = rvm_asm(RVM_MOV, i, DA, XX, 1000 + i);
  if (qm) p[n++] = rvm_asm(RVM_POPM, DA, XX, XX, mask);
  else for (i = 12; i >= 0; i--) if (mask & BIT(i)) { if (i == SP) { p[n++] = rvm_asm(RVM_SUB, SP, SP, DA, 1); } else p[n++] = rvm_asm(RVM_POP, i, XX, XX, 0); }
  p[n++] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  CHECK(rvm_cpu_exec(c, p, 0) == 0, "push runs");
  CHECK(getu(c, SP) == sp + cnt, "the stack pointer moved by the number of registers");
  for (i = 0; i < 13; i++) if (i != SP && (i != R5 || pm)) CHECK(same(rvm_cpu_getreg(c, i), &r[i]), "pushing changes no register");
  CHECK(rvm_cpu_exec(c, p, mid) == 0, "pop runs");
  for (i = 0; i < 13; i++) if (i != SP) { rvmreg_t *q = rvm_cpu_getreg(c, i); if (mask & BIT(i)) CHECK(same(q, &r[i]), "popping restores every register"); else CHECK(q->v.w == 1000 + i, "popping touches no other register"); }
  CHECK(getu(c, SP) == sp, "the stack pointer is restored"); CHECK(c->status == st, "flags unchanged");
  rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
