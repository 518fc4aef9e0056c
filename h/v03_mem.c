/* V03: sized stores and loads at any displacement; stack-slot stores and loads; multiple stores and loads. */
#include "v_common.h"
#define NB 40
static int same(const rvmreg_t *a, const rvmreg_t *b) { return a->v.w == b->v.w && a->type == b->type && a->size == b->size && a->flags == b->flags; }
int main(void) {
  static const int ST[] = {RVM_STRB, RVM_STRH, RVM_STRW, RVM_STR, RVM_STRP}, LD[] = {RVM_LDRB, RVM_LDRH, RVM_LDRW, RVM_LDR, RVM_LDRP}, SZ[] = {1, 2, 4, 8, 8};
  int k = symx_choose("kind", 0, 3), i; rvm_asmins_t p[8]; rvmcpu_t *c = rvm_cpu_create(24); uint64_t st = symx_u64("st"); c->status = st;
  for (i = 0; i < 13; i++) setu(c, i, 500 + i);
  if (k == 0) {                                   /* plain memory */
    unsigned char *m = malloc(NB), o[NB]; int s = symx_choose("store", 0, 4), l = symx_choose("load", 0, 4); uint64_t v = symx_u64("v"), off = symx_choose("off", 0, NB - 8), off2 = symx_choose("off2", off > 3 ? off - 3 : 0, off + 3 > NB - 8 ? NB - 8 : off + 3);
    symx_bytes(m, NB, "mem"); memcpy(o, m, NB);
    setu(c, R1, v);
    rvmreg_t a; memset(&a, 0, sizeof a); rvm_reg_setpointer(&a, m + off); rvm_cpu_setreg(c, R2, &a); rvm_reg_setpointer(&a, m + off2); rvm_cpu_setreg(c, R3, &a);
    int im = symx_choose("imm", 0, 1);
    p[0] = im ? rvm_asmp(ST[s], R1, DA, XX, m + off) : rvm_asm(ST[s], R1, R2, XX, 0);
    p[1] = im ? rvm_asmp(LD[l], R4, DA, XX, m + off2) : rvm_asm(LD[l], R4, R3, XX, 0);
    p[2] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
    CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs");
    for (i = 0; i < SZ[s]; i++) o[off + i] = v >> (8 * i);
    CHECK(!memcmp(m, o, NB), "a store writes exactly its bytes");
    uint64_t w = 0; for (i = SZ[l] - 1; i >= 0; i--) w = w << 8 | o[off2 + i];
    CHECK(getu(c, R4) == w, "a load returns exactly the bytes at its address");
    CHECK(getu(c, R1) == v && getu(c, R5) == 505 && getu(c, R0) == 500, "no other register changes");
    free(m); symx_cover("mem");
  } else if (k == 1) {                            /* stack slots */
    rvmreg_t v, *q; memset(&v, 0, sizeof v); v.v.w = symx_u64("v"); v.type = symx_u8("type"); v.size = symx_u32("size"); v.flags = symx_u16("flags");
    uint64_t b = symx_range("base", 0, 23), d = symx_u64("disp"), e = symx_range("other", 0, 23); symx_assume(b + d < 24); symx_assume(e != b + d);
    for (i = 0; i < 24; i++) { setu(c, R7, 900 + i); p[0] = rvm_asm(RVM_STS, R7, DA, XX, i); p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0); CHECK(rvm_cpu_exec(c, p, 0) == 0, "fill"); }
    rvm_cpu_setreg(c, R1, &v); setu(c, FP, b);
    int im = symx_choose("form", 0, 2); setu(c, R6, d);
    p[0] = im == 0 ? rvm_asm(RVM_STS, R1, FP, DA, d) : im == 1 ? rvm_asm(RVM_STS, R1, FP, R6, 0) : rvm_asm(RVM_STS, R1, DA, XX, b + d);
    p[1] = im == 1 ? rvm_asm(RVM_LDS, R2, FP, DA, d) : im == 2 ? rvm_asm(RVM_LDS, R2, FP, R6, 0) : rvm_asm(RVM_LDS, R2, DA, XX, b + d);
    p[2] = rvm_asm(RVM_LDS, R3, DA, XX, e);
    p[3] = rvm_asm(RVM_ADDRS, R4, FP, DA, d);
    p[4] = rvm_asm(RVM_LDRR, R5, R4, XX, 0);
    p[5] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
    CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs");
    CHECK(same(rvm_cpu_getreg(c, R2), &v), "a stack load returns what the stack store wrote"); CHECK(getu(c, R3) == 900 + e, "neighbouring slots untouched");
    q = rvm_cpu_getreg(c, R4); CHECK(q->type == RVM_DTYPE_POINTER && q->v.p == (char *)c->stack + (b + d) * sizeof(rvmreg_t), "address of a stack slot"); CHECK(same(rvm_cpu_getreg(c, R5), &v), "load through the slot's address");
    CHECK(getu(c, SP) == 500 + SP && getu(c, FP) == b, "frame registers unchanged"); symx_cover("slot");
  } else if (k == 2) {                            /* STM/LDM */
    static const int REG[] = {R0, R3, R4, R7, IP, TP, FP, SP, LR};
    unsigned sel = symx_choose("mask", 0, MASKS), mask = 0; int n = 0, j = 0, eq = 1; uint64_t v[13], *m;
    for (i = 0; i < 9; i++) if (sel >> i & 1) { mask |= BIT(REG[i]); n++; }
    m = malloc((n + 1) * 8); m[n] = 0x1234;
    for (i = 0; i < 13; i++) { v[i] = symx_u64("v"); setu(c, i, v[i]); }
    p[0] = rvm_asmp(RVM_MOV, R1, DA, XX, m); p[1] = rvm_asm(RVM_STM, R1, DA, XX, mask); p[2] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
    CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs");
    for (i = 0; i < 13; i++) if (mask & BIT(i)) { if (m[j] != v[i]) eq = 0; j++; }
    CHECK(eq, "registers stored in ascending order"); CHECK(m[n] == 0x1234, "nothing written past the last register");
    for (i = 0; i < 13; i++) setu(c, i, 700 + i);
    p[0] = rvm_asmp(RVM_MOV, R1, DA, XX, m); p[1] = rvm_asm(RVM_LDM, R1, DA, XX, mask);
    CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs");
    for (i = 0; i < 13; i++) if (i != R1) CHECK(getu(c, i) == (mask & BIT(i) ? v[i] : 700 + i), "a multiple load restores exactly the stored registers");
    free(m); symx_cover("multiple");
  } else {                                        /* whole registers through memory */
    rvmreg_t *m = malloc(3 * sizeof *m), v, o[3]; memset(&v, 0, sizeof v); v.v.w = symx_u64("v"); v.type = symx_u8("type"); v.size = symx_u32("size"); v.flags = symx_u16("flags"); memset(m, 7, 3 * sizeof *m); memcpy(o, m, sizeof o);
    int at = symx_choose("at", 0, 2); rvm_cpu_setreg(c, R1, &v);
    p[0] = rvm_asmp(RVM_STRR, R1, DA, XX, m + at); p[1] = rvm_asmp(RVM_LDRR, R2, DA, XX, m + at); p[2] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
    CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs"); CHECK(same(rvm_cpu_getreg(c, R2), &v), "a register survives memory");
    for (i = 0; i < 3; i++) if (i == at) CHECK(same(m + i, &v), "stored register"); else CHECK(!memcmp(m + i, o + i, sizeof *m), "neighbours untouched");
    p[0] = rvm_asmp(RVM_CLRR, DA, XX, XX, m + at); p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0); CHECK(rvm_cpu_exec(c, p, 0) == 0, "runs");
    CHECK(m[at].type == RVM_DTYPE_UNDEF && m[at].v.w == 0, "cleared register"); for (i = 0; i < 3; i++) if (i != at) CHECK(!memcmp(m + i, o + i, sizeof *m), "neighbours untouched");
    p[0] = rvm_asm(RVM_CLR, R2, XX, XX, 0); CHECK(rvm_cpu_exec(c, p, 0) == 0 && rvm_cpu_getreg(c, R2)->type == RVM_DTYPE_UNDEF && getu(c, R2) == 0 && same(rvm_cpu_getreg(c, R1), &v), "clear"); free(m); symx_cover("whole");
  }
  CHECK(c->status == st, "flags unchanged");
  rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
