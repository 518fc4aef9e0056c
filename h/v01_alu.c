/* V01/V02: one data instruction with every operand value, every mix of operand kinds, from every status. */
#include "v_common.h"
enum { A_NONE, A_NZ, A_NZCV, A_NZC };
static const struct { int op, nsrc; } T[] = {
  {RVM_ADD,2},{RVM_ADDS,2},{RVM_ADC,2},{RVM_SUB,2},{RVM_SUBS,2},{RVM_SBC,2},{RVM_MUL,2},{RVM_MLS,2},{RVM_DIV,2},{RVM_DIVS,2},{RVM_DVS,2},{RVM_MOD,2},{RVM_MODS,2},
  {RVM_AND,2},{RVM_ORR,2},{RVM_XOR,2},{RVM_BIC,2},{RVM_NOT,1},{RVM_INC,0},{RVM_DEC,0},{RVM_CLZ,1},{RVM_LSL,2},{RVM_LSR,2},{RVM_LSRS,2},{RVM_ASR,2},{RVM_ROR,2},
  {RVM_MOV,1},{RVM_MOVS,1},{RVM_SWP,9},{RVM_CLR,0},{RVM_NOP,8},{RVM_CMP,7},{RVM_CMN,7},{RVM_TST,7},{RVM_TEQ,6},{RVM_MULS,2}};
#define NT (int)(sizeof T / sizeof *T)
static int neg(uint64_t x) { return x >> 63; }
int main(void) {
  uint64_t r[8], imm = symx_u64("imm"); rvm_asmins_t p[2]; int i, k = symx_choose("ins", LO, HI < NT ? HI : NT - 1), op = T[k].op, ns = T[k].nsrc;
  rvmcpu_t *c = rvm_cpu_create(64);
  for (i = 0; i < 8; i++) { r[i] = symx_u64("r"); setu(c, i, r[i]); }
  setu(c, SP, 5); setu(c, LR, 77); setu(c, FP, 88);
  static const int O1[] = {R0, R1, R7}, O2[] = {R1, DA}, O3[] = {R2, R1, DA, R0};
  int o1 = ns == 8 ? XX : O1[symx_choose("op1", 0, 2)], o2 = XX, o3 = XX;
  if (ns == 7) { o1 = O2[symx_choose("opA", 0, 1)]; o2 = O3[symx_choose("opB", 0, 2)]; if (o1 == DA && o2 == DA) symx_end_path(); }
  else if (ns == 6) { o1 = XX; o2 = O2[symx_choose("opA", 0, 1)]; o3 = O3[symx_choose("opB", 0, 2)]; }
  else if (ns == 9) o2 = symx_choose("op2", 0, 1) ? R2 : R1;
  else if (ns == 1 || ns == 2) { o2 = O2[symx_choose("op2", 0, 1)]; if (ns == 2) o3 = O3[symx_choose("op3", 0, 3)]; }
  p[0] = rvm_asm(op, o1, o2, o3, imm); p[1] = rvm_asm(RVM_EXT, XX, XX, XX, 0);
  uint64_t a = o2 == DA ? imm : o2 < 8 ? r[o2] : 0, b = o3 == DA ? imm : o3 < 8 ? r[o3] : 0, st = symx_u64("status"), d = 0, e[8], f = 0; int fl = A_NONE, wr = 1, ci;
  if (ns == 7) { a = o1 == DA ? imm : r[o1]; b = o2 == DA ? imm : r[o2]; }
  symx_assume((st & ~(uint64_t)RVM_STATUS_ALL) == 0); c->status = st; ci = (st & RVM_STATUS_C) ? 1 : 0;
  int64_t sa = a, sb = b;
  memcpy(e, r, sizeof e);
  if (op == RVM_DIV || op == RVM_DIVS || op == RVM_DVS || op == RVM_MOD || op == RVM_MODS) symx_assume(b != 0);
  if (op == RVM_LSL || op == RVM_LSR || op == RVM_LSRS || op == RVM_ASR || op == RVM_ROR) symx_assume(b < 64);
  switch (op) {
  case RVM_ADD: d = a + b; break;
  case RVM_ADDS: d = a + b; fl = A_NZCV; f = (d < a ? RVM_STATUS_C : 0) | (neg(a) == neg(b) && neg(d) != neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_ADC: d = a + b + ci; fl = A_NZCV; f = (b > ~a || (ci && b == ~a) ? RVM_STATUS_C : 0) | (neg(a) == neg(b) && neg(d) != neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_SUB: d = a - b; break;
  /* carry = no borrow; overflow as the library's own tests define it for subtraction (operand signs differ, result keeps the sign of the first) */
  case RVM_SUBS: d = a - b; fl = A_NZCV; f = (a >= b ? RVM_STATUS_C : 0) | (neg(a) != neg(b) && neg(d) == neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_SBC: d = a - b - !ci; fl = A_NZCV; f = (ci ? a >= b : a > b) ? RVM_STATUS_C : 0; f |= (neg(a) != neg(b) && neg(d) == neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_MUL: d = a * b; break;
  case RVM_MLS: d = a * b; fl = A_NZ; break;
  case RVM_MULS: { static const uint64_t CV[] = {0, 1, 2, 3, 5, 0x100000000ull, SB, ~0ull, SB - 1, 0x100000001ull}; uint64_t cv = CV[symx_choose("cv", 0, MULV)]; symx_assume(a == cv); d = cv * b; fl = A_NZC; if (cv && b > ~0ull / cv) f = RVM_STATUS_C; break; }
  case RVM_DIV: d = a / b; break;
  case RVM_DIVS: d = a / b; fl = A_NZ; break;
  case RVM_MOD: d = a % b; break;
  case RVM_DVS: fl = A_NZ; if (sb == -1) { d = 0 - a; symx_cover("minus-one"); } else d = sa / sb; break;
  case RVM_MODS: fl = A_NZ; if (sb == -1) d = 0; else d = sa % sb; break;
  case RVM_AND: d = a & b; fl = A_NZ; break;
  case RVM_ORR: d = a | b; fl = A_NZ; break;
  case RVM_XOR: d = a ^ b; fl = A_NZ; break;
  case RVM_BIC: d = a & ~b; fl = A_NZ; break;
  case RVM_NOT: d = ~a; fl = A_NZ; break;
  case RVM_INC: d = r[o1] + 1; break;
  case RVM_DEC: d = r[o1] - 1; break;
  case RVM_CLZ: d = 64; break; /* checked below */
  case RVM_LSL: d = a << b; fl = A_NZ; break;
  case RVM_LSR: d = a >> b; fl = A_NZ; break;
  case RVM_LSRS: case RVM_ASR: d = (uint64_t)(sa >> b); fl = A_NZ; break;
  case RVM_ROR: d = b ? (a >> b) | (a << (64 - b)) : a; fl = A_NZC; break;
  case RVM_MOV: d = a; break;
  case RVM_MOVS: d = a; fl = A_NZ; break;
  case RVM_SWP: e[o2] = r[o1]; d = r[o2]; if (o1 == o2) d = r[o1]; break;
  case RVM_CLR: d = 0; break;
  case RVM_NOP: wr = 0; break;
  case RVM_CMP: wr = 0; d = a - b; fl = A_NZCV; f = (a < b ? RVM_STATUS_C : 0) | (neg(a) != neg(b) && neg(d) == neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_CMN: wr = 0; d = a + b; fl = A_NZCV; f = (d < a ? RVM_STATUS_C : 0) | (neg(a) == neg(b) && neg(d) != neg(a) ? RVM_STATUS_V : 0); break;
  case RVM_TST: wr = 0; d = a & b; fl = A_NZ; break;
  case RVM_TEQ: wr = 0; d = a ^ b; fl = A_NZ; break;
  }
  cap_begin(); int rc = rvm_cpu_exec(c, p, 0); size_t out; cap_end(&out);
  CHECK(rc == 0 && c->error == 0, "the instruction succeeds"); CHECK(out == 0, "nothing is printed");
  if (op == RVM_CLZ) { uint64_t n = getu(c, o1); CHECK(n <= 64, "leading zeros"); n = symx_concretize(n); CHECK(n == 64 ? a == 0 : (a >> (63 - n)) == 1, "leading zeros"); d = n; }
  if (wr) e[o1] = d;
#ifdef FLAGS
  uint64_t s = c->status;
  if (fl == A_NONE) CHECK(s == st, "an instruction without flag effect leaves the flags alone");
  else {
    CHECK(!!(s & RVM_STATUS_Z) == (d == 0), "zero flag"); CHECK(!!(s & RVM_STATUS_N) == neg(d), "negative flag");
    if (fl == A_NZCV) CHECK((s & (RVM_STATUS_C | RVM_STATUS_V)) == f, "carry and overflow flags");
    if (op == RVM_MULS) CHECK((s & RVM_STATUS_C) == f, "multiplication carry");
    if (op == RVM_ROR) CHECK(!!(s & RVM_STATUS_C) == neg(d), "rotation carry");
    symx_cover("flags");
  }
#else
  for (i = 0; i < 8; i++) CHECK(getu(c, i) == e[i], wr && i == o1 ? "result" : "other registers unchanged");
  CHECK(getu(c, SP) == 5 && getu(c, LR) == 77 && getu(c, FP) == 88, "system registers unchanged");
#endif
  rvm_cpu_destroy(c); CHECK(r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
