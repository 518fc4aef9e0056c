#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "rlib/rmem.h"
#include "rvm/rvmcpu.h"
#define SB 0x8000000000000000ull
#define FALL (RVM_STATUS_Z | RVM_STATUS_N | RVM_STATUS_C | RVM_STATUS_V)
static rvmreg_t regu(uint64_t v) { rvmreg_t r; memset(&r, 0, sizeof r); rvm_reg_setunsigned(&r, v); return r; }
static void setu(rvmcpu_t *c, int n, uint64_t v) { rvmreg_t r = regu(v); rvm_cpu_setreg(c, n, &r); }
static uint64_t getu(rvmcpu_t *c, int n) { return RVM_REG_GETU(rvm_cpu_getreg(c, n)); }
