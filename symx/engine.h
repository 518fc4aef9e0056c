// symx: symbolic executor for LLVM bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Val { u64 c; Expr *e; };

enum Op : u16 {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_SELECT,
  O_LOAD, O_STORE, O_ADDI, O_GEP1, O_GEPN,
  O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_CALLIND, O_BUILTIN, O_ALLOCA,
  O_FBIN, O_FCMP, O_FCVT, O_FNEG,
  O_UNREACHABLE, O_LANDINGPAD, O_RESUME, O_CMPXCHG, O_ATOMICRMW, O_UNSUPPORTED,
  O_OVERFLOW, O_MINMAX, O_BITOP, O_FSH, O_NOP
};

struct Copy { i32 dst, src; };
struct Edge { u32 target; std::vector<Copy> copies; };
struct Func;
struct CallInfo {
  Func *callee = nullptr; int builtin = -1; i32 fnref = 0;
  std::vector<i32> args; std::vector<u8> argw; // flattened argument refs
  std::vector<u32> argslots;                   // slots per formal argument (for varargs)
  i32 dst = -1; u32 nret = 0; u8 retw = 0;
  int normal = -1, unwind = -1;                // edge indices for invoke
  std::string name; unsigned nfixed = 0; std::vector<u8> argsize;
};
struct SwitchInfo { i32 v; u8 w; std::vector<std::pair<u64, int>> cases; int def; };
struct GepInfo { i32 base; u64 off; std::vector<std::pair<i32, u64>> idx; std::vector<u8> w; };
struct LPInfo { bool cleanup; std::vector<std::pair<bool, u64>> clauses; /* catch?, typeinfo addr */ };
struct Inst { u16 op; u8 w, w2; i32 dst, a, b, c; u64 imm; void *ext; u32 loc; };
struct Func {
  std::string name, file; std::vector<Inst> code; std::vector<Edge> edges; std::vector<Val> consts;
  u32 nregs = 0, nargslots = 0; bool decl = true, vararg = false, decoded = false; int builtin = -1; bool executed = false; u64 addr = 0;
  void *llvm = nullptr; unsigned nformal = 0; u64 insts = 0;
};

static const unsigned PAGE = 1024;
struct Page { u32 rc; u16 size, nsym; Expr **sym; u8 data[]; };
enum { OF_HEAP = 1, OF_STACK = 2, OF_GLOBAL = 4, OF_FUNC = 8, OF_CONST = 16, OF_DEAD = 32 };
struct Obj { u32 rc, size; u8 flags, fill; u16 np; u32 site; Page *p[]; };
struct Chunk { u32 rc; Obj *o[64]; };
