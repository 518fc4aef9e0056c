// Expressions: hash-consed bit-vector DAG (widths 1..64) with simplifying
// constructors, evaluation under a model, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32;

enum Kind : u8 {
  K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  // floating point on the bit patterns (aux selects f32/f64 by width)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_FUNO, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC
};

struct Expr {
  Kind k; u8 w; u8 taint; u8 aux; u32 id;
  u64 c;                 // constant / symbol index / extract low bit
  Expr *a, *b, *d;
  u64 vm[2];             // bloom mask of symbols
  Z3_ast z;
  u64 ev; u32 epoch;     // evaluation memo
  u32 size;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sxt(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct ExprKey { Kind k; u8 w; u64 c; Expr *a, *b, *d;
  bool operator==(const ExprKey &o) const { return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct ExprKeyHash { size_t operator()(const ExprKey &x) const {
  u64 h = x.k * 0x9E3779B97F4A7C15ull + x.w; 
  auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(x.c); mix((u64)x.a); mix((u64)x.b); mix((u64)x.d); return h; } };

extern std::unordered_map<ExprKey, Expr *, ExprKeyHash> exprTable;
extern u32 exprCount;

Expr *mkConst(u64 v, unsigned w);
Expr *mkSym(u32 idx, unsigned w, bool taint);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkNot1(Expr *a);
Expr *mkFp(Kind k, Expr *a, Expr *b, unsigned w);
static inline bool isC(Expr *e) { return e->k == K_CONST; }

u64 foldBin(Kind k, u64 a, u64 b, unsigned w);
u64 foldFp(Kind k, u64 a, u64 b, unsigned w, unsigned wa);

// model: values of symbols by index
typedef std::vector<u64> Model;
u64 evalExpr(Expr *e, const Model &m);     // call newEpoch() whenever the model changes
void newEpoch();
void rangeOf(Expr *e, u64 &lo, u64 &hi, u64 &stride); // sound over-approximation
