#include "expr.h"
#include <map>
#include <cmath>
#include <deque>
std::unordered_map<ExprKey, Expr *, ExprKeyHash> exprTable;
u32 exprCount = 0;
static std::deque<Expr> arena;
static u32 curEpoch = 1;
void newEpoch() { curEpoch++; }

static Expr *intern(Kind k, unsigned w, u64 c, Expr *a, Expr *b, Expr *d, u8 taint = 0) {
  ExprKey key{k, (u8)(k == K_SYM && taint ? w | 0x80 : w), c, a, b, d};
  auto it = exprTable.find(key);
  if (it != exprTable.end()) return it->second;
  arena.emplace_back();
  Expr *e = &arena.back();
  memset(e, 0, sizeof *e);
  e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = exprCount++;
  e->taint = taint; e->size = 1;
  if (k == K_SYM) e->vm[(c >> 6) & 1] |= 1ull << (c & 63);
  for (Expr *x : {a, b, d}) if (x) { e->vm[0] |= x->vm[0]; e->vm[1] |= x->vm[1]; e->taint |= x->taint; e->size += x->size; if (e->size > 1000000000) e->size = 1000000000; }
  exprTable.emplace(key, e);
  return e;
}
Expr *mkConst(u64 v, unsigned w) { return intern(K_CONST, w, v & maskw(w), 0, 0, 0); }
Expr *mkSym(u32 idx, unsigned w, bool taint) { return intern(K_SYM, w, idx, 0, 0, 0, taint); }

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(u64 v) { u32 x = v; float f; memcpy(&f, &x, 4); return f; }
static u64 frD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 frF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
u64 foldFp(Kind k, u64 a, u64 b, unsigned w, unsigned wa) {
  double x = wa == 32 ? asF(a) : asD(a), y = wa == 32 ? asF(b) : asD(b);
  auto out = [&](double r) { return w == 32 ? frF((float)r) : frD(r); };
  switch (k) {
  case K_FADD: return wa == 32 ? frF(asF(a) + asF(b)) : frD(x + y);
  case K_FSUB: return wa == 32 ? frF(asF(a) - asF(b)) : frD(x - y);
  case K_FMUL: return wa == 32 ? frF(asF(a) * asF(b)) : frD(x * y);
  case K_FDIV: return wa == 32 ? frF(asF(a) / asF(b)) : frD(x / y);
  case K_FEQ: return x == y; case K_FLT: return x < y; case K_FLE: return x <= y; case K_FUNO: return std::isnan(x) || std::isnan(y);
  case K_SITOFP: return w == 32 ? frF((float)sxt(a, wa)) : frD((double)sxt(a, wa));
  case K_UITOFP: return w == 32 ? frF((float)a) : frD((double)a);
  case K_FPTOSI: return (x >= 9.3e18 || x <= -9.3e18 || std::isnan(x)) ? (1ull << 63) & maskw(w) : (u64)(i64)x & maskw(w);
  case K_FPTOUI: return (x >= 1.85e19 || x <= -1 || std::isnan(x)) ? 0 : (u64)x & maskw(w);
  case K_FPEXT: case K_FPTRUNC: return out(x);
  default: abort();
  }
}
u64 foldBin(Kind k, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
  case K_SDIV: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return (x >= 0 ? m : 1) & m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
  case K_SREM: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : (a & m) >> b;
  case K_ASHR: return b >= w ? (sxt(a, w) < 0 ? m : 0) : (u64)(sxt(a, w) >> b) & m;
  case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
  case K_SLT: return sxt(a, w) < sxt(b, w); case K_SLE: return sxt(a, w) <= sxt(b, w);
  default: abort();
  }
}
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
Expr *mkNot1(Expr *a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->k == K_XOR && isC(a->b)) return a->a;   // width 1: xor 1
  if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
  if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
  if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
  if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
  return intern(K_XOR, 1, 0, a, mkConst(1, 1), 0);
}
static bool iteConstLeaves(Expr *e, int depth) {
  if (isC(e)) return true;
  if (e->k != K_ITE || depth <= 0) return false;
  return iteConstLeaves(e->a == nullptr ? e : e->b, depth - 1) && iteConstLeaves(e->d, depth - 1);
}
// push a function of one argument through an ITE with constant leaves
template <class F> static Expr *mapIte(Expr *e, F f) {
  if (e->k == K_ITE) { Expr *x = mapIte(e->b, f), *y = mapIte(e->d, f); return mkIte(e->a, x, y); }
  return f(e);
}
// equality of sums modulo 2^w: cancel common terms (sum of coefficient * atom + constant)
static bool lin1(Expr *e) { return e->k == K_ADD || e->k == K_SUB || (e->k == K_MUL && isC(e->b)) || (e->k == K_SHL && isC(e->b)); }
static bool linForm(Expr *e0, u64 mult, std::vector<std::pair<Expr *, u64>> &t, u64 &c, int &budget) {
  std::map<u32, std::pair<Expr *, u64>> q; q[e0->id] = {e0, mult};   // children are created before (have smaller ids than) their parents
  while (!q.empty()) {
    auto it = std::prev(q.end()); Expr *e = it->second.first; u64 k = it->second.second; q.erase(it);
    if (--budget < 0) return false;
    auto put = [&](Expr *x, u64 m) { auto &r = q[x->id]; r.first = x; r.second += m; };
    if (isC(e)) c += k * e->c;
    else if (e->k == K_ADD) { put(e->a, k); put(e->b, k); }
    else if (e->k == K_SUB) { put(e->a, k); put(e->b, 0 - k); }
    else if (e->k == K_MUL && isC(e->b)) put(e->a, k * e->b->c);
    else if (e->k == K_SHL && isC(e->b) && e->b->c < e->w) put(e->a, k << e->b->c);
    else { if (t.size() >= 16) return false; t.push_back({e, k}); }
  }
  return true;
}
static Expr *eqLinear(Expr *a, Expr *b, unsigned w) {
  std::vector<std::pair<Expr *, u64>> t; u64 c = 0; int budget = 600; size_t na;
  if (!linForm(a, 1, t, c, budget)) return nullptr;
  na = t.size(); std::vector<std::pair<Expr *, u64>> tb; u64 cb = 0; if (!linForm(b, 1, tb, cb, budget)) return nullptr;
  bool cancel = false;
  for (auto &p : tb) { bool f = false; for (auto &q : t) if (q.first == p.first) { q.second -= p.second; cancel = true; f = true; break; } if (!f) t.push_back({p.first, 0 - p.second}); }
  if (!cancel) return nullptr;
  (void)na; c = (c - cb) & maskw(w); size_t n = 0; for (auto &p : t) if (p.second &= maskw(w)) t[n++] = p;
  t.resize(n);
  if (!n) return mkConst(c == 0, 1);
  Expr *sum = nullptr;
  for (auto &p : t) { Expr *x = p.second == 1 ? p.first : mkBin(K_MUL, p.first, mkConst(p.second, w)); sum = sum ? mkBin(K_ADD, sum, x) : x; }
  return mkBin(K_EQ, sum, mkConst(0 - c, w));
}
Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d %d\n", k, a->w, b->w); abort(); }
  unsigned rw = isCmp(k) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), rw);
  // commutative: constant right, else order by id
  if (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u64 m = maskw(w);
  switch (k) {
  case K_ADD:
    if (isC(b)) { if (!b->c) return a;
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->c + b->c, w));
      if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->c + b->c, w), a->b); }
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
    if (w == 1) return mkBin(K_XOR, a, b);
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b == b) return a->a;
    if (a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkConst(a->b->c - b->b->c, w));
    break;
  case K_MUL:
    if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a;
      if (!(b->c & (b->c - 1))) { unsigned s = __builtin_ctzll(b->c); return mkBin(K_SHL, a, mkConst(s, w)); } }
    break;
  case K_UDIV: if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->c), w));
    break;
  case K_UREM: if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(K_AND, a, mkConst(b->c - 1, w)); break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (!b->c) return b; if (b->c == m) return a;
      if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->c & b->c, w));
      if (a->k == K_ZEXT) { u64 am = maskw(a->a->w); if ((b->c & am) == am) return a; return mkZext(mkBin(K_AND, a->a, mkConst(b->c, a->a->w)), w); }
      if (!(b->c & (b->c + 1))) { unsigned n = __builtin_popcountll(b->c); return mkZext(mkExtract(a, 0, n), w); }
    }
    if (w == 1) { if ((a->k == K_XOR && isC(a->b) && a->a == b) || (b->k == K_XOR && isC(b->b) && b->a == a)) return mkConst(0, 1); }
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; }
    if (w == 1) { if ((a->k == K_XOR && isC(a->b) && a->a == b) || (b->k == K_XOR && isC(b->b) && b->a == a)) return mkConst(1, 1); }
    // (zext x) | (y << n) -> concat
    for (int i = 0; i < 2; i++) { Expr *x = i ? b : a, *y = i ? a : b;
      if (x->k == K_ZEXT && y->k == K_SHL && isC(y->b) && y->b->c >= x->a->w && y->b->c < w) {
        unsigned s = y->b->c; Expr *hi = mkExtract(y->a, 0, w - s); return mkConcat(hi, mkZext(x->a, s)); }
      if (x->k == K_CONCAT && isC(x->a) && !x->a->c && y->k == K_SHL && isC(y->b) && y->b->c >= x->b->w && y->b->c < w) {
        unsigned s = y->b->c; Expr *hi = mkExtract(y->a, 0, w - s); return mkConcat(hi, mkZext(x->b, s)); } }
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (!b->c) return a; if (w == 1) return mkNot1(a); if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->c ^ b->c, w)); 
      if (a->k == K_ZEXT && (b->c & ~maskw(a->a->w)) == 0) return mkZext(mkBin(K_XOR, a->a, mkConst(b->c, a->a->w)), w); }
    break;
  case K_SHL:
    if (isC(b)) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w);
      if (a->k == K_SHL && isC(a->b)) { u64 s = a->b->c + b->c; return s >= w ? mkConst(0, w) : mkBin(K_SHL, a->a, mkConst(s, w)); } }
    if (isC(a) && !a->c) return a;
    break;
  case K_LSHR:
    if (isC(b)) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); return mkZext(mkExtract(a, b->c, w - b->c), w); }
    if (isC(a) && !a->c) return a;
    break;
  case K_ASHR:
    if (isC(b)) { if (!b->c) return a; u64 s = b->c >= w ? w - 1 : b->c; return mkSext(mkExtract(a, s, w - s), w); }
    break;
  case K_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (w == 1) return b->c ? a : mkNot1(a);
      if (a->k == K_ZEXT) { if (b->c & ~maskw(a->a->w)) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(b->c, a->a->w)); }
      if (a->k == K_SEXT) { u64 lo = b->c & maskw(a->a->w); if (((u64)sxt(lo, a->a->w) & m) != b->c) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(lo, a->a->w)); }
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->c - a->b->c, w));
      if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->c ^ a->b->c, w));
      if (a->k == K_SUB && isC(a->a)) return mkBin(K_EQ, a->b, mkConst(a->a->c - b->c, w));
      if (a->k == K_SUB && !b->c) return mkBin(K_EQ, a->a, a->b);
      if (a->k == K_CONCAT) { Expr *hi = mkBin(K_EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)); if (isC(hi) && !hi->c) return hi;
        Expr *lo = mkBin(K_EQ, a->b, mkConst(b->c, a->b->w)); return mkBin(K_AND, hi, lo); }
      if (a->k == K_ITE && (isC(a->b) || isC(a->d)) && a->size < 4000) {
        if (isC(a->b)) { if (a->b->c != b->c) return mkBin(K_AND, mkNot1(a->a), mkBin(K_EQ, a->d, b)); if (isC(a->d)) return a->d->c == b->c ? mkConst(1, 1) : a->a; return mkBin(K_OR, a->a, mkBin(K_EQ, a->d, b)); }
        if (a->d->c != b->c) return mkBin(K_AND, a->a, mkBin(K_EQ, a->b, b)); return mkBin(K_OR, mkNot1(a->a), mkBin(K_EQ, a->b, b)); }
    }
    if (w >= 8 && (lin1(a) || lin1(b))) if (Expr *r = eqLinear(a, b, w)) return r;
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
    break;
  case K_ULT:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (!b->c) return mkConst(0, 1); if (b->c == 1) return mkBin(K_EQ, a, mkConst(0, w));
      if (a->k == K_ZEXT) { if (b->c > maskw(a->a->w)) return mkConst(1, 1); return mkBin(K_ULT, a->a, mkConst(b->c, a->a->w)); } }
    if (isC(a)) { if (a->c == m) return mkConst(0, 1);
      if (!a->c) return mkNot1(mkBin(K_EQ, b, a));
      if (b->k == K_ZEXT) { if (a->c >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(K_ULT, mkConst(a->c, b->a->w), b->a); } }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
    break;
  case K_ULE:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) { if (b->c == m) return mkConst(1, 1); return mkBin(K_ULT, a, mkConst(b->c + 1, w)); }
    if (isC(a)) { if (!a->c) return mkConst(1, 1); return mkBin(K_ULT, mkConst(a->c - 1, w), b); }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
    break;
  case K_SLT:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (b->c == (1ull << (w - 1))) return mkConst(0, 1);
      if (a->k == K_ZEXT && a->a->w < w) { if (sxt(b->c, w) <= 0) return mkConst(0, 1); return mkBin(K_ULT, a, b); }
      if (a->k == K_SEXT) { unsigned n = a->a->w; i64 v = sxt(b->c, w), mn = sxt(1ull << (n - 1), n), mx = (i64)(maskw(n) >> 1);
        if (v <= mn) return mkConst(0, 1); if (v > mx) return mkConst(1, 1); return mkBin(K_SLT, a->a, mkConst((u64)v, n)); } }
    if (isC(a)) { if (a->c == (m >> 1)) return mkConst(0, 1);
      if (b->k == K_ZEXT && b->a->w < w) { if (sxt(a->c, w) < 0) return mkConst(1, 1); return mkBin(K_ULT, a, b); }
      if (b->k == K_SEXT) { unsigned n = b->a->w; i64 v = sxt(a->c, w), mn = sxt(1ull << (n - 1), n), mx = (i64)(maskw(n) >> 1);
        if (v < mn) return mkConst(1, 1); if (v >= mx) return mkConst(0, 1); return mkBin(K_SLT, mkConst((u64)v, n), b->a); } }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w && a->a->w < w) return mkBin(K_ULT, a->a, b->a);
    break;
  case K_SLE:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) { if (b->c == (m >> 1)) return mkConst(1, 1); return mkBin(K_SLT, a, mkConst(b->c + 1, w)); }
    if (isC(a)) { if (a->c == (1ull << (w - 1))) return mkConst(1, 1); return mkBin(K_SLT, mkConst(a->c - 1, w), b); }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w && a->a->w < w) return mkBin(K_ULE, a->a, b->a);
    break;
  default: break;
  }
  // distribute over ITE trees with constant leaves when the other side is constant
  if (isC(b) && a->k == K_ITE && a->size < 2000 && iteConstLeaves(a, 40)) { Expr *bb = b; return mapIte(a, [=](Expr *x) { return mkBin(k, x, bb); }); }
  if (isC(a) && b->k == K_ITE && b->size < 2000 && iteConstLeaves(b, 40)) { Expr *aa = a; return mapIte(b, [=](Expr *x) { return mkBin(k, aa, x); }); }
  return intern(k, rw, 0, a, b, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b)) return mkIte(c->a, b, a);   // not
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot1(c), b);
    if (isC(b)) return b->c ? mkBin(K_OR, mkNot1(c), a) : mkBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->d;
  if (a == b) return a;
  return intern(K_ITE, a->w, 0, c, a, b);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->k == K_ITE && a->size < 2000 && iteConstLeaves(a, 40)) return mapIte(a, [=](Expr *x) { return mkZext(x, w); });
  return intern(K_ZEXT, w, 0, a, 0, 0);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u64)sxt(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (a->k == K_ITE && a->size < 2000 && iteConstLeaves(a, 40)) return mapIte(a, [=](Expr *x) { return mkSext(x, w); });
  return intern(K_SEXT, w, 0, a, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->k == K_EXTRACT) return mkExtract(a->a, a->c + lo, w);
  if (a->k == K_CONCAT) { unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  if (a->k == K_ZEXT) { unsigned n = a->a->w;
    if (lo + w <= n) return mkExtract(a->a, lo, w);
    if (lo >= n) return mkConst(0, w);
    return mkZext(mkExtract(a->a, lo, n - lo), w); }
  if (a->k == K_SEXT) { unsigned n = a->a->w;
    if (lo + w <= n) return mkExtract(a->a, lo, w);
    if (lo < n) return mkSext(mkExtract(a->a, lo, n - lo), w); }
  if (a->k == K_ITE && a->size < 2000 && iteConstLeaves(a, 40)) return mapIte(a, [=](Expr *x) { return mkExtract(x, lo, w); });
  if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
  if (a->k == K_AND || a->k == K_OR || a->k == K_XOR) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  if (lo == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL)) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if (a->k == K_SHL && isC(a->b)) { unsigned s = a->b->c; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo + w <= s) return mkConst(0, w); 
    if (lo == 0) return mkConcat(mkExtract(a->a, 0, w - s), mkConst(0, s)); }
  return intern(K_EXTRACT, w, lo, a, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && !hi->c) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  if (hi->k == K_CONCAT && lo->k == K_EXTRACT && hi->b->k == K_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w) return mkConcat(hi->a, mkExtract(lo->a, lo->c, hi->b->w + lo->w));
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  if (hi->k == K_EXTRACT && hi->c >= lo->w && lo->k != K_EXTRACT && mkExtract(hi->a, hi->c - lo->w, lo->w) == lo) return mkExtract(hi->a, hi->c - lo->w, w);
  if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && hi->b->c >= lo->w && lo->k != K_EXTRACT && mkExtract(hi->b->a, hi->b->c - lo->w, lo->w) == lo) return mkConcat(hi->a, mkExtract(hi->b->a, hi->b->c - lo->w, hi->b->w + lo->w));
  if (hi->k == K_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  // sext pieces: hi is the sign fill of lo
  if (hi->k == K_SEXT && hi->a->k == K_EXTRACT && hi->a->w == 1 && hi->a->a == lo && hi->a->c == lo->w - 1u) return mkSext(lo, w);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  return intern(K_CONCAT, w, 0, hi, lo, 0);
}
Expr *mkFp(Kind k, Expr *a, Expr *b, unsigned w) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldFp(k, a->c, b ? b->c : 0, w, a->w), w);
  return intern(k, w, 0, a, b, 0);
}

u64 evalExpr(Expr *e, const Model &m) {
  if (e->k == K_CONST) return e->c;
  if (e->epoch == curEpoch) return e->ev;
  u64 r;
  switch (e->k) {
  case K_SYM: r = (e->c < m.size() ? m[e->c] : 0) & maskw(e->w); break;
  case K_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m); break;
  case K_ZEXT: r = evalExpr(e->a, m); break;
  case K_SEXT: r = (u64)sxt(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  case K_EXTRACT: r = (evalExpr(e->a, m) >> e->c) & maskw(e->w); break;
  case K_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
  default:
    if (e->k >= K_FADD) r = foldFp(e->k, evalExpr(e->a, m), e->b ? evalExpr(e->b, m) : 0, e->w, e->a->w);
    else r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
  }
  e->epoch = curEpoch; e->ev = r;
  return r;
}
static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
void rangeOf(Expr *e, u64 &lo, u64 &hi, u64 &st) {
  lo = 0; hi = maskw(e->w); st = 1;
  u64 l1, h1, s1, l2, h2, s2;
  switch (e->k) {
  case K_CONST: lo = hi = e->c; st = 0; return;
  case K_ZEXT: rangeOf(e->a, lo, hi, st); return;
  case K_SEXT: rangeOf(e->a, l1, h1, s1); if (!(h1 >> (e->a->w - 1))) { lo = l1; hi = h1; st = s1; } return;
  case K_ADD: rangeOf(e->a, l1, h1, s1); rangeOf(e->b, l2, h2, s2);
    { // constants may be negative: shift the whole interval with wraparound if it does not straddle
      u64 m = maskw(e->w); u64 w1 = h1 - l1, w2 = h2 - l2; u64 width = w1 + w2; if (width < w1 || width > m) return;
      u64 nl = (l1 + l2) & m; if (nl > m - width) return; lo = nl; hi = nl + width; st = gcd64(s1, s2); if (!st && hi != lo) st = 1; return; }
  case K_SHL: if (isC(e->b)) { rangeOf(e->a, l1, h1, s1); unsigned s = e->b->c; if (s < e->w && (h1 << s) >> s == h1 && (h1 << s) <= maskw(e->w)) { lo = l1 << s; hi = h1 << s; st = s1 << s; } } return;
  case K_MUL: if (isC(e->b) && e->b->c) { rangeOf(e->a, l1, h1, s1); if (h1 <= maskw(e->w) / e->b->c) { lo = l1 * e->b->c; hi = h1 * e->b->c; st = s1 * e->b->c; } } return;
  case K_AND: if (isC(e->b)) { hi = e->b->c; if (e->b->c) st = e->b->c & (0 - e->b->c); } return;
  case K_ITE: rangeOf(e->b, l1, h1, s1); rangeOf(e->d, l2, h2, s2); lo = l1 < l2 ? l1 : l2; hi = h1 > h2 ? h1 : h2; st = gcd64(gcd64(s1, s2), l1 > l2 ? l1 - l2 : l2 - l1); if (!st && lo != hi) st = 1; return;
  case K_CONCAT: rangeOf(e->a, l1, h1, s1); rangeOf(e->b, l2, h2, s2); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; 
    lo = (l1 << e->b->w) + l2; hi = (h1 << e->b->w) + h2; st = gcd64(s1 << e->b->w, s2); if (!st && lo != hi) st = 1; return;
  case K_UREM: if (isC(e->b) && e->b->c) hi = e->b->c - 1; return;
  case K_LSHR: return;
  default: return;
  }
}
