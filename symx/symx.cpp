// symx: a KLEE-class symbolic executor for LLVM-18 bitcode with Z3 as the
// deciding procedure.  See DESIGN.md ("symx") for what it does and assumes.
#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
static Expr *const UNINIT = (Expr *)1;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> M; static const DataLayout *DL;
static Solver *solver;
static std::map<const Function *, Func *> funcOf; static std::vector<Func *> funcs;
static std::map<u64, Func *> funcByAddr; static std::map<const GlobalValue *, u64> gaddr;
static std::vector<std::string> locs; static std::map<std::string, u32> locIdx;
static std::map<u64, std::string> gname;
static u64 optMaxSteps = 200000000ull, optMaxPaths = ~0ull; static double optMaxTime = 1e9; static int optJobs = 1, optMaxErrors = 20; static bool optUninitErr = true, optVerbose = false;
static unsigned optMaxDepth = 20000; static u64 optMaxMem = 3000ull << 20;
static std::string optOut = "symx.out";

struct SymInfo { std::string name; u8 w; bool uninit; };
struct Frame { Func *f; u32 pc, regBase; i32 retDst; u32 nret; u8 retw; int normal, unwind; u32 allocaBase; u64 vaobj; };
struct Thr { std::vector<Frame> fr; std::vector<u32> allocas; std::vector<Val> regs; bool done = false; };
struct State {
  std::vector<Thr> thr; u32 cur = 0;   // other threads' stacks; thread 0 is main
  Val *regs = nullptr; u32 nregs = 0, capregs = 0;
  std::vector<Frame> fr;
  std::vector<Chunk *> ch; u32 nobj = 0; std::vector<u32> freeIds; std::vector<u32> allocas;
  std::vector<Expr *> pc; Model m; std::vector<SymInfo> syms;
  u64 steps = 0, liveHeap = 0, liveBytes = 0; u32 forks = 0; u64 fixed[2] = {0, 0}; // symbols (index < 128) whose value the path condition determines
  u64 excPtr = 0, excTi = 0; std::vector<std::pair<u64, u64>> caught;
  std::vector<std::pair<std::string, u64>> notes;
  State() {}
  State(const State &o) : thr(o.thr), cur(o.cur), nregs(o.nregs), capregs(o.nregs + 512), fr(o.fr), ch(o.ch), nobj(o.nobj), freeIds(o.freeIds), allocas(o.allocas), pc(o.pc), m(o.m), syms(o.syms), steps(o.steps), liveHeap(o.liveHeap), liveBytes(o.liveBytes), forks(o.forks), excPtr(o.excPtr), excTi(o.excTi), caught(o.caught), notes(o.notes) {
    fixed[0] = o.fixed[0]; fixed[1] = o.fixed[1];
    regs = (Val *)malloc(capregs * sizeof(Val)); memcpy(regs, o.regs, nregs * sizeof(Val)); for (auto c : ch) c->rc++; }
  ~State();
};
static void relPage(Page *p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
static void relObj(Obj *o) { if (o && --o->rc == 0) { for (int i = 0; i < o->np; i++) relPage(o->p[i]); free(o); } }
State::~State() { free(regs); for (auto c : ch) if (--c->rc == 0) { for (auto o : c->o) relObj(o); free(c); } }

struct Err { std::string kind, msg, loc; std::vector<std::tuple<std::string, int, u64, bool>> in; std::vector<std::pair<std::string, u64>> notes; std::vector<std::string> stack; };
static std::vector<Err> errors; static std::set<std::string> errKeys;
static std::set<std::string> covers; static u64 nPaths = 0, nForks = 0, nSteps = 0, nAsserts = 0, nAssertSym = 0, nInfeasible = 0, nIncomplete = 0; static std::string incompleteWhy;
static std::vector<std::string> samples; static double tStart; static u64 nSymBranch = 0;
static std::vector<State *> work;
static bool stopAll = false; static bool forkSelect = false;
struct Shared { volatile int live; volatile u64 paths; volatile int stop; volatile int nproc; volatile double errT; };
static Shared *sh;
struct PathEnd {};

// ------------------------------------------------------------------ memory
static Page *newPage(unsigned size, int fill) {
  Page *p = (Page *)malloc(sizeof(Page) + size); p->rc = 1; p->size = size; p->nsym = 0; p->sym = nullptr; memset(p->data, 0, size);
  if (fill) { p->sym = (Expr **)malloc(size * sizeof(Expr *)); for (unsigned i = 0; i < size; i++) p->sym[i] = UNINIT; p->nsym = size; }
  return p;
}
static inline Obj *getObj(State &s, u32 id) { return id < s.nobj ? s.ch[id >> 6]->o[id & 63] : nullptr; }
static Chunk *chunkW(State &s, u32 ci) {
  Chunk *c = s.ch[ci];
  if (c->rc > 1) { Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1; for (auto o : n->o) if (o) o->rc++; c->rc--; s.ch[ci] = n; return n; }
  return c;
}
static Obj *objW(State &s, u32 id) {
  Chunk *c = chunkW(s, id >> 6); Obj *o = c->o[id & 63];
  if (o->rc > 1) { size_t sz = sizeof(Obj) + o->np * sizeof(Page *); Obj *n = (Obj *)malloc(sz); memcpy(n, o, sz); n->rc = 1; for (int i = 0; i < n->np; i++) if (n->p[i]) n->p[i]->rc++; o->rc--; c->o[id & 63] = n; return n; }
  return o;
}
static Page *pageW(Obj *o, unsigned pi) {
  Page *p = o->p[pi]; unsigned sz = std::min<u64>(PAGE, o->size - (u64)pi * PAGE);
  if (!p) return o->p[pi] = newPage(sz, o->fill);
  if (p->rc > 1) { Page *n = (Page *)malloc(sizeof(Page) + sz); memcpy(n, p, sizeof(Page) + sz); n->rc = 1;
    if (p->sym) { n->sym = (Expr **)malloc(sz * sizeof(Expr *)); memcpy(n->sym, p->sym, sz * sizeof(Expr *)); } p->rc--; o->p[pi] = n; return n; }
  return p;
}
static u32 newObj(State &s, u64 size, u8 flags, u8 fill, u32 site) {
  u32 id;
  if ((flags & OF_STACK) && !s.freeIds.empty()) { id = s.freeIds.back(); s.freeIds.pop_back(); Chunk *c = chunkW(s, id >> 6); relObj(c->o[id & 63]); c->o[id & 63] = nullptr; }
  else { id = s.nobj++; if ((id >> 6) >= s.ch.size()) { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; s.ch.push_back(c); } }
  unsigned np = (size + PAGE - 1) / PAGE; Obj *o = (Obj *)calloc(1, sizeof(Obj) + np * sizeof(Page *));
  o->rc = 1; o->size = size; o->flags = flags; o->fill = fill; o->np = np; o->site = site;
  if (np > 65535) { fprintf(stderr, "object too large\n"); abort(); }
  Chunk *c = chunkW(s, id >> 6); c->o[id & 63] = o; return id;
}
static void killObj(State &s, u32 id) { Obj *o = objW(s, id); for (int i = 0; i < o->np; i++) { relPage(o->p[i]); o->p[i] = nullptr; } o->flags |= OF_DEAD; }

// ------------------------------------------------------------------ errors
static std::string curLoc(State &s) { if (s.fr.empty()) return "?"; Frame &f = s.fr.back(); u32 l = f.f->code[f.pc].loc; return f.f->name + " " + locs[l]; }
// the time budget, or a shorter one once a violation has been found
static bool overTime() {
  double t = now(); bool over = t - tStart > optMaxTime, found = sh->errT && t - sh->errT > 90;
  if (!over && !found) return false;
  if (incompleteWhy.empty()) incompleteWhy = over ? "time budget" : "stopped after a violation"; nIncomplete++; sh->stop = 1; return true;
}
static void recordErr(State &s, const char *kind, const std::string &msg, const Model *mm = nullptr) {
  std::string loc = curLoc(s); std::string key = std::string(kind) + "|" + msg + "|" + loc;
  if (errKeys.count(key)) return;
  if ((int)errors.size() >= optMaxErrors) { sh->stop = 1; return; }
  errKeys.insert(key); if (!sh->errT) sh->errT = now();
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.notes = s.notes; const Model &m = mm ? *mm : s.m;
  for (size_t i = 0; i < s.syms.size(); i++) e.in.emplace_back(s.syms[i].name, s.syms[i].w, i < m.size() ? m[i] & maskw(s.syms[i].w) : 0, s.syms[i].uninit);
  for (int i = (int)s.fr.size() - 1; i >= 0 && (int)e.stack.size() < 12; i--) e.stack.push_back(s.fr[i].f->name + " " + locs[s.fr[i].f->code[std::min<size_t>(s.fr[i].pc, s.fr[i].f->code.size() - 1)].loc]);
  errors.push_back(e);
}
[[noreturn]] static void fail(State &s, const char *kind, const std::string &msg) { recordErr(s, kind, msg); throw PathEnd(); }
[[noreturn]] static void incomplete(State &s, const std::string &why) { nIncomplete++; if (incompleteWhy.empty()) incompleteWhy = why + " at " + curLoc(s); throw PathEnd(); }

static Expr *newSym(State &s, const std::string &name, unsigned w, bool uninit) {
  u32 idx = s.syms.size(); s.syms.push_back({name, (u8)w, uninit}); if (s.m.size() <= idx) s.m.resize(idx + 1, 0); s.m[idx] = 0; return mkSym(idx, w, uninit);
}
static inline Expr *ex(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val val(Expr *e) { if (isC(e)) return {e->c, nullptr}; return {0, e}; }
static u64 evalM(State &s, Expr *e) { newEpoch(); return evalExpr(e, s.m); }
static inline bool isFixed(State &s, Expr *e) { return !(e->vm[0] & ~s.fixed[0]) && !(e->vm[1] & ~s.fixed[1]) && !e->taint && s.syms.size() <= 128; }
static void addPc(State &s, Expr *c) { if (isC(c)) return;
  if (c->k == K_EQ) { Expr *y = isC(c->a) ? c->b : isC(c->b) ? c->a : nullptr; while (y && y->k == K_ZEXT) y = y->a; if (y && y->k == K_SYM && y->c < 128) s.fixed[(y->c >> 6) & 1] |= 1ull << (y->c & 63); }
  if (c->k == K_AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; } s.pc.push_back(c); }
static void checkTaint(State &s, Expr *e) { if (optUninitErr && e->taint) fail(s, "uninit", "decision depends on uninitialised memory"); }

static State *cloneState(State &s) { State *n = new State(s); n->forks++; nForks++; return n; }
static SatRes query(State &s, Expr *q, Model &m) { SatRes r = solver->check(s.pc, q, m); if (r == UNKNOWN) incomplete(s, "solver unknown"); return r; }
// decide a boolean; forks the other side if feasible.  The fork re-executes the current instruction.
static bool decide(State &s, Expr *c) {
  if (isC(c)) return c->c;
  if (isFixed(s, c)) return evalM(s, c);
  checkTaint(s, c);
  bool side = evalM(s, c); nSymBranch++;
  Expr *other = side ? mkNot1(c) : c;
  Model m2 = s.m;
  if (query(s, other, m2) == SAT) { State *n = cloneState(s); n->m = m2; addPc(*n, other); work.push_back(n); addPc(s, side ? c : mkNot1(c)); }
  return side;
}
static u64 concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  if (isFixed(s, v.e)) return evalM(s, v.e);
  checkTaint(s, v.e);
  u64 x = evalM(s, v.e); Expr *eq = mkBin(K_EQ, v.e, mkConst(x, w)); nSymBranch++;
  Model m2 = s.m; Expr *ne = mkNot1(eq);
  if (query(s, ne, m2) == SAT) { State *n = cloneState(s); n->m = m2; addPc(*n, ne); work.push_back(n); addPc(s, eq); }
  else { Expr *y = v.e; while (y->k == K_ZEXT) y = y->a; if (y->k == K_SYM) addPc(s, eq); }
  return x;
}
// ------------------------------------------------------------------ loads / stores
static std::string objDesc(State &s, u32 id) { Obj *o = getObj(s, id); if (!o) return "no object"; char b[200]; const char *k = o->flags & OF_HEAP ? "heap" : o->flags & OF_STACK ? "stack" : o->flags & OF_FUNC ? "function" : "global"; snprintf(b, 200, "%s object of %u bytes%s", k, o->size, o->flags & OF_DEAD ? " (freed)" : ""); return b; }
static Obj *checkAccess(State &s, u64 addr, u64 n, bool write) {
  u32 id = addr >> 32, off = (u32)addr; Obj *o;
  if (id == 0) fail(s, "memory", std::string(write ? "write" : "read") + " through null pointer");
  o = getObj(s, id);
  if (!o) fail(s, "memory", std::string(write ? "write" : "read") + " through wild pointer");
  if (o->flags & OF_DEAD) fail(s, "memory", std::string("use after free: ") + (write ? "write to " : "read of ") + (o->flags & OF_HEAP ? "freed heap object" : "dead stack object"));
  if ((u64)off + n > o->size || (o->flags & OF_FUNC)) fail(s, "memory", std::string(write ? "write" : "read") + " outside " + objDesc(s, id));
  if (write && (o->flags & OF_CONST)) fail(s, "memory", "write to constant");
  return o;
}
static Val loadByte(State &s, u32 id, u32 off) {
  Obj *o = getObj(s, id); Page *p = o->p[off / PAGE]; unsigned i = off % PAGE;
  if (!p) { if (!o->fill) return {0, nullptr}; }
  else { if (!p->sym || !p->sym[i]) return {p->data[i], nullptr}; if (p->sym[i] != UNINIT) return {0, p->sym[i]}; }
  Expr *y = newSym(s, "uninit", 8, true); o = objW(s, id); p = pageW(o, off / PAGE); if (p->sym) p->sym[i] = y; return {0, y};
}
static Val loadC(State &s, u64 addr, unsigned nbytes, unsigned w) {
  Obj *o = checkAccess(s, addr, nbytes, false); u32 off = (u32)addr; unsigned pi = off / PAGE, i = off % PAGE;
  if (i + nbytes <= PAGE) { Page *p = o->p[pi];
    if (!p) { if (!o->fill) return {0, nullptr}; }
    else { bool any = false; if (p->sym) for (unsigned k = 0; k < nbytes; k++) if (p->sym[i + k]) { any = true; break; }
      if (!any) { u64 v = 0; memcpy(&v, p->data + i, nbytes); return {v & maskw(w), nullptr}; } } }
  Expr *r = nullptr; u32 id = addr >> 32; bool conc = true; u64 cv = 0;
  Val b[8]; for (unsigned k = 0; k < nbytes; k++) { b[k] = loadByte(s, id, off + k); if (b[k].e) conc = false; else cv |= b[k].c << (8 * k); }
  if (conc) return {cv & maskw(w), nullptr};
  for (unsigned k = 0; k < nbytes; k++) r = r ? mkConcat(ex(b[k], 8), r) : ex(b[k], 8);
  if (r->w != w) r = mkExtract(r, 0, w);
  if (isFixed(s, r)) return {evalM(s, r), nullptr};
  return val(r);
}
static inline void setByte(Page *p, unsigned i, Val v) {
  if (v.e) { if (!p->sym) { p->sym = (Expr **)calloc(p->size, sizeof(Expr *)); } if (!p->sym[i]) p->nsym++; p->sym[i] = v.e; }
  else { p->data[i] = v.c; if (p->sym && p->sym[i]) { p->sym[i] = nullptr; if (--p->nsym == 0) { free(p->sym); p->sym = nullptr; } } }
}
static void storeC(State &s, u64 addr, unsigned nbytes, unsigned w, Val v) {
  checkAccess(s, addr, nbytes, true); u32 id = addr >> 32, off = (u32)addr; Obj *o = objW(s, id);
  unsigned pi = off / PAGE, i = off % PAGE;
  if (!v.e && i + nbytes <= PAGE) { Page *p = pageW(o, pi); memcpy(p->data + i, &v.c, nbytes);
    if (p->sym) { for (unsigned k = 0; k < nbytes; k++) if (p->sym[i + k]) { p->sym[i + k] = nullptr; p->nsym--; } if (!p->nsym) { free(p->sym); p->sym = nullptr; } }
    return; }
  Expr *e = v.e; if (e && e->w != nbytes * 8) e = mkZext(e, nbytes * 8);
  for (unsigned k = 0; k < nbytes; k++) { unsigned x = off + k; Page *p = pageW(o, x / PAGE); setByte(p, x % PAGE, e ? val(mkExtract(e, 8 * k, 8)) : Val{(v.c >> (8 * k)) & 255, nullptr}); }
}
static bool anyUninit(State &s, u32 id, u64 off, unsigned n) {
  Obj *o = getObj(s, id);
  for (unsigned k = 0; k < n; k++) { Page *p = o->p[(off + k) / PAGE]; unsigned i = (off + k) % PAGE; if (!p) { if (o->fill) return true; continue; } if (p->sym && p->sym[i] && (p->sym[i] == UNINIT || p->sym[i]->taint)) return true; }
  return false;
}
// constrain a symbolic address to lie in one object; other objects are explored by forks.
static u32 resolve(State &s, Expr *a, unsigned n, bool write) {
  checkTaint(s, a);
  u64 v = evalM(s, a); Obj *o = checkAccess(s, v, n, write); u64 base = v & ~0xffffffffull;
  u64 lo, hi, st; rangeOf(a, lo, hi, st);
  if (!(lo >= base && hi <= base + o->size - n)) {
    Expr *in = mkBin(K_ULE, mkBin(K_SUB, a, mkConst(base, 64)), mkConst(o->size - n, 64));
    if (!isC(in)) { Model m2 = s.m; Expr *out = mkNot1(in); if (query(s, out, m2) == SAT) { State *c = cloneState(s); c->m = m2; addPc(*c, out); work.push_back(c); addPc(s, in); } }
  }
  return v >> 32;
}
static bool offsetsOf(State &s, Expr *a, u64 base, Obj *o, unsigned n, u64 &lo, u64 &hi, u64 &st) {
  rangeOf(a, lo, hi, st); if (!st) st = 1;
  u64 mx = base + o->size - n;
  if (lo < base) { u64 d = base - lo; lo += (d + st - 1) / st * st; if (st == 1) lo = base; }
  if (hi > mx) hi = mx;
  return lo <= hi && (hi - lo) / st <= 4096;
}
static Expr *buildTable(Expr *a, std::vector<std::pair<u64, Expr *>> &runs, size_t l, size_t r) {
  if (r - l == 1) return runs[l].second;
  size_t mid = (l + r) / 2; return mkIte(mkBin(K_ULT, a, mkConst(runs[mid].first, 64)), buildTable(a, runs, l, mid), buildTable(a, runs, mid, r));
}
// possible values of an address that is a selection among constants (plus a constant); exact superset, or false if too many / not of that form
static bool leavesOf(Expr *a, u64 add, std::vector<u64> &out, std::set<Expr *> &seen) {
  if (isC(a)) { out.push_back(a->c + add); return out.size() <= 256; }
  if (a->k == K_ADD && isC(a->b)) return leavesOf(a->a, add + a->b->c, out, seen);
  if (a->k == K_ADD && isC(a->a)) return leavesOf(a->b, add + a->a->c, out, seen);
  if (a->k == K_ITE) { if (add == 0 && !seen.insert(a).second) return true; return leavesOf(a->b, add, out, seen) && leavesOf(a->d, add, out, seen); }
  return false;
}
static Val loadS(State &s, Expr *a, unsigned nbytes, unsigned w) {
  u32 id = resolve(s, a, nbytes, false); Obj *o = getObj(s, id); u64 base = (u64)id << 32, lo, hi, st; u32 osize = o->size;
  std::vector<u64> xs; std::set<Expr *> seen;
  if (leavesOf(a, 0, xs, seen)) {
    std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    xs.erase(std::remove_if(xs.begin(), xs.end(), [&](u64 x) { return x < base || x > base + osize - nbytes; }), xs.end());
  } else {
    xs.clear();
    if (!offsetsOf(s, a, base, o, nbytes, lo, hi, st)) { u64 x = concretize(s, {0, a}, 64); return loadC(s, x, nbytes, w); }
    for (u64 x = lo; x <= hi; x += st) xs.push_back(x);
  }
  if (xs.size() == 1) return loadC(s, xs[0], nbytes, w);
  std::vector<std::pair<u64, Expr *>> runs; bool first = true;
  for (u64 x : xs) { if (anyUninit(s, id, x - base, nbytes)) { u64 y = concretize(s, {0, a}, 64); return loadC(s, y, nbytes, w); }
    Val v = loadC(s, x, nbytes, w); Expr *e = ex(v, w); if (first || runs.back().second != e) runs.push_back({x, e}); first = false; }
  if (runs.empty() || runs.size() > 1500) { u64 x = concretize(s, {0, a}, 64); return loadC(s, x, nbytes, w); }
  return val(buildTable(a, runs, 0, runs.size()));
}
static void storeS(State &s, Expr *a, unsigned nbytes, unsigned w, Val v) {
  u32 id = resolve(s, a, nbytes, true); Obj *o = getObj(s, id); u64 base = (u64)id << 32, lo, hi, st;
  if (!offsetsOf(s, a, base, o, nbytes, lo, hi, st) || (hi - lo) / st > 64) { u64 x = concretize(s, {0, a}, 64); storeC(s, x, nbytes, w, v); return; }
  std::vector<std::pair<u64, Expr *>> upd;
  for (u64 x = lo; x <= hi; x += st) { if (st < nbytes) { u64 y = concretize(s, {0, a}, 64); storeC(s, y, nbytes, w, v); return; }
    if (anyUninit(s, id, x - base, nbytes)) { u64 y = concretize(s, {0, a}, 64); storeC(s, y, nbytes, w, v); return; }
    Val old = loadC(s, x, nbytes, w); upd.push_back({x, mkIte(mkBin(K_EQ, a, mkConst(x, 64)), ex(v, w), ex(old, w))}); }
  for (auto &u : upd) storeC(s, u.first, nbytes, w, val(u.second));
}
static Val load(State &s, Val a, unsigned nb, unsigned w) { return a.e ? loadS(s, a.e, nb, w) : loadC(s, a.c, nb, w); }
static void store(State &s, Val a, unsigned nb, unsigned w, Val v) { if (a.e) storeS(s, a.e, nb, w, v); else storeC(s, a.c, nb, w, v); }
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  checkAccess(s, src, n, false); checkAccess(s, dst, n, true);
  u32 did = dst >> 32, sid = src >> 32; u32 doff = (u32)dst, soff = (u32)src;
  if (did == sid && soff < doff && soff + n > doff) { // backward
    Obj *o = objW(s, did);
    for (u64 k = n; k-- > 0;) { Page *sp = o->p[(soff + k) / PAGE]; unsigned i = (soff + k) % PAGE; Val v; if (!sp) v = {0, o->fill ? UNINIT : nullptr}; else v = {sp->data[i], sp->sym ? sp->sym[i] : nullptr}; setByte(pageW(o, (doff + k) / PAGE), (doff + k) % PAGE, v); }
    return; }
  objW(s, did);
  u64 k = 0;
  while (k < n) {
    Obj *d = objW(s, did), *o = getObj(s, sid); unsigned si = (soff + k) % PAGE, di = (doff + k) % PAGE; u64 len = std::min<u64>(n - k, std::min(PAGE - si, PAGE - di));
    Page *dp = pageW(d, (doff + k) / PAGE), *sp = o->p[(soff + k) / PAGE];
    if (sp && !sp->sym && !dp->sym) { if (sp == dp) memmove(dp->data + di, sp->data + si, len); else memcpy(dp->data + di, sp->data + si, len); }
    else for (u64 j = 0; j < len; j++) { Val v; if (!sp) v = {0, o->fill ? UNINIT : nullptr}; else v = {sp->data[si + j], sp->sym ? sp->sym[si + j] : nullptr}; setByte(dp, di + j, v); }
    k += len;
  }
}
static void setMem(State &s, u64 dst, Val b, u64 n) {
  if (!n) return;
  checkAccess(s, dst, n, true); u32 id = dst >> 32, off = (u32)dst; Obj *o = objW(s, id); u64 k = 0;
  while (k < n) { unsigned di = (off + k) % PAGE; u64 len = std::min<u64>(n - k, PAGE - di);
    unsigned pi = (off + k) / PAGE; unsigned psz = std::min<u64>(PAGE, o->size - (u64)pi * PAGE);
    if (!b.e && len == psz) { relPage(o->p[pi]); o->p[pi] = newPage(psz, 0); memset(o->p[pi]->data, (int)b.c, psz); }
    else { Page *p = pageW(o, pi); if (!b.e && !p->sym) memset(p->data + di, (int)b.c, len); else for (u64 j = 0; j < len; j++) setByte(p, di + j, b); }
    k += len; }
}
// ------------------------------------------------------------------ builtins
enum Builtin { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT, B_ASSERTFAIL, B_NOP, B_NOPRET0,
  B_SYM_BYTES, B_SYM_INT, B_ASSUME, B_ASSERT, B_FAIL, B_COVER, B_CONCRETIZE, B_FORKSELECT, B_SPAWN, B_SWITCH, B_ISSTACK, B_NOTE, B_LIVEHEAP, B_LIVEBYTES, B_NATIVE, B_OBJSIZE, B_TRUST, B_VASTART, B_VACOPY, B_VAEND, B_ISSYM,
  B_CXA_ALLOC, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_TYPEID, B_CXA_FREE, B_CXA_RETHROW, B_EXPECT, B_STRLEN, B_OBJECTSIZE, B_ISCONST, B_MEMCMP, B_UNWINDABORT, B_FABS, B_BLOCKSIZE, B_EXITPATH, B_FLOAT1, B_SYMSIZE };
static std::map<std::string, int> builtinNames = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
  {"symx_raw_malloc", B_MALLOC}, {"symx_raw_realloc", B_REALLOC}, {"symx_raw_free", B_FREE}, {"symx_block_size", B_BLOCKSIZE},
  {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL},
  {"symx_bytes", B_SYM_BYTES}, {"symx_u64", B_SYM_INT}, {"symx_u32", B_SYM_INT}, {"symx_u16", B_SYM_INT}, {"symx_u8", B_SYM_INT},
  {"symx_assume", B_ASSUME}, {"symx_assert", B_ASSERT}, {"symx_fail", B_FAIL}, {"symx_cover", B_COVER}, {"symx_concretize", B_CONCRETIZE}, {"symx_fork_select", B_FORKSELECT}, {"symx_spawn", B_SPAWN}, {"symx_switch", B_SWITCH}, {"symx_is_stack", B_ISSTACK}, {"symx_note", B_NOTE},
  {"symx_live_heap", B_LIVEHEAP}, {"symx_live_bytes", B_LIVEBYTES}, {"symx_native", B_NATIVE}, {"symx_is_symbolic", B_ISSYM}, {"symx_end_path", B_EXITPATH},
  {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__clang_call_terminate", B_UNWINDABORT}, {"_ZSt9terminatev", B_UNWINDABORT},
  {"__cxa_atexit", B_NOPRET0}, {"__cxa_guard_acquire", B_NONE} };
static int builtinFor(const Function *F) {
  StringRef n = F->getName();
  if (n.starts_with("llvm.")) {
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return B_MEMCPY;
    if (n.starts_with("llvm.memset")) return B_MEMSET;
    if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.donothing") || n.starts_with("llvm.va_end") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant")) return B_NOP;
    if (n.starts_with("llvm.stacksave")) return B_NOPRET0;
    if (n.starts_with("llvm.expect")) return B_EXPECT;
    if (n.starts_with("llvm.trap")) return B_ABORT;
    if (n.starts_with("llvm.va_start")) return B_VASTART;
    if (n.starts_with("llvm.va_copy")) return B_VACOPY;
    if (n.starts_with("llvm.eh.typeid.for")) return B_TYPEID;
    if (n.starts_with("llvm.objectsize")) return B_OBJECTSIZE;
    if (n.starts_with("llvm.is.constant")) return B_ISCONST;
    if (n.starts_with("llvm.fabs")) return B_FABS;
    return B_NONE;
  }
  auto it = builtinNames.find(n.str());
  return it == builtinNames.end() ? B_NONE : it->second;
}
// ------------------------------------------------------------------ decoding
static void leafTypes(Type *t, std::vector<unsigned> &out) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leafTypes(e, out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), out); return; }
  if (t->isPointerTy()) { out.push_back(64); return; }
  if (t->isIntegerTy()) { out.push_back(t->getIntegerBitWidth()); return; }
  if (t->isFloatTy()) { out.push_back(32); return; }
  if (t->isDoubleTy()) { out.push_back(64); return; }
  out.push_back(999);
}
static unsigned nslots(Type *t) { std::vector<unsigned> v; leafTypes(t, v); return v.size(); }
static unsigned width1(Type *t) { std::vector<unsigned> v; leafTypes(t, v); return v.size() == 1 ? v[0] : 999; }
static Func *getFunc(const Function *F);
static u64 addrOf(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; abort(); } return it->second;
}
static u64 constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getValue().getActiveBits() > 64 ? i->getValue().trunc(64).getZExtValue() : i->getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (c->getType()->isX86_FP80Ty()) return 0; return f->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = width1(e->getType());
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off); return constVal(e->getOperand(0)) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return constVal(e->getOperand(0)) & maskw(w);
    case Instruction::Trunc: return constVal(e->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constVal(e->getOperand(0)) + constVal(e->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constVal(e->getOperand(0)) - constVal(e->getOperand(1))) & maskw(w);
    default: break;
    }
  }
  if (isa<ConstantAggregateZero>(c)) return 0;
  errs() << "unsupported constant " << *c << "\n"; return 0;
}
static void constLeaves(const Constant *c, Type *t, std::vector<u64> &out) {
  if (t->isStructTy() || t->isArrayTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(); if (e) constLeaves(e, et, out); else { for (unsigned k = nslots(et); k; k--) out.push_back(0); } } return; }
  out.push_back(constVal(c));
}
struct Decoder {
  Func *fn; const Function *F; std::map<const Value *, i32> reg; std::map<std::pair<u64, int>, i32> cst; std::map<const BasicBlock *, u32> bbStart;
  i32 constRef(u64 v) { auto k = std::make_pair(v, 0); auto it = cst.find(k); if (it != cst.end()) return it->second; fn->consts.push_back({v, nullptr}); i32 r = ~(i32)(fn->consts.size() - 1); cst[k] = r; return r; }
  void refs(const Value *v, std::vector<i32> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<u64> l; constLeaves(c, v->getType(), l); for (u64 x : l) out.push_back(constRef(x)); return; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) { out.push_back(constRef(0)); return; }
    if (isa<InlineAsm>(v)) { out.push_back(constRef(0)); return; }
    auto it = reg.find(v); if (it == reg.end()) { errs() << "no reg for " << *v << "\n"; abort(); }
    unsigned n = nslots(v->getType()); for (unsigned i = 0; i < n; i++) out.push_back(it->second + i);
  }
  i32 ref(const Value *v) { std::vector<i32> o; refs(v, o); return o.empty() ? constRef(0) : o[0]; }
  u32 locOf(const Instruction &I) {
    std::string l;
    if (const DILocation *d = I.getDebugLoc()) { l = d->getFilename().str() + ":" + std::to_string(d->getLine()); }
    auto it = locIdx.find(l); if (it != locIdx.end()) return it->second; locs.push_back(l); return locIdx[l] = locs.size() - 1;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0;
    for (auto &phi : to->phis()) { const Value *in = phi.getIncomingValueForBlock(from); std::vector<i32> s; refs(in, s); i32 d = reg[&phi]; for (size_t i = 0; i < s.size(); i++) e.copies.push_back({d + (i32)i, s[i]}); }
    pend.push_back({(int)fn->edges.size(), to}); fn->edges.push_back(e); return fn->edges.size() - 1;
  }
  std::vector<std::pair<int, const BasicBlock *>> pend;
  Inst &emit(Op op, const Instruction &I) { Inst n; memset(&n, 0, sizeof n); n.op = op; n.dst = -1; n.loc = locOf(I); auto it = reg.find(&I); if (it != reg.end()) n.dst = it->second; fn->code.push_back(n); return fn->code.back(); }
  void unsupported(const Instruction &I) { std::string s; raw_string_ostream o(s); o << I; Inst &n = emit(O_UNSUPPORTED, I); n.ext = new std::string(s); }
  void movAgg(const Instruction &I, const std::vector<i32> &srcs, i32 dst) { if (srcs.empty()) { emit(O_NOP, I); return; } for (size_t i = 0; i < srcs.size(); i++) { Inst &n = emit(O_MOV, I); n.dst = dst + i; n.a = srcs[i]; } }
  void run() {
    u32 r = 0;
    for (auto &a : F->args()) { reg[&a] = r; r += nslots(a.getType()); }
    fn->nargslots = r;
    for (auto &I : instructions(F)) { unsigned n = nslots(I.getType()); if (n) { reg[&I] = r; r += n; } }
    fn->nregs = r;
    for (auto &BB : *F) { bbStart[&BB] = fn->code.size(); for (auto &I : BB) { if (isa<PHINode>(I)) continue; inst(I, BB); } }
    for (auto &p : pend) fn->edges[p.first].target = bbStart[p.second];
    fn->decoded = true;
  }
  static unsigned aggOffset(Type *t, ArrayRef<unsigned> idx) { unsigned o = 0; for (unsigned i : idx) { if (t->isStructTy()) { for (unsigned k = 0; k < i; k++) o += nslots(t->getStructElementType(k)); t = t->getStructElementType(i); } else { o += i * nslots(t->getArrayElementType()); t = t->getArrayElementType(); } } return o; }
  void inst(const Instruction &I, const BasicBlock &BB) {
    Type *T = I.getType();
    auto badTy = [&](Type *t) { std::vector<unsigned> v; leafTypes(t, v); for (unsigned x : v) if (x > 64) return true; return false; };
    bool bad = badTy(T); for (auto &op : I.operands()) if (!isa<BasicBlock>(op) && !isa<MetadataAsValue>(op) && !isa<Function>(op) && op->getType()->isSized() && badTy(op->getType())) bad = true;
    if (bad && !isa<DbgInfoIntrinsic>(I)) { unsupported(I); if (I.isTerminator()) {} return; }
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      static const std::map<unsigned, Kind> fm = {{Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB}, {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}};
      auto it = m.find(b->getOpcode());
      if (it != m.end()) { i32 x = ref(b->getOperand(0)), y = ref(b->getOperand(1)); Inst &n = emit(it->second, I); n.w = width1(T); n.a = x; n.b = y; return; }
      auto fi = fm.find(b->getOpcode()); if (fi != fm.end()) { i32 x = ref(b->getOperand(0)), y = ref(b->getOperand(1)); Inst &n = emit(O_FBIN, I); n.w = width1(T); n.a = x; n.b = y; n.imm = fi->second; return; }
      unsupported(I); return; }
    if (auto *c = dyn_cast<ICmpInst>(&I)) { i32 x = ref(c->getOperand(0)), y = ref(c->getOperand(1)); Op op; bool sw = false;
      switch (c->getPredicate()) { case CmpInst::ICMP_EQ: op = O_EQ; break; case CmpInst::ICMP_NE: op = O_NE; break; case CmpInst::ICMP_ULT: op = O_ULT; break; case CmpInst::ICMP_ULE: op = O_ULE; break; case CmpInst::ICMP_UGT: op = O_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = O_ULE; sw = true; break; case CmpInst::ICMP_SLT: op = O_SLT; break; case CmpInst::ICMP_SLE: op = O_SLE; break; case CmpInst::ICMP_SGT: op = O_SLT; sw = true; break; default: op = O_SLE; sw = true; break; }
      Inst &n = emit(op, I); n.w = width1(c->getOperand(0)->getType()); n.a = sw ? y : x; n.b = sw ? x : y; return; }
    if (auto *c = dyn_cast<FCmpInst>(&I)) { i32 x = ref(c->getOperand(0)), y = ref(c->getOperand(1)); Inst &n = emit(O_FCMP, I); n.w = width1(c->getOperand(0)->getType()); n.a = x; n.b = y; n.imm = c->getPredicate(); return; }
    if (auto *c = dyn_cast<CastInst>(&I)) { i32 x = ref(c->getOperand(0)); unsigned sw = width1(c->getSrcTy()), dw = width1(T); Op op = O_MOV;
      switch (c->getOpcode()) { case Instruction::ZExt: op = O_ZEXT; break; case Instruction::SExt: op = O_SEXT; break; case Instruction::Trunc: op = O_TRUNC; break;
      case Instruction::PtrToInt: op = dw < sw ? O_TRUNC : O_MOV; break; case Instruction::IntToPtr: op = sw < dw ? O_ZEXT : O_MOV; break; case Instruction::BitCast: case Instruction::AddrSpaceCast: op = O_MOV; break;
      default: { Inst &n = emit(O_FCVT, I); n.a = x; n.w = dw; n.w2 = sw; switch (c->getOpcode()) { case Instruction::SIToFP: n.imm = K_SITOFP; break; case Instruction::UIToFP: n.imm = K_UITOFP; break; case Instruction::FPToSI: n.imm = K_FPTOSI; break; case Instruction::FPToUI: n.imm = K_FPTOUI; break; case Instruction::FPExt: n.imm = K_FPEXT; break; case Instruction::FPTrunc: n.imm = K_FPTRUNC; break; default: n.op = O_UNSUPPORTED; n.ext = new std::string("cast"); } return; } }
      Inst &n = emit(op, I); n.a = x; n.w = dw; n.w2 = sw; return; }
    if (auto *u = dyn_cast<UnaryOperator>(&I)) { i32 x = ref(u->getOperand(0)); Inst &n = emit(O_FNEG, I); n.a = x; n.w = width1(T); return; }
    if (auto *f = dyn_cast<FreezeInst>(&I)) { std::vector<i32> s; refs(f->getOperand(0), s); movAgg(I, s, reg[&I]); return; }
    if (auto *s = dyn_cast<SelectInst>(&I)) { std::vector<i32> x, y; refs(s->getTrueValue(), x); refs(s->getFalseValue(), y); std::vector<unsigned> lw; leafTypes(T, lw); i32 c = ref(s->getCondition());
      for (size_t i = 0; i < x.size(); i++) { Inst &n = emit(O_SELECT, I); n.dst = reg[&I] + i; n.a = c; n.b = x[i]; n.c = y[i]; n.w = lw[i]; } return; }
    if (auto *l = dyn_cast<LoadInst>(&I)) { std::vector<unsigned> lw; leafTypes(T, lw); i32 p = ref(l->getPointerOperand());
      if (lw.size() == 1 && !T->isAggregateType()) { Inst &n = emit(O_LOAD, I); n.a = p; n.w = lw[0]; n.w2 = DL->getTypeStoreSize(T); return; }
      std::vector<std::pair<u64, Type *>> offs; flat(T, 0, offs); for (size_t i = 0; i < offs.size(); i++) { Inst &n = emit(O_LOAD, I); n.dst = reg[&I] + i; n.a = p; n.w = lw[i]; n.w2 = DL->getTypeStoreSize(offs[i].second); n.imm = offs[i].first; } return; }
    if (auto *st = dyn_cast<StoreInst>(&I)) { Type *VT = st->getValueOperand()->getType(); std::vector<i32> v; refs(st->getValueOperand(), v); i32 p = ref(st->getPointerOperand()); std::vector<std::pair<u64, Type *>> offs; flat(VT, 0, offs);
      bool und = isa<UndefValue>(st->getValueOperand()); if (und) { emit(O_NOP, I); return; }
      for (size_t i = 0; i < offs.size(); i++) { Inst &n = emit(O_STORE, I); n.a = p; n.b = v[i]; n.w = width1(offs[i].second); n.w2 = DL->getTypeStoreSize(offs[i].second); n.imm = offs[i].first; } return; }
    if (auto *a = dyn_cast<AllocaInst>(&I)) { i32 c = ref(a->getArraySize()); Inst &n = emit(O_ALLOCA, I); n.a = c; n.w = width1(a->getArraySize()->getType()); n.imm = DL->getTypeAllocSize(a->getAllocatedType()); return; }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { auto *gi = new GepInfo; gi->base = ref(g->getPointerOperand()); gi->off = 0;
      for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) { const Value *ix = it.getOperand();
        if (StructType *sty = it.getStructTypeOrNull()) { gi->off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { gi->off += (u64)ci->getSExtValue() * sz; continue; }
        gi->idx.push_back({ref(ix), sz}); gi->w.push_back(width1(ix->getType())); }
      if (gi->idx.empty()) { Inst &n = emit(O_ADDI, I); n.a = gi->base; n.imm = gi->off; delete gi; return; }
      if (gi->idx.size() == 1) { Inst &n = emit(O_GEP1, I); n.a = gi->base; n.b = gi->idx[0].first; n.w = gi->w[0]; n.imm = gi->off; n.ext = (void *)gi->idx[0].second; return; }
      Inst &n = emit(O_GEPN, I); n.ext = gi; return; }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isUnconditional()) { int e = edge(&BB, b->getSuccessor(0)); Inst &n = emit(O_BR, I); n.a = e; return; }
      i32 c = ref(b->getCondition()); int e1 = edge(&BB, b->getSuccessor(0)), e2 = edge(&BB, b->getSuccessor(1)); Inst &n = emit(O_CONDBR, I); n.a = c; n.b = e1; n.c = e2; return; }
    if (auto *s = dyn_cast<SwitchInst>(&I)) { auto *si = new SwitchInfo; si->v = ref(s->getCondition()); si->w = width1(s->getCondition()->getType()); std::map<const BasicBlock *, int> em; auto eg = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = edge(&BB, t); };
      si->def = eg(s->getDefaultDest()); for (auto &c : s->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), eg(c.getCaseSuccessor())}); Inst &n = emit(O_SWITCH, I); n.ext = si; return; }
    if (auto *r = dyn_cast<ReturnInst>(&I)) { auto *v = new std::vector<i32>; if (r->getReturnValue()) refs(r->getReturnValue(), *v); Inst &n = emit(O_RET, I); n.ext = v; return; }
    if (isa<UnreachableInst>(I)) { emit(O_UNREACHABLE, I); return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { unsigned o = aggOffset(e->getAggregateOperand()->getType(), e->getIndices()); std::vector<i32> s; refs(e->getAggregateOperand(), s); unsigned n = nslots(T); movAgg(I, std::vector<i32>(s.begin() + o, s.begin() + o + n), reg[&I]); return; }
    if (auto *iv = dyn_cast<InsertValueInst>(&I)) { unsigned o = aggOffset(T, iv->getIndices()); std::vector<i32> s, v; refs(iv->getAggregateOperand(), s); refs(iv->getInsertedValueOperand(), v); for (size_t i = 0; i < v.size(); i++) s[o + i] = v[i]; movAgg(I, s, reg[&I]); return; }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) { auto *li = new LPInfo; li->cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) li->clauses.push_back({true, constVal(lp->getClause(i))}); else li->clauses.push_back({false, 0}); } Inst &n = emit(O_LANDINGPAD, I); n.ext = li; return; }
    if (isa<ResumeInst>(I)) { emit(O_RESUME, I); return; }
    if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { i32 p = ref(cx->getPointerOperand()), e = ref(cx->getCompareOperand()), nv = ref(cx->getNewValOperand()); Inst &n = emit(O_CMPXCHG, I); n.a = p; n.b = e; n.c = nv; n.w = width1(cx->getCompareOperand()->getType()); return; }
    if (auto *rw = dyn_cast<AtomicRMWInst>(&I)) { i32 p = ref(rw->getPointerOperand()), v = ref(rw->getValOperand()); Inst &n = emit(O_ATOMICRMW, I); n.a = p; n.b = v; n.w = width1(T); n.imm = rw->getOperation(); return; }
    if (isa<FenceInst>(I)) { emit(O_NOP, I); return; }
    if (auto *cb = dyn_cast<CallBase>(&I)) { call(I, *cb, BB); return; }
    unsupported(I);
  }
  void flat(Type *t, u64 off, std::vector<std::pair<u64, Type *>> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * sz, out); return; }
    out.push_back({off, t});
  }
  void call(const Instruction &I, const CallBase &cb, const BasicBlock &BB) {
    const Function *callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if (callee && callee->isIntrinsic()) {
      auto id = callee->getIntrinsicID(); Type *T = I.getType();
      auto two = [&](Op op, u64 imm) { i32 x = ref(cb.getArgOperand(0)), y = ref(cb.getArgOperand(1)); Inst &n = emit(op, I); n.a = x; n.b = y; n.w = width1(cb.getArgOperand(0)->getType()); n.imm = imm; };
      switch (id) {
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: two(O_OVERFLOW, id); return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: two(O_MINMAX, id); return;
      case Intrinsic::abs: case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bitreverse: { i32 x = ref(cb.getArgOperand(0)); Inst &n = emit(O_BITOP, I); n.a = x; n.w = width1(T); n.imm = id; return; }
      case Intrinsic::fshl: case Intrinsic::fshr: { i32 x = ref(cb.getArgOperand(0)), y = ref(cb.getArgOperand(1)), z = ref(cb.getArgOperand(2)); Inst &n = emit(O_FSH, I); n.a = x; n.b = y; n.c = z; n.w = width1(T); n.imm = id == Intrinsic::fshl; return; }
      default: break;
      }
    }
    auto *ci = new CallInfo; ci->dst = reg.count(&I) ? reg[&I] : -1; ci->nret = nslots(I.getType()); ci->retw = ci->nret == 1 ? width1(I.getType()) : 0;
    if (callee) { ci->name = callee->getName().str(); ci->builtin = builtinFor(callee); ci->nfixed = callee->getFunctionType()->getNumParams(); if (ci->builtin < 0) { Func *fc = getFunc(callee); ci->callee = fc; } }
    else { ci->fnref = ref(cb.getCalledOperand()); ci->nfixed = cb.getFunctionType()->getNumParams(); ci->name = "<indirect>"; }
    unsigned k = 0;
    for (auto &a : cb.args()) { std::vector<i32> s; if (a->getType()->isMetadataTy()) continue; 
      bool byval = cb.isByValArgument(k); (void)byval;
      refs(a, s); std::vector<unsigned> lw; leafTypes(a->getType(), lw); ci->argslots.push_back(s.size()); ci->argsize.push_back(byval ? 1 : 0); for (size_t i = 0; i < s.size(); i++) { ci->args.push_back(s[i]); ci->argw.push_back(lw[i]); } k++; }
    if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->normal = edge(&BB, iv->getNormalDest()); ci->unwind = edge(&BB, iv->getUnwindDest()); }
    if (isa<InlineAsm>(cb.getCalledOperand())) { auto *ia = cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty()) { if (ci->nret) { unsupported(I); return; } emit(O_NOP, I); return; } unsupported(I); return; }
    // byval arguments: copy (by-value aggregates larger than two words)
    for (unsigned i = 0; i < cb.arg_size(); i++) if (cb.isByValArgument(i)) { byvals[ci].push_back({i, DL->getTypeAllocSize(cb.getParamByValType(i))}); }
    Inst &n = emit(ci->builtin >= 0 ? O_BUILTIN : callee ? O_CALL : O_CALLIND, I); n.ext = ci;
  }
  static std::map<CallInfo *, std::vector<std::pair<unsigned, u64>>> byvals;
};
std::map<CallInfo *, std::vector<std::pair<unsigned, u64>>> Decoder::byvals;
static Func *getFunc(const Function *F) {
  auto it = funcOf.find(F); if (it != funcOf.end()) return it->second;
  Func *f = new Func; f->name = F->getName().str(); f->decl = F->isDeclaration(); f->vararg = F->isVarArg(); f->llvm = (void *)F; f->builtin = builtinFor(F); f->nformal = F->arg_size();
  if (auto *sp = F->getSubprogram()) f->file = sp->getFilename().str();
  funcOf[F] = f; funcs.push_back(f); return f;
}
static void decode(Func *f) { Decoder d; d.fn = f; d.F = (const Function *)f->llvm; d.run(); if (f->code.empty()) abort(); }

// ------------------------------------------------------------------ interpreter
static State *S; // current
static inline Val &R(State &s, Frame &f, i32 r) { return r >= 0 ? s.regs[f.regBase + r] : f.f->consts[~r]; }
static void growRegs(State &s, u32 n) { if (s.nregs + n > s.capregs) { s.capregs = (s.nregs + n) * 2 + 1024; s.regs = (Val *)realloc(s.regs, s.capregs * sizeof(Val)); } }
static void takeEdge(State &s, Frame &f, int ei) {
  Edge &e = f.f->edges[ei];
  size_t n = e.copies.size();
  if (n == 1) { s.regs[f.regBase + e.copies[0].dst] = R(s, f, e.copies[0].src); }
  else if (n) { Val tmp[64]; Val *t = n <= 64 ? tmp : (Val *)malloc(n * sizeof(Val)); for (size_t i = 0; i < n; i++) t[i] = R(s, f, e.copies[i].src); for (size_t i = 0; i < n; i++) s.regs[f.regBase + e.copies[i].dst] = t[i]; if (t != tmp) free(t); }
  f.pc = e.target;
}
static void enter(State &s, Func *callee, CallInfo *ci, const std::vector<Val> &args, const std::vector<Val> &extra) {
  if (callee->decl) { incomplete(s, "call to undefined function " + callee->name); }
  if (!callee->decoded) decode(callee);
  callee->executed = true;
  if (s.fr.size() > optMaxDepth) fail(s, "stackoverflow", "call depth exceeds bound");
  Frame nf; nf.f = callee; nf.pc = 0; nf.regBase = s.nregs; nf.retDst = ci ? ci->dst : -1; nf.nret = ci ? ci->nret : 0; nf.retw = ci ? ci->retw : 0; nf.normal = ci ? ci->normal : -1; nf.unwind = ci ? ci->unwind : -1; nf.allocaBase = s.allocas.size(); nf.vaobj = 0;
  growRegs(s, callee->nregs + 8);
  u32 n = callee->nargslots; for (u32 i = 0; i < n; i++) s.regs[s.nregs + i] = i < args.size() ? args[i] : Val{0, nullptr};
  s.nregs += callee->nregs;
  if (callee->vararg) { u32 id = newObj(s, std::max<size_t>(8, extra.size() * 8), OF_STACK, 0, 0); s.allocas.push_back(id); nf.vaobj = (u64)id << 32; for (size_t i = 0; i < extra.size(); i++) storeC(s, nf.vaobj + 8 * i, 8, 64, extra[i]); }
  s.fr.push_back(nf);
}
static void growRegs(State &s, u32 n);
static void parkThread(State &s) { Thr &t = s.thr[s.cur]; t.fr.swap(s.fr); t.allocas.swap(s.allocas); t.regs.assign(s.regs, s.regs + s.nregs); s.fr.clear(); s.allocas.clear(); s.nregs = 0; }
static void resumeThread(State &s, u32 i) { Thr &t = s.thr[i]; s.cur = i; s.fr.swap(t.fr); s.allocas.swap(t.allocas); growRegs(s, t.regs.size() + 8); if (t.regs.size()) memcpy(s.regs, t.regs.data(), t.regs.size() * sizeof(Val)); s.nregs = t.regs.size(); t.regs.clear(); t.fr.clear(); t.allocas.clear(); }
static void popFrame(State &s) {
  Frame &f = s.fr.back();
  while (s.allocas.size() > f.allocaBase) { u32 id = s.allocas.back(); s.allocas.pop_back(); killObj(s, id); s.freeIds.push_back(id); }
  s.nregs = f.regBase; s.fr.pop_back();
}
static void afterCall(State &s, Frame &f, CallInfo *ci) { if (ci->normal >= 0) takeEdge(s, f, ci->normal); else f.pc++; }
static u64 readPtrC(State &s, u64 a) { Val v = loadC(s, a, 8, 64); return v.c; }
static bool tiMatch(State &s, u64 catchTi, u64 ti) { // single inheritance walk
  for (int i = 0; i < 10 && ti; i++) { if (ti == catchTi) return true; Obj *o = getObj(s, ti >> 32); if (!o || o->size < 24) return false; ti = readPtrC(s, ti + 16); } return false; }
static void unwind(State &s) {
  // pop frames until a call made by an invoke is found
  while (true) {
    if (s.fr.empty()) throw PathEnd();
    Frame top = s.fr.back(); 
    if (s.fr.size() == 1) { fail(s, "exception", "uncaught exception"); }
    int uw = top.unwind; popFrame(s);
    if (uw >= 0) { takeEdge(s, s.fr.back(), uw); return; }
  }
}
static std::string cstr(State &s, u64 a) { std::string r; for (int i = 0; i < 200; i++) { Val v = loadC(s, a + i, 1, 8); if (v.e || !v.c) break; r += (char)v.c; } return r; }
static std::string showExpr(Expr *e, int d) {
  static const char *N[] = {"c","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"};
  char b[64]; if (isC(e)) { snprintf(b, 64, "%llx", (unsigned long long)e->c); return b; } if (e->k == K_SYM) { snprintf(b, 64, "v%u:%u", (unsigned)e->c, e->w); return b; }
  if (d <= 0 || e->size > 3000) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string r = std::string("(") + (e->k <= K_CONCAT ? N[e->k] : "fp"); for (Expr *x : {e->a, e->b, e->d}) if (x) r += " " + showExpr(x, d - 1); return r + ")"; }
static void doBuiltin(State &s, Frame &f, Inst &in, CallInfo *ci) {
  auto A = [&](unsigned i) -> Val { return R(s, f, ci->args[i]); };
  auto ret = [&](Val v) { if (ci->dst >= 0) s.regs[f.regBase + ci->dst] = v; };
  auto done = [&]() { afterCall(s, s.fr.back(), ci); };
  switch (ci->builtin) {
  case B_NOP: done(); return;
  case B_NOPRET0: ret({0, 0}); done(); return;
  case B_EXPECT: ret(A(0)); done(); return;
  case B_ISCONST: ret({0, 0}); done(); return;
  case B_OBJECTSIZE: ret({~0ull & maskw(ci->retw), 0}); done(); return;
  case B_MALLOC: { u64 n = concretize(s, A(0), 64); if (n > (60ull << 20)) { ret({0, 0}); done(); return; } u32 id = newObj(s, n, OF_HEAP, 1, in.loc); s.liveHeap++; s.liveBytes += n; ret({(u64)id << 32, 0}); done(); return; }
  case B_CALLOC: { u64 n = concretize(s, A(0), 64) * concretize(s, A(1), 64); if (n > (60ull << 20)) { ret({0, 0}); done(); return; } u32 id = newObj(s, n, OF_HEAP, 0, in.loc); s.liveHeap++; s.liveBytes += n; ret({(u64)id << 32, 0}); done(); return; }
  case B_FREE: { u64 p = concretize(s, A(0), 64); if (p) { Obj *o = getObj(s, p >> 32); if (!o || (u32)p || !(o->flags & OF_HEAP)) fail(s, "memory", "free of invalid pointer"); if (o->flags & OF_DEAD) fail(s, "memory", "double free"); s.liveHeap--; s.liveBytes -= o->size; killObj(s, p >> 32); } done(); return; }
  case B_BLOCKSIZE: { u64 p = concretize(s, A(0), 64); Obj *o = getObj(s, p >> 32); ret({o ? o->size : 0, 0}); done(); return; }
  case B_REALLOC: { u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); if (n > (60ull << 20)) { ret({0, 0}); done(); return; }
    Obj *o = nullptr; if (p) { o = getObj(s, p >> 32); if (!o || (u32)p || !(o->flags & OF_HEAP)) fail(s, "memory", "realloc of invalid pointer"); if (o->flags & OF_DEAD) fail(s, "memory", "realloc of freed pointer"); }
    u64 on = o ? o->size : 0; u32 id = newObj(s, n, OF_HEAP, 1, in.loc); s.liveHeap++; s.liveBytes += n;
    if (p) { if (std::min(on, n)) copyMem(s, (u64)id << 32, p, std::min(on, n)); s.liveHeap--; s.liveBytes -= on; killObj(s, p >> 32); }
    ret({(u64)id << 32, 0}); done(); return; }
  case B_MEMCPY: { u64 n = concretize(s, A(2), ci->argw[2]); if (n && A(0).e && !isFixed(s, A(0).e)) resolve(s, A(0).e, n, true); if (n && A(1).e && !isFixed(s, A(1).e)) resolve(s, A(1).e, n, false); u64 d = concretize(s, A(0), 64), src = concretize(s, A(1), 64); copyMem(s, d, src, n); ret({d, 0}); done(); return; }
  case B_MEMSET: { u64 n = concretize(s, A(2), ci->argw[2]); if (n && A(0).e && !isFixed(s, A(0).e)) resolve(s, A(0).e, n, true); u64 d = concretize(s, A(0), 64); Val b = A(1); if (b.e && b.e->w > 8) b = val(mkExtract(b.e, 0, 8)); b.c &= 255; setMem(s, d, b, n); ret({d, 0}); done(); return; }
  case B_ABORT: fail(s, "abort", "program aborted");
  case B_UNWINDABORT: fail(s, "exception", "terminate called");
  case B_EXIT: fail(s, "exit", "program called exit");
  case B_EXITPATH: throw PathEnd();
  case B_ASSERTFAIL: fail(s, "assert", "assertion in the code failed: " + cstr(s, concretize(s, A(0), 64)));
  case B_SYM_BYTES: { u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); std::string nm = cstr(s, concretize(s, A(2), 64)); checkAccess(s, p, n, true); for (u64 i = 0; i < n; i++) { Expr *y = newSym(s, nm + "[" + std::to_string(i) + "]", 8, false); storeC(s, p + i, 1, 8, {0, y}); } done(); return; }
  case B_SYM_INT: { unsigned w = ci->retw; Expr *y = newSym(s, cstr(s, concretize(s, A(0), 64)), w, false); ret({0, y}); done(); return; }
  case B_ASSUME: { Val v = A(0); if (!v.e) { if (!v.c) { nInfeasible++; throw PathEnd(); } done(); return; }
    Expr *c = mkNot1(mkBin(K_EQ, v.e, mkConst(0, v.e->w))); if (isC(c)) { if (!c->c) { nInfeasible++; throw PathEnd(); } done(); return; }
    if (!evalM(s, c)) { Model m2 = s.m; if (query(s, c, m2) != SAT) { nInfeasible++; throw PathEnd(); } s.m = m2; }
    addPc(s, c); done(); return; }
  case B_ASSERT: { Val v = A(0); nAsserts++; std::string msg = cstr(s, concretize(s, A(1), 64)); if (!v.e) { if (!v.c) fail(s, "assert", msg); done(); return; }
    nAssertSym++; Expr *c = mkNot1(mkBin(K_EQ, v.e, mkConst(0, v.e->w))); if (isC(c)) { if (!c->c) fail(s, "assert", msg); done(); return; }
    checkTaint(s, c);
    if (getenv("SYMX_DUMPQ")) { fprintf(stderr, "assert %s: %s\n", msg.c_str(), showExpr(c, 40).c_str()); }
    Model m2 = s.m; if (query(s, mkNot1(c), m2) == SAT) { recordErr(s, "assert", msg, &m2); if (!evalM(s, c)) { Model m3 = s.m; if (query(s, c, m3) != SAT) throw PathEnd(); s.m = m3; } addPc(s, c); }
    done(); return; }
  case B_FAIL: fail(s, "assert", cstr(s, concretize(s, A(0), 64)));
  case B_COVER: covers.insert(cstr(s, concretize(s, A(0), 64))); done(); return;
  case B_FORKSELECT: forkSelect = true; done(); return;
  case B_ISSTACK: { u64 a = A(0).e ? concretize(s, A(0), 64) : A(0).c; Obj *o = getObj(s, a >> 32); ret({o && (o->flags & OF_STACK) ? 1ull : 0ull, nullptr}); done(); return; }
  case B_SPAWN: { auto it = funcByAddr.find(A(0).c); if (it == funcByAddr.end()) fail(s, "memory", "symx_spawn: no function"); Val arg = A(1); if (s.thr.empty()) s.thr.resize(1); u32 n = s.thr.size(), me = s.cur; ret({n, nullptr}); done(); s.thr.resize(n + 1); parkThread(s); s.cur = n; enter(s, it->second, nullptr, {arg}, {}); parkThread(s); resumeThread(s, me); return; }
  case B_SWITCH: { u64 n = A(0).c; done(); if (n >= s.thr.size() || n == s.cur || s.thr[n].done) return; parkThread(s); resumeThread(s, n); return; }
  case B_CONCRETIZE: ret({concretize(s, A(0), 64), 0}); done(); return;
  case B_NOTE: s.notes.push_back({cstr(s, concretize(s, A(0), 64)), A(1).e ? evalM(s, A(1).e) : A(1).c}); done(); return;
  case B_LIVEHEAP: ret({s.liveHeap, 0}); done(); return;
  case B_LIVEBYTES: ret({s.liveBytes, 0}); done(); return;
  case B_NATIVE: ret({0, 0}); done(); return;
  case B_ISSYM: ret({A(0).e ? 1ull : 0ull, 0}); done(); return;
  case B_FABS: { Val v = A(0); unsigned w = ci->retw; ret(v.e ? val(mkBin(K_AND, v.e, mkConst(maskw(w) >> 1, w))) : Val{v.c & (maskw(w) >> 1), 0}); done(); return; }
  case B_VASTART: { u64 p = A(0).c; storeC(s, p, 4, 32, {48, 0}); storeC(s, p + 4, 4, 32, {304, 0}); storeC(s, p + 8, 8, 64, {f.vaobj, 0}); storeC(s, p + 16, 8, 64, {0, 0}); done(); return; }
  case B_VACOPY: copyMem(s, A(0).c, A(1).c, 24); done(); return;
  case B_CXA_ALLOC: { u32 id = newObj(s, A(0).c, OF_HEAP, 1, in.loc); ret({(u64)id << 32, 0}); done(); return; }
  case B_CXA_FREE: done(); return;
  case B_CXA_THROW: s.excPtr = A(0).c; s.excTi = A(1).c; if (ci->unwind >= 0) { takeEdge(s, f, ci->unwind); return; } 
    { Frame &fr = s.fr.back(); if (s.fr.size() == 1) fail(s, "exception", "uncaught exception"); int uw = fr.unwind; popFrame(s); if (uw >= 0) takeEdge(s, s.fr.back(), uw); else unwind(s); } return;
  case B_CXA_BEGIN: s.caught.push_back({s.excPtr, s.excTi}); ret({A(0).c, 0}); done(); return;
  case B_CXA_END: if (!s.caught.empty()) s.caught.pop_back(); done(); return;
  case B_CXA_RETHROW: { if (s.caught.empty()) fail(s, "exception", "rethrow without exception"); s.excPtr = s.caught.back().first; s.excTi = s.caught.back().second; if (ci->unwind >= 0) { takeEdge(s, f, ci->unwind); return; } if (s.fr.size() == 1) fail(s, "exception", "uncaught exception"); int uw = s.fr.back().unwind; popFrame(s); if (uw >= 0) takeEdge(s, s.fr.back(), uw); else unwind(s); return; }
  case B_TYPEID: ret({A(0).c >> 32, 0}); done(); return;
  default: incomplete(s, "builtin " + ci->name);
  }
}
static Expr *fcmpExpr(unsigned pred, Expr *a, Expr *b) {
  Expr *uno = mkFp(K_FUNO, a, b, 1), *r;
  switch (pred & 7) { case 0: r = mkConst(0, 1); break; case 1: r = mkFp(K_FEQ, a, b, 1); break; case 2: r = mkFp(K_FLT, b, a, 1); break; case 3: r = mkFp(K_FLE, b, a, 1); break; case 4: r = mkFp(K_FLT, a, b, 1); break; case 5: r = mkFp(K_FLE, a, b, 1); break; case 6: r = mkBin(K_AND, mkNot1(uno), mkNot1(mkFp(K_FEQ, a, b, 1))); break; default: r = mkNot1(uno); }
  if (pred & 8) r = mkBin(K_OR, r, uno);
  return r;
}
static void runState(State &s);
static void splitWork();
static void call(State &s, Frame &f, CallInfo *ci, Func *callee) {
  std::vector<Val> args, extra; unsigned k = 0;
  for (unsigned i = 0; i < ci->argslots.size(); i++) for (unsigned j = 0; j < ci->argslots[i]; j++, k++) { Val v = R(s, f, ci->args[k]); if (i < callee->nformal) args.push_back(v); else { if (v.e && ci->argw[k] < 64) v.e = mkZext(v.e, 64); extra.push_back(v); } }
  auto bv = Decoder::byvals.find(ci);
  std::vector<u32> tmp;
  if (bv != Decoder::byvals.end()) for (auto &p : bv->second) { u32 id = newObj(s, p.second, OF_STACK, 1, 0); u64 a = (u64)id << 32; unsigned slot = 0; for (unsigned i = 0; i < p.first; i++) slot += ci->argslots[i]; copyMem(s, a, args.size() > slot && p.first < callee->nformal ? args[slot].c : extra[slot - args.size()].c, p.second); if (p.first < callee->nformal) args[slot] = {a, 0}; else { incomplete(s, "byval vararg"); } tmp.push_back(id); }
  enter(s, callee, ci, args, extra);
  for (u32 id : tmp) s.allocas.push_back(id); // freed with callee frame
}
#define BIN(OPC, KIND, EXPR) case OPC: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); if (!a.e && !b.e) { u64 x = a.c, y = b.c; unsigned w = in->w; (void)w; s.regs[f->regBase + in->dst] = {(EXPR) & maskw(w), nullptr}; } else s.regs[f->regBase + in->dst] = val(mkBin(KIND, ex(a, in->w), ex(b, in->w))); f->pc++; break; }
#define CMP(OPC, KIND, EXPR) case OPC: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); if (!a.e && !b.e) { u64 x = a.c, y = b.c; unsigned w = in->w; (void)w; s.regs[f->regBase + in->dst] = {(u64)(EXPR), nullptr}; } else s.regs[f->regBase + in->dst] = val(mkBin(KIND, ex(a, in->w), ex(b, in->w))); f->pc++; break; }
static void runState(State &s) {
  u64 lastCheck = 0;
  while (true) {
    Frame *f = &s.fr.back(); Inst *in = &f->f->code[f->pc];
    s.steps++;
    if (s.steps > optMaxSteps) fail(s, "steplimit", "instruction budget exceeded (non-termination?)");
    if (++lastCheck >= 20000) { lastCheck = 0; if (sh->stop) { nIncomplete++; if (incompleteWhy.empty()) incompleteWhy = "stopped"; throw PathEnd(); } splitWork(); if (overTime()) throw PathEnd(); }
    switch (in->op) {
    BIN(O_ADD, K_ADD, x + y) BIN(O_SUB, K_SUB, x - y) BIN(O_MUL, K_MUL, x *y) BIN(O_AND, K_AND, x &y) BIN(O_OR, K_OR, x | y) BIN(O_XOR, K_XOR, x ^ y)
    case O_SHL: case O_LSHR: case O_ASHR: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); Kind k = in->op == O_SHL ? K_SHL : in->op == O_LSHR ? K_LSHR : K_ASHR;
      // out-of-range shift counts behave like the x86 instruction (count modulo 32/64)
      unsigned mod = in->w > 32 ? 64 : 32;
      if (!a.e && !b.e) s.regs[f->regBase + in->dst] = {foldBin(k, a.c, b.c & (mod - 1), in->w), nullptr};
      else { Expr *be = ex(b, in->w); if (in->w >= 8) be = mkBin(K_AND, be, mkConst(mod - 1, in->w)); s.regs[f->regBase + in->dst] = val(mkBin(k, ex(a, in->w), be)); } f->pc++; break; }
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); Kind k = in->op == O_UDIV ? K_UDIV : in->op == O_SDIV ? K_SDIV : in->op == O_UREM ? K_UREM : K_SREM;
      bool sg = k == K_SDIV || k == K_SREM;
      if (!b.e) { if (!b.c) fail(s, "arith", "division by zero"); }
      else if (decide(s, mkBin(K_EQ, b.e, mkConst(0, in->w)))) fail(s, "arith", "division by zero");
      if (sg) { Expr *ov = mkBin(K_AND, mkBin(K_EQ, ex(a, in->w), mkConst(1ull << (in->w - 1), in->w)), mkBin(K_EQ, ex(b, in->w), mkConst(maskw(in->w), in->w))); if (decide(s, ov)) fail(s, "arith", "signed division overflow"); }
      f = &s.fr.back();
      if (!a.e && !b.e) s.regs[f->regBase + in->dst] = {foldBin(k, a.c, b.c, in->w), nullptr}; else s.regs[f->regBase + in->dst] = val(mkBin(k, ex(a, in->w), ex(b, in->w))); f->pc++; break; }
    CMP(O_EQ, K_EQ, x == y) CMP(O_ULT, K_ULT, x < y) CMP(O_ULE, K_ULE, x <= y) CMP(O_SLT, K_SLT, sxt(x, w) < sxt(y, w)) CMP(O_SLE, K_SLE, sxt(x, w) <= sxt(y, w))
    case O_NE: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); if (!a.e && !b.e) s.regs[f->regBase + in->dst] = {a.c != b.c, nullptr}; else s.regs[f->regBase + in->dst] = val(mkNot1(mkBin(K_EQ, ex(a, in->w), ex(b, in->w)))); f->pc++; break; }
    case O_ZEXT: { Val a = R(s, *f, in->a); s.regs[f->regBase + in->dst] = a.e ? val(mkZext(a.e, in->w)) : a; f->pc++; break; }
    case O_SEXT: { Val a = R(s, *f, in->a); s.regs[f->regBase + in->dst] = a.e ? val(mkSext(a.e, in->w)) : Val{(u64)sxt(a.c, in->w2) & maskw(in->w), nullptr}; f->pc++; break; }
    case O_TRUNC: { Val a = R(s, *f, in->a); s.regs[f->regBase + in->dst] = a.e ? val(mkExtract(a.e, 0, in->w)) : Val{a.c & maskw(in->w), nullptr}; f->pc++; break; }
    case O_MOV: s.regs[f->regBase + in->dst] = R(s, *f, in->a); f->pc++; break;
    case O_SELECT: { Val c = R(s, *f, in->a); if (c.e && forkSelect) { bool t = decide(s, c.e); f = &s.fr.back(); c = {t, nullptr}; } if (!c.e) s.regs[f->regBase + in->dst] = R(s, *f, c.c ? in->b : in->c); else s.regs[f->regBase + in->dst] = val(mkIte(c.e, ex(R(s, *f, in->b), in->w), ex(R(s, *f, in->c), in->w))); f->pc++; break; }
    case O_LOAD: { Val p = R(s, *f, in->a); if (in->imm) p = p.e ? val(mkBin(K_ADD, p.e, mkConst(in->imm, 64))) : Val{p.c + in->imm, 0}; Val v = load(s, p, in->w2, in->w); s.regs[f->regBase + in->dst] = v; f->pc++; break; }
    case O_STORE: { Val p = R(s, *f, in->a); if (in->imm) p = p.e ? val(mkBin(K_ADD, p.e, mkConst(in->imm, 64))) : Val{p.c + in->imm, 0}; store(s, p, in->w2, in->w, R(s, *f, in->b)); f->pc++; break; }
    case O_ADDI: { Val a = R(s, *f, in->a); s.regs[f->regBase + in->dst] = a.e ? val(mkBin(K_ADD, a.e, mkConst(in->imm, 64))) : Val{a.c + in->imm, nullptr}; f->pc++; break; }
    case O_GEP1: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); u64 sc = (u64)in->ext;
      if (!a.e && !b.e) s.regs[f->regBase + in->dst] = {a.c + in->imm + (u64)sxt(b.c, in->w) * sc, nullptr};
      else { Expr *i = mkBin(K_MUL, mkSext(ex(b, in->w), 64), mkConst(sc, 64)); s.regs[f->regBase + in->dst] = val(mkBin(K_ADD, mkBin(K_ADD, i, ex(a, 64)), mkConst(in->imm, 64))); } f->pc++; break; }
    case O_GEPN: { GepInfo *g = (GepInfo *)in->ext; Val a = R(s, *f, g->base); u64 c = g->off; Expr *e = a.e; if (!e) c += a.c; for (size_t i = 0; i < g->idx.size(); i++) { Val v = R(s, *f, g->idx[i].first); if (!v.e) c += (u64)sxt(v.c, g->w[i]) * g->idx[i].second; else { Expr *t = mkBin(K_MUL, mkSext(v.e, 64), mkConst(g->idx[i].second, 64)); e = e ? mkBin(K_ADD, e, t) : t; } } s.regs[f->regBase + in->dst] = e ? val(mkBin(K_ADD, e, mkConst(c, 64))) : Val{c, nullptr}; f->pc++; break; }
    case O_BR: takeEdge(s, *f, in->a); break;
    case O_CONDBR: { Val c = R(s, *f, in->a); bool t = c.e ? decide(s, c.e) : c.c; f = &s.fr.back(); takeEdge(s, *f, t ? in->b : in->c); break; }
    case O_SWITCH: { SwitchInfo *si = (SwitchInfo *)in->ext; Val v = R(s, *f, si->v); int e = si->def;
      if (!v.e) { for (auto &c : si->cases) if (c.first == v.c) { e = c.second; break; } }
      else { checkTaint(s, v.e); u64 x = evalM(s, v.e);
        for (auto &c : si->cases) if (c.first == x) { e = c.second; break; }
        // condition of every distinct target
        std::map<int, Expr *> cond; Expr *any = mkConst(0, 1); for (auto &c : si->cases) { Expr *q = mkBin(K_EQ, v.e, mkConst(c.first, si->w)); any = mkBin(K_OR, any, q); auto it = cond.find(c.second); cond[c.second] = it == cond.end() ? q : mkBin(K_OR, it->second, q); }
        Expr *dc = mkNot1(any); auto it = cond.find(si->def); cond[si->def] = it == cond.end() ? dc : mkBin(K_OR, it->second, dc);
        nSymBranch++; bool forked = false;
        for (auto &kv : cond) if (kv.first != e && !(isC(kv.second) && !kv.second->c)) { Model m2 = s.m; if (query(s, kv.second, m2) == SAT) { State *n = cloneState(s); n->m = m2; addPc(*n, kv.second); takeEdge(*n, n->fr.back(), kv.first); work.push_back(n); forked = true; } }
        if (forked) addPc(s, cond[e]); f = &s.fr.back(); }
      takeEdge(s, *f, e); break; }
    case O_RET: { std::vector<i32> &rv = *(std::vector<i32> *)in->ext; Val tmp[16]; size_t n = rv.size(); if (n > 16) incomplete(s, "large return"); for (size_t i = 0; i < n; i++) tmp[i] = R(s, *f, rv[i]);
      i32 dst = f->retDst; u32 nr = f->nret; int nrm = f->normal; popFrame(s);
      if (s.fr.empty() && s.cur) { s.thr[s.cur].done = true; s.nregs = 0; s.allocas.clear(); resumeThread(s, 0); break; }
      if (s.fr.empty()) return;
      Frame &c = s.fr.back(); if (dst >= 0) for (size_t i = 0; i < n && i < nr; i++) s.regs[c.regBase + dst + i] = tmp[i];
      if (nrm >= 0) takeEdge(s, c, nrm); else c.pc++; break; }
    case O_CALL: { CallInfo *ci = (CallInfo *)in->ext; call(s, *f, ci, ci->callee); break; }
    case O_CALLIND: { CallInfo *ci = (CallInfo *)in->ext; u64 a = concretize(s, R(s, *f, ci->fnref), 64); f = &s.fr.back(); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) fail(s, "memory", a ? "call through wild function pointer" : "call through null function pointer"); Func *cf = it->second;
      if (cf->builtin >= 0) { CallInfo *c2 = new CallInfo(*ci); c2->builtin = cf->builtin; c2->name = cf->name; doBuiltin(s, *f, *in, c2); break; }
      call(s, *f, ci, cf); break; }
    case O_BUILTIN: doBuiltin(s, *f, *in, (CallInfo *)in->ext); break;
    case O_ALLOCA: { u64 n = concretize(s, R(s, *f, in->a), in->w); f = &s.fr.back(); u32 id = newObj(s, n * in->imm, OF_STACK, 1, in->loc); s.allocas.push_back(id); s.regs[f->regBase + in->dst] = {(u64)id << 32, nullptr}; f->pc++; break; }
    case O_FBIN: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); s.regs[f->regBase + in->dst] = (!a.e && !b.e) ? Val{foldFp((Kind)in->imm, a.c, b.c, in->w, in->w), nullptr} : val(mkFp((Kind)in->imm, ex(a, in->w), ex(b, in->w), in->w)); f->pc++; break; }
    case O_FCMP: { Val a = R(s, *f, in->a), b = R(s, *f, in->b); s.regs[f->regBase + in->dst] = val(fcmpExpr(in->imm, ex(a, in->w), ex(b, in->w))); f->pc++; break; }
    case O_FCVT: { Val a = R(s, *f, in->a); s.regs[f->regBase + in->dst] = a.e ? val(mkFp((Kind)in->imm, a.e, nullptr, in->w)) : Val{foldFp((Kind)in->imm, a.c, 0, in->w, in->w2), nullptr}; f->pc++; break; }
    case O_FNEG: { Val a = R(s, *f, in->a); u64 sb = 1ull << (in->w - 1); s.regs[f->regBase + in->dst] = a.e ? val(mkBin(K_XOR, a.e, mkConst(sb, in->w))) : Val{a.c ^ sb, nullptr}; f->pc++; break; }
    case O_UNREACHABLE: fail(s, "unreachable", "unreachable code reached");
    case O_LANDINGPAD: { LPInfo *li = (LPInfo *)in->ext; u64 sel = 0; for (auto &c : li->clauses) if (c.first && (c.second == 0 || tiMatch(s, c.second, s.excTi))) { sel = c.second ? c.second >> 32 : 1; break; }
      if (!sel && !li->cleanup) { int dummy = 0; (void)dummy; /* not for us: keep unwinding */ if (s.fr.size() == 1) fail(s, "exception", "uncaught exception"); int uw = s.fr.back().unwind; popFrame(s); if (uw >= 0) takeEdge(s, s.fr.back(), uw); else unwind(s); break; }
      s.regs[f->regBase + in->dst] = {s.excPtr, nullptr}; s.regs[f->regBase + in->dst + 1] = {sel & 0xffffffff, nullptr}; f->pc++; break; }
    case O_RESUME: { if (s.fr.size() == 1) fail(s, "exception", "uncaught exception"); int uw = f->unwind; popFrame(s); if (uw >= 0) takeEdge(s, s.fr.back(), uw); else unwind(s); break; }
    case O_CMPXCHG: { Val p = R(s, *f, in->a); unsigned nb = in->w / 8; Val old = load(s, p, nb, in->w); Val e = R(s, *f, in->b); bool eq = (!old.e && !e.e) ? old.c == e.c : decide(s, mkBin(K_EQ, ex(old, in->w), ex(e, in->w))); f = &s.fr.back(); if (eq) store(s, p, nb, in->w, R(s, *f, in->c)); s.regs[f->regBase + in->dst] = old; s.regs[f->regBase + in->dst + 1] = {eq, nullptr}; f->pc++; break; }
    case O_ATOMICRMW: { Val p = R(s, *f, in->a), v = R(s, *f, in->b); unsigned nb = in->w / 8; Val old = load(s, p, nb, in->w); Expr *o = ex(old, in->w), *x = ex(v, in->w), *n; switch (in->imm) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkBin(K_ADD, o, x); break; case AtomicRMWInst::Sub: n = mkBin(K_SUB, o, x); break; case AtomicRMWInst::And: n = mkBin(K_AND, o, x); break; case AtomicRMWInst::Or: n = mkBin(K_OR, o, x); break; case AtomicRMWInst::Xor: n = mkBin(K_XOR, o, x); break; default: incomplete(s, "atomicrmw"); } store(s, p, nb, in->w, val(n)); s.regs[f->regBase + in->dst] = old; f->pc++; break; }
    case O_OVERFLOW: { Expr *a = ex(R(s, *f, in->a), in->w), *b = ex(R(s, *f, in->b), in->w), *r, *o; unsigned w = in->w; Expr *z = mkConst(0, w);
      switch (in->imm) {
      case Intrinsic::uadd_with_overflow: r = mkBin(K_ADD, a, b); o = mkBin(K_ULT, r, a); break;
      case Intrinsic::usub_with_overflow: r = mkBin(K_SUB, a, b); o = mkBin(K_ULT, a, b); break;
      case Intrinsic::sadd_with_overflow: r = mkBin(K_ADD, a, b); o = mkBin(K_SLT, mkBin(K_AND, mkBin(K_XOR, a, r), mkBin(K_XOR, b, r)), z); break;
      case Intrinsic::ssub_with_overflow: r = mkBin(K_SUB, a, b); o = mkBin(K_SLT, mkBin(K_AND, mkBin(K_XOR, a, b), mkBin(K_XOR, a, r)), z); break;
      case Intrinsic::umul_with_overflow: r = mkBin(K_MUL, a, b); o = mkBin(K_AND, mkNot1(mkBin(K_EQ, b, z)), mkNot1(mkBin(K_EQ, mkBin(K_UDIV, r, b), a))); break;
      default: if (w > 32) incomplete(s, "smul overflow"); { Expr *p = mkBin(K_MUL, mkSext(a, 2 * w), mkSext(b, 2 * w)); r = mkExtract(p, 0, w); o = mkNot1(mkBin(K_EQ, p, mkSext(r, 2 * w))); } }
      s.regs[f->regBase + in->dst] = val(r); s.regs[f->regBase + in->dst + 1] = val(o); f->pc++; break; }
    case O_MINMAX: { Expr *a = ex(R(s, *f, in->a), in->w), *b = ex(R(s, *f, in->b), in->w), *r; switch (in->imm) { case Intrinsic::umin: r = mkIte(mkBin(K_ULT, a, b), a, b); break; case Intrinsic::umax: r = mkIte(mkBin(K_ULT, a, b), b, a); break; case Intrinsic::smin: r = mkIte(mkBin(K_SLT, a, b), a, b); break; case Intrinsic::smax: r = mkIte(mkBin(K_SLT, a, b), b, a); break; case Intrinsic::usub_sat: r = mkIte(mkBin(K_ULT, a, b), mkConst(0, in->w), mkBin(K_SUB, a, b)); break; default: { Expr *t = mkBin(K_ADD, a, b); r = mkIte(mkBin(K_ULT, t, a), mkConst(maskw(in->w), in->w), t); } } s.regs[f->regBase + in->dst] = val(r); f->pc++; break; }
    case O_BITOP: { Expr *a = ex(R(s, *f, in->a), in->w), *r = nullptr; unsigned w = in->w; Expr *z = mkConst(0, w);
      switch (in->imm) { case Intrinsic::abs: r = mkIte(mkBin(K_SLT, a, z), mkBin(K_SUB, z, a), a); break;
      case Intrinsic::bswap: for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a, 8 * i, 8); r = r ? mkConcat(r, b) : b; } break;
      case Intrinsic::bitreverse: for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } break;
      case Intrinsic::ctpop: r = z; for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(a, i, 1), w)); break;
      case Intrinsic::ctlz: r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); break;
      default: r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); }
      s.regs[f->regBase + in->dst] = val(r); f->pc++; break; }
    case O_FSH: { Expr *a = ex(R(s, *f, in->a), in->w), *b = ex(R(s, *f, in->b), in->w), *c = ex(R(s, *f, in->c), in->w); unsigned w = in->w; c = mkBin(K_UREM, c, mkConst(w, w)); Expr *inv = mkBin(K_SUB, mkConst(w, w), c); Expr *r = in->imm ? mkIte(mkBin(K_EQ, c, mkConst(0, w)), a, mkBin(K_OR, mkBin(K_SHL, a, c), mkBin(K_LSHR, b, inv))) : mkIte(mkBin(K_EQ, c, mkConst(0, w)), b, mkBin(K_OR, mkBin(K_SHL, a, inv), mkBin(K_LSHR, b, c))); s.regs[f->regBase + in->dst] = val(r); f->pc++; break; }
    case O_NOP: f->pc++; break;
    case O_UNSUPPORTED: incomplete(s, "unsupported: " + *(std::string *)in->ext);
    default: incomplete(s, "bad op");
    }
  }
}
// ------------------------------------------------------------------ work distribution
static std::string jesc(const std::string &x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeResult() {
  std::string fn = optOut + "." + std::to_string(getpid()) + ".part"; FILE *o = fopen(fn.c_str(), "w"); if (!o) { perror("out"); _exit(3); }
  SolverStats &st = solver->st;
  fprintf(o, "{\"paths\":%" PRIu64 ",\"forks\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"asserts\":%" PRIu64 ",\"sym_asserts\":%" PRIu64 ",\"sym_branches\":%" PRIu64 ",\"infeasible\":%" PRIu64 ",\"incomplete\":%" PRIu64 ",\"why\":\"%s\",\"queries\":%" PRIu64 ",\"cache\":%" PRIu64 ",\"sat\":%" PRIu64 ",\"unsat\":%" PRIu64 ",\"unknown\":%" PRIu64 ",\"solver_s\":%.3f,\"max_query_s\":%.3f,\n", nPaths, nForks, nSteps, nAsserts, nAssertSym, nSymBranch, nInfeasible, nIncomplete, jesc(incompleteWhy).c_str(), st.queries, st.cacheHits, st.sat, st.unsat, st.unknown, st.secs, st.maxSecs);
  fprintf(o, "\"covers\":["); bool first = true; for (auto &c : covers) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
  fprintf(o, "],\"samples\":["); first = true; for (auto &c : samples) { fprintf(o, "%s%s", first ? "" : ",", c.c_str()); first = false; }
  fprintf(o, "],\"functions\":["); first = true; for (auto f : funcs) if (f->executed) { fprintf(o, "%s[\"%s\",\"%s\"]", first ? "" : ",", jesc(f->name).c_str(), jesc(f->file).c_str()); first = false; }
  fprintf(o, "],\"errors\":["); first = true;
  for (auto &e : errors) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":[", first ? "" : ",", jesc(e.kind).c_str(), jesc(e.msg).c_str(), jesc(e.loc).c_str()); first = false; for (size_t i = 0; i < e.stack.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(e.stack[i]).c_str());
    fprintf(o, "],\"notes\":["); for (size_t i = 0; i < e.notes.size(); i++) fprintf(o, "%s[\"%s\",%" PRIu64 "]", i ? "," : "", jesc(e.notes[i].first).c_str(), e.notes[i].second);
    fprintf(o, "],\"inputs\":["); for (size_t i = 0; i < e.in.size(); i++) fprintf(o, "%s[\"%s\",%d,%" PRIu64 ",%d]", i ? "," : "", jesc(std::get<0>(e.in[i])).c_str(), std::get<1>(e.in[i]), std::get<2>(e.in[i]), std::get<3>(e.in[i]) ? 1 : 0); fprintf(o, "]}"); }
  fprintf(o, "]}\n"); fclose(o);
}
static double lastSplit = 0;
static void resetStats() { nPaths = nForks = nSteps = nAsserts = nAssertSym = nInfeasible = nIncomplete = nSymBranch = 0; incompleteWhy.clear(); samples.clear(); errors.clear(); covers.clear(); solver->st = SolverStats(); }
static int depthProc = 0;
static void splitWork() {
  if (optJobs <= 1 || work.size() < 2 || sh->live >= optJobs) return;
  double t = now(); if (t - lastSplit < 0.02) return;
  int v = __sync_add_and_fetch(&sh->live, 1); if (v > optJobs) { __sync_sub_and_fetch(&sh->live, 1); return; }
  __sync_add_and_fetch(&sh->nproc, 1);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { __sync_sub_and_fetch(&sh->live, 1); __sync_sub_and_fetch(&sh->nproc, 1); lastSplit = t + 1; return; }
  lastSplit = now();
  // the child takes every other state of the work list (oldest first); the parent keeps the rest
  std::vector<State *> mine; bool child = p == 0;
  for (size_t i = 0; i < work.size(); i++) if ((i & 1) == (child ? 0u : 1u)) mine.push_back(work[i]); else delete work[i];
  work.swap(mine);
  if (child) { resetStats(); depthProc++; throw (int)1; }
}
static void loop(State *cur) {
  while (true) {
    if (cur) {
      S = cur; u64 st0 = cur->steps;
      try { runState(*cur); nPaths++; __sync_add_and_fetch(&sh->paths, 1);
        if ((nPaths & (nPaths - 1)) == 0 && samples.size() < 16) { std::string x = "["; for (size_t i = 0; i < cur->syms.size(); i++) { char b[40]; snprintf(b, 40, "\",%" PRIu64 "]", i < cur->m.size() ? cur->m[i] & maskw(cur->syms[i].w) : 0); if (!cur->syms[i].uninit) x += (x.size() > 1 ? ",[\"" : "[\"") + jesc(cur->syms[i].name) + b; } x += "]"; samples.push_back(x); }
      } catch (PathEnd &) { nPaths++; __sync_add_and_fetch(&sh->paths, 1); }
      catch (int) { /* new child: abandon the current state, it stays with the parent */ cur = nullptr; st0 = 0; S = nullptr; if (work.empty()) return; cur = work.back(); work.pop_back(); continue; }
      nSteps += cur->steps - st0; delete cur; cur = nullptr;
      if (sh->paths > optMaxPaths) { if (incompleteWhy.empty()) incompleteWhy = "path budget"; nIncomplete++; sh->stop = 1; }
    }
    if (!work.empty()) overTime();
    if (sh->stop) { if (!work.empty()) { nIncomplete += work.size(); if (incompleteWhy.empty()) incompleteWhy = "stopped early"; } return; }
    if (work.empty()) return;
    try { splitWork(); } catch (int) { if (work.empty()) return; }
    cur = work.back(); work.pop_back();
  }
}
static void selftest();
static void usage() { fprintf(stderr, "usage: symx [options] file.bc\n"); exit(2); }
int main(int argc, char **argv) {
  std::string file, entry = "main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nxt = [&]() { if (i + 1 >= argc) usage(); return std::string(argv[++i]); };
    if (a == "--jobs") optJobs = atoi(nxt().c_str()); else if (a == "--out") optOut = nxt(); else if (a == "--max-steps") optMaxSteps = strtoull(nxt().c_str(), 0, 0); else if (a == "--max-paths") optMaxPaths = strtoull(nxt().c_str(), 0, 0); else if (a == "--max-time") optMaxTime = atof(nxt().c_str()); else if (a == "--entry") entry = nxt(); else if (a == "--max-errors") optMaxErrors = atoi(nxt().c_str()); else if (a == "--no-uninit") optUninitErr = false; else if (a == "--max-depth") optMaxDepth = atoi(nxt().c_str()); else if (a == "-v") optVerbose = true; else if (a == "--selftest") { selftest(); return 0; } else if (a[0] == '-') usage(); else file = a; }
  if (file.empty()) usage();
  { rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : rl.rlim_max; if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); } } }
  tStart = now(); LLVMContext C; SMDiagnostic D; M = parseIRFile(file, D, C); if (!M) { D.print("symx", errs()); return 3; }
  DL = &M->getDataLayout(); locs.push_back(""); locIdx[""] = 0; exprTable.reserve(1 << 16);
  sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->live = 1; sh->paths = 0; sh->stop = 0; sh->nproc = 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  solver = new Solver;
  State *s = new State; s->capregs = 4096; s->regs = (Val *)malloc(s->capregs * sizeof(Val));
  newObj(*s, 0, OF_GLOBAL | OF_DEAD, 0, 0); // id 0 = null
  newObj(*s, 0, OF_GLOBAL | OF_DEAD, 0, 0); // id 1 = catch-all selector
  for (auto &F : *M) { if (F.isIntrinsic()) continue; u32 id = newObj(*s, 1, OF_FUNC, 0, 0); gaddr[&F] = (u64)id << 32; Func *f = getFunc(&F); f->addr = gaddr[&F]; funcByAddr[f->addr] = f; }
  for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; u32 id = newObj(*s, sz, OF_GLOBAL, 0, 0); gaddr[&G] = (u64)id << 32; }
  for (auto &G : M->globals()) if (G.hasInitializer()) {
    u64 base = gaddr[&G];
    std::function<void(const Constant *, u64)> init = [&](const Constant *c, u64 a) {
      Type *t = c->getType();
      if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
      if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = cd->getElementByteSize(); if (es == 1) { StringRef r = cd->getRawDataValues(); Obj *o = objW(*s, a >> 32); for (size_t i = 0; i < r.size(); i++) { u32 off = (u32)a + i; Page *p = pageW(o, off / PAGE); p->data[off % PAGE] = r[i]; } return; } for (u64 i = 0; i < cd->getNumElements(); i++) storeC(*s, a + i * es, es, es * 8, {constVal(cd->getElementAsConstant(i)), 0}); return; }
      if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) init(c->getAggregateElement(i), a + sl->getElementOffset(i)); return; }
      if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) init(c->getAggregateElement(i), a + i * es); return; }
      unsigned w = width1(t); unsigned nb = DL->getTypeStoreSize(t); if (w > 64) return; storeC(*s, a, nb, w, {constVal(c), 0}); };
    init(G.getInitializer(), base); }
  for (auto &G : M->globals()) if (G.isConstant() && G.hasInitializer()) objW(*s, gaddr[&G] >> 32)->flags |= OF_CONST;
  // static constructors are run first
  std::vector<Func *> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto *f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1)->stripPointerCasts()); if (f) ctors.push_back(getFunc(f)); }
  Function *EF = M->getFunction(entry); if (!EF) { fprintf(stderr, "no %s\n", entry.c_str()); return 3; }
  bool bad = false;
  for (Func *f : ctors) { enter(*s, f, nullptr, {}, {}); try { runState(*s); } catch (PathEnd &) { bad = true; break; } }
  if (!bad) { enter(*s, getFunc(EF), nullptr, {{0, 0}, {0, 0}}, {}); loop(s); }
  // this process is done
  writeResult();
  __sync_sub_and_fetch(&sh->live, 1);
  if (depthProc > 0) _exit(0);
  int status, rc = 0; while (true) { pid_t p = wait(&status); if (p < 0) break; if (!WIFEXITED(status) || WEXITSTATUS(status)) { fprintf(stderr, "symx: worker died (status %x)\n", status); rc = 4; } }
  fflush(stdout); _exit(rc);
}
// random cross-check of the simplifying constructors and of the Z3 translation
static u64 rnd() { static u64 x = 88172645463325252ull; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static void selftest() {
  solver = new Solver; std::vector<Expr *> pool[65]; unsigned ws[] = {1, 8, 16, 32, 64}; Model m(6);
  for (u32 i = 0; i < 4; i++) pool[8].push_back(mkSym(i, 8, false)); pool[32].push_back(mkSym(4, 32, false)); pool[64].push_back(mkSym(5, 64, false)); pool[1].push_back(mkBin(K_EQ, pool[8][0], pool[8][1])); pool[16].push_back(mkZext(pool[8][2], 16));
  struct Rec { Expr *e; std::function<u64(const Model &)> ref; }; std::map<Expr *, std::function<u64()>> dummy; long n = 0, bad = 0;
  for (int it = 0; it < 400000; it++) { unsigned w = ws[rnd() % 5]; auto pick = [&](unsigned w) -> Expr * { if (rnd() % 4 == 0) return mkConst(rnd() % 3 ? rnd() % 300 : rnd(), w); return pool[w][rnd() % pool[w].size()]; };
    Expr *r = nullptr; std::function<u64()> ref; int op = rnd() % 24; static Model cur(6); auto V = [&](Expr *e) { return evalExpr(e, cur); };
    Expr *a = pick(w), *b = pick(w), *c = pick(1); unsigned w2 = ws[rnd() % 5];
    if (op < 18) { Kind k = (Kind)(K_ADD + op % 18); if (k == K_ITE) continue; if (k > K_SLE) continue; if ((k >= K_UDIV && k <= K_SREM) && isC(b) && !b->c) continue; r = mkBin(k, a, b); ref = [=]() { return foldBin(k, evalExpr(a, cur), evalExpr(b, cur), w); }; }
    else if (op == 18) { r = mkIte(c, a, b); ref = [=]() { return evalExpr(c, cur) ? evalExpr(a, cur) : evalExpr(b, cur); }; }
    else if (op == 19) { if (w2 < w) continue; r = mkZext(a, w2); ref = [=]() { return evalExpr(a, cur); }; }
    else if (op == 20) { if (w2 < w) continue; r = mkSext(a, w2); ref = [=]() { return (u64)sxt(evalExpr(a, cur), w) & maskw(w2); }; }
    else if (op == 21) { if (w2 > w) continue; unsigned lo = rnd() % (w - w2 + 1); r = mkExtract(a, lo, w2); ref = [=]() { return (evalExpr(a, cur) >> lo) & maskw(w2); }; }
    else if (op == 22) { if (w > 32) continue; if (w != 8 && w != 16 && w != 32) continue; r = mkConcat(a, b); ref = [=]() { return (evalExpr(a, cur) << w) | evalExpr(b, cur); }; }
    else { r = mkNot1(c); ref = [=]() { return !evalExpr(c, cur); }; }
    for (int t = 0; t < 4; t++) { for (auto &x : cur) x = rnd() % 3 ? rnd() : rnd() % 4; newEpoch(); u64 x = evalExpr(r, cur); newEpoch(); u64 y = ref(); n++; if (x != y) { if (bad++ < 10) printf("MISMATCH op %d w %u: %llx vs %llx\n", op, w, (unsigned long long)x, (unsigned long long)y); } u64 lo, hi, st; rangeOf(r, lo, hi, st); if (x < lo || x > hi || (st && (x - lo) % st)) { if (bad++ < 10) printf("RANGE op %d w %u\n", op, w); } }
    if (r->size < 60 && pool[r->w].size() < 400) pool[r->w].push_back(r); else if (r->size < 60) pool[r->w][rnd() % pool[r->w].size()] = r;
    if (it % 2000 == 0) { newEpoch(); for (auto &x : cur) x = rnd(); newEpoch(); u64 v = evalExpr(r, cur); std::vector<Expr *> pc; for (u32 i = 0; i < 6; i++) { unsigned sw = i < 4 ? 8 : i == 4 ? 32 : 64; pc.push_back(mkBin(K_EQ, mkSym(i, sw, false), mkConst(cur[i], sw))); } Model mm = cur; Expr *q = mkNot1(mkBin(K_EQ, r, mkConst(v, r->w))); SatRes res = solver->check(pc, q, mm); n++; if (res != UNSAT && !isC(r)) { if (bad++ < 10) printf("Z3 disagrees (%d)\n", res); } } }
  printf("selftest: %ld checks, %ld bad\n", n, bad); if (bad) exit(1);
}
