#include <unistd.h>
#include "solver.h"
#include <algorithm>
#include <chrono>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  s = getenv("SYMX_SATSOLVER") ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
  Z3_solver_set_params(ctx, s, p);
}
static Z3_ast b2bv(Z3_context c, Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))); }
static Z3_ast bv2b(Z3_context c, Z3_ast v) { return Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); }
Z3_ast Solver::tr(Expr *e) {
  if (e->z) return e->z;
  auto bvs = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  Z3_ast r = 0;
  Z3_ast a = e->a ? tr(e->a) : 0, b = e->b ? tr(e->b) : 0, d = e->d ? tr(e->d) : 0;
  auto fs = [&](unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx); };
  auto tofp = [&](Z3_ast x, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, x, fs(w)); };
  switch (e->k) {
  case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, bvs(e->w)); break;
  case K_SYM: {
    char nm[32]; snprintf(nm, 32, "v%u_%u", (unsigned)e->c, e->w);
    Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), 0, 0, bvs(e->w));
    if (symDecl.size() <= e->c) { symDecl.resize(e->c + 1); symW.resize(e->c + 1); }
    Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f));
    r = Z3_mk_app(ctx, f, 0, 0); break; }
  case K_ADD: r = Z3_mk_bvadd(ctx, a, b); break; case K_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
  case K_MUL: r = Z3_mk_bvmul(ctx, a, b); break; case K_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
  case K_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break; case K_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
  case K_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
  case K_AND: r = Z3_mk_bvand(ctx, a, b); break; case K_OR: r = Z3_mk_bvor(ctx, a, b); break;
  case K_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
  case K_SHL: r = Z3_mk_bvshl(ctx, a, b); break; case K_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break; case K_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
  case K_EQ: r = b2bv(ctx, Z3_mk_eq(ctx, a, b)); break;
  case K_ULT: r = b2bv(ctx, Z3_mk_bvult(ctx, a, b)); break; case K_ULE: r = b2bv(ctx, Z3_mk_bvule(ctx, a, b)); break;
  case K_SLT: r = b2bv(ctx, Z3_mk_bvslt(ctx, a, b)); break; case K_SLE: r = b2bv(ctx, Z3_mk_bvsle(ctx, a, b)); break;
  case K_ITE: r = Z3_mk_ite(ctx, bv2b(ctx, a), b, d); break;
  case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, a); break;
  case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, a); break;
  case K_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, a); break;
  case K_CONCAT: r = Z3_mk_concat(ctx, a, b); break;
  default: {
    Z3_ast rm = Z3_mk_fpa_rne(ctx); unsigned wa = e->a->w;
    switch (e->k) {
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, tofp(a, wa), tofp(b, wa))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, tofp(a, wa), tofp(b, wa))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, tofp(a, wa), tofp(b, wa))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, tofp(a, wa), tofp(b, wa))); break;
    case K_FEQ: r = b2bv(ctx, Z3_mk_fpa_eq(ctx, tofp(a, wa), tofp(b, wa))); break;
    case K_FLT: r = b2bv(ctx, Z3_mk_fpa_lt(ctx, tofp(a, wa), tofp(b, wa))); break;
    case K_FLE: r = b2bv(ctx, Z3_mk_fpa_leq(ctx, tofp(a, wa), tofp(b, wa))); break;
    case K_FUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, tofp(a, wa)), Z3_mk_fpa_is_nan(ctx, tofp(b, wa))}; r = b2bv(ctx, Z3_mk_or(ctx, 2, o)); break; }
    case K_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, a, fs(e->w))); break;
    case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, fs(e->w))); break;
    case K_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), tofp(a, wa), e->w); break;
    case K_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), tofp(a, wa), e->w); break;
    case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, tofp(a, wa), fs(e->w))); break;
    default: abort();
    } }
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}
static void collectSyms(Expr *e, std::vector<Expr *> &out, std::unordered_map<Expr *, bool> &seen) {
  if (!(e->vm[0] | e->vm[1])) return;
  if (seen.count(e)) return; seen[e] = true;
  if (e->k == K_SYM) { out.push_back(e); return; }
  for (Expr *x : {e->a, e->b, e->d}) if (x) collectSyms(x, out, seen);
}
SatRes Solver::check(const std::vector<Expr *> &pc, Expr *q, Model &m, bool wantModel) {
  if (isC(q)) { if (!q->c) return UNSAT; }
  // independence slice
  static thread_local std::vector<Expr *> slice; slice.clear();
  u64 vm0 = q->vm[0], vm1 = q->vm[1];
  static thread_local std::vector<u8> used; used.assign(pc.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && ((pc[i]->vm[0] & vm0) | (pc[i]->vm[1] & vm1))) { used[i] = 1; vm0 |= pc[i]->vm[0]; vm1 |= pc[i]->vm[1]; ch = true; } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) slice.push_back(pc[i]);
  std::vector<u32> key; key.reserve(slice.size() + 1);
  for (Expr *e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(q->id);
  u64 h = 1469598103934665603ull; for (u32 k : key) { h ^= k; h *= 1099511628211ull; h ^= h >> 29; }
  auto &bucket = cache[h];
  for (auto &kv : bucket) if (kv.first == key) {
    st.cacheHits++;
    if (kv.second.first == SAT && wantModel) for (auto &p : kv.second.second) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    return (SatRes)kv.second.first;
  }
  double t0 = now();
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  // many coupled constraints: the SAT-based bit-vector solver; few: the SMT core, which starts faster
  Z3_solver s0 = s; bool inc = slice.size() >= incMin;
  if (inc) {
    if (!si) { si = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, si); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit); Z3_solver_set_params(ctx, si, p); }
    s = si; Z3_solver_push(ctx, s);
    for (Expr *e : slice) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), one));
  } else {
    Z3_solver_push(ctx, s);
    for (Expr *e : slice) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), one));
  }
  struct Restore { Solver *o; Z3_solver s0; ~Restore() { o->s = s0; } } restore{this, s0};
  Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(q), one));
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (r == Z3_L_UNDEF) {   // second attempt with the bit-vector tactic solver
    Z3_solver s2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s2);
    for (Expr *e : slice) Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(e), one));
    Z3_solver_assert(ctx, s2, Z3_mk_eq(ctx, tr(q), one));
    r = Z3_solver_check(ctx, s2);
    if (r == Z3_L_UNDEF) { Z3_solver_dec_ref(ctx, s2); }
    else { Z3_solver_pop(ctx, s, 1); Z3_solver_push(ctx, s); std::swap(s, s2); /* read model from s2 below */
      // keep s2 as current for model extraction, restore afterwards
      std::vector<std::pair<u32, u64>> asg;
      if (r == Z3_L_TRUE) { Z3_model mo = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mo); std::vector<Expr *> syms; std::unordered_map<Expr *, bool> seen; for (Expr *e : slice) collectSyms(e, syms, seen); collectSyms(q, syms, seen);
        for (Expr *y : syms) { Z3_ast v; u64 val = 0; if (Z3_model_eval(ctx, mo, tr(y), true, &v)) { uint64_t t; if (Z3_get_numeral_uint64(ctx, v, &t)) val = t; } asg.push_back({(u32)y->c, val}); }
        Z3_model_dec_ref(ctx, mo); }
      Z3_solver_dec_ref(ctx, s); s = s2; Z3_solver_pop(ctx, s, 1);
      double dt = now() - t0; st.secs += dt; st.queries++; if (dt > st.maxSecs) st.maxSecs = dt;
      SatRes res = r == Z3_L_TRUE ? SAT : UNSAT; if (res == SAT) st.sat++; else st.unsat++;
      bucket.push_back({key, {res, asg}});
      for (auto &p : asg) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
      return res; }
  }
  SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  std::vector<std::pair<u32, u64>> asg;
  if (res == SAT) {
    Z3_model mo = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mo);
    std::vector<Expr *> syms; std::unordered_map<Expr *, bool> seen;
    for (Expr *e : slice) collectSyms(e, syms, seen);
    collectSyms(q, syms, seen);
    for (Expr *y : syms) { Z3_ast v; u64 val = 0;
      if (Z3_model_eval(ctx, mo, tr(y), true, &v)) { uint64_t t; if (Z3_get_numeral_uint64(ctx, v, &t)) val = t; }
      asg.push_back({(u32)y->c, val}); }
    Z3_model_dec_ref(ctx, mo);
  }
  Z3_solver_pop(ctx, s, 1);
  double dt = now() - t0;
  st.secs += dt; st.queries++; if (dt > st.maxSecs) st.maxSecs = dt;
  if (res == SAT) st.sat++; else if (res == UNSAT) st.unsat++; else st.unknown++;
  if (res != UNKNOWN) bucket.push_back({std::move(key), {res, asg}});
  for (auto &p : asg) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
  return res;
}
