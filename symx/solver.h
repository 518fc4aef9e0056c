// Z3 back end: satisfiability of (slice of path condition) AND query.
#pragma once
#include "expr.h"
#include <functional>
#include <cstdlib>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0; double secs = 0, maxSecs = 0; };
struct Solver {
  Z3_context ctx; Z3_solver s; SolverStats st;
  std::vector<Z3_func_decl> symDecl; std::vector<unsigned> symW;
  std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, std::pair<int, std::vector<std::pair<u32, u64>>>>>> cache;
  Solver();
  // returns SAT/UNSAT/UNKNOWN; on SAT `m` (a model of `pc` on entry) is updated to satisfy pc AND q
  SatRes check(const std::vector<Expr *> &pc, Expr *q, Model &m, bool wantModel = true);
  Z3_ast tr(Expr *e);
  unsigned rlimit = 400000000u;
  Z3_solver si = nullptr; size_t incMin = getenv("SYMX_INC") ? atoi(getenv("SYMX_INC")) : 8; // SAT-based solver for long slices
};
