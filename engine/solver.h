// Z3 back end: satisfiability of a conjunction of expressions, with independence slicing done by the caller.
#pragma once
#include "expr.h"

struct SolverStats { u64 queries, sat, unsat, cacheHits, unknown, fallback; double time, maxTime; };
extern SolverStats g_solver;

enum SolveResult { SUnsat = 0, SSat = 1, SUnknown = 2 };

// Decide the conjunction. On SSat fill in (var id, value) for the variables of the conjunction.
SolveResult solve(std::vector<Expr *> conj, std::vector<std::pair<uint32_t, u64>> &model);
