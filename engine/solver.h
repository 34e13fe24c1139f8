// z3 back end: slicing, query cache, model cache.
#pragma once
#include "expr.h"
enum SolveRes { UNSAT, SAT, UNKNOWN };
struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, evalHits = 0, slow = 0; double time = 0, maxq = 0;
};
extern SolverStats g_ss_stats;
extern unsigned g_timeoutMs;      // per query
void solverInit();
// pc is assumed satisfiable (by *cur when given); decide pc && q.
// On SAT *out is a model of all of pc && q.
SolveRes solve(const std::vector<E> &pc, E q, const ModelP &cur, ModelP *out);
ModelP newModel();
// raw: decide the conjunction, no slicing, given timeout
SolveRes solveRaw(const std::vector<E> &cs, std::vector<std::pair<u32,u64>> *asg, unsigned timeoutMs);
