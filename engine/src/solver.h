// Constraint solving on top of Z3 with independence slicing and caching.
#pragma once
#include "expr.h"

enum class Sat { No, Yes, Unknown };

struct SolverStats {
	uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, fresh = 0;
	double z3time = 0, maxQuery = 0;
};
extern SolverStats g_sstats;

// Is (cs && cond) satisfiable? On Yes the model m (which satisfied cs on entry) is updated to satisfy both.
Sat solverCheck(const std::vector<E>& cs, E cond, Assign& m, const std::vector<char>* fixed = nullptr);
void solverReset();         // drop contexts (after fork)
extern unsigned g_solverMs; // soft limit used to size the rlimit of a fallback query
