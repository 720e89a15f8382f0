#pragma once
#include <memory>
#include "expr.h"

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, trivial = 0, interval = 0;
  double time = 0, maxq = 0;
  uint64_t crosschecked = 0, crossDisagree = 0;
};
extern SolverStats g_ss;
extern int g_queryTimeoutMs;
extern int g_crossEvery;         // cross-check every n-th query with a second configuration
extern const char* g_dumpDir;    // dump SMT-LIB of sampled queries here (thorough tier)

// Is the conjunction satisfiable?  On Sat, fills values for the symbols involved.
Res solveConj(const std::vector<E>& cs, E extra, std::unordered_map<uint32_t, u128>& out);
