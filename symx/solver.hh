#pragma once
#include "expr.hh"
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; uint64_t asserts = 0, selfchecks = 0, canonical = 0, merged = 0, proofs = 0, iso = 0; };
extern SolverStats g_ss;
extern unsigned g_timeoutMs;      // per query
extern std::string g_dumpDir;     // when set, every assertion query is written there as SMT-LIB2
void solverInit();
Model newModel(const Model &base);
// is conj(pc) & q satisfiable?  base satisfies pc; on SAT *out receives a model of pc & q.
Res checkSat(const std::vector<V> &pc, V q, const Model &base, Model *out, bool isAssert = false);
void evalForget();
