// Z3-backed decision of path conditions.
#pragma once
#include "expr.h"

enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats {
    uint64_t queries = 0;      // solver calls (z3)
    uint64_t cacheHits = 0;    // answered from an identical earlier query
    uint64_t modelHits = 0;    // answered SAT by re-evaluating an earlier model
    uint64_t domain = 0;       // decided over the exact domains of the byte-sized inputs involved
    uint64_t audits = 0;       // such decisions confirmed by z3
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double seconds = 0, maxSeconds = 0;
};
extern SolverStats g_sstats;
extern unsigned g_auditEvery; // z3 confirms one in so many finite-domain decisions
void solverInit();
// Is conj(cs) && extra satisfiable? `base` satisfies cs (not necessarily extra). On SAT `out` = base with the
// variables of the slice that matters overwritten.
SatRes solverCheck(const std::vector<E> &cs, E extra, const Model &base, Model &out);
