#pragma once
#include "expr.h"
struct SolverStats { u64 queries, sat, unsat, unknown, domain; double secs; };
extern SolverStats gStats;
enum class Res { Sat, Unsat, Unknown };
// Decides satisfiability of the conjunction; on Sat fills `m` for the symbols involved.
// `branch`: a path-feasibility question; those over one symbolic byte are decided by its 256-value domain.
Res solve(const std::vector<E> &cs, Model &m, bool branch);
extern unsigned gQueryMs;
void solverInit(unsigned rlimit);
