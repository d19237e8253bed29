#pragma once
#include "expr.h"
#include <utility>
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 z3_queries = 0, z3_sat = 0, z3_unsat = 0, cache_hits = 0, table = 0, model_hits = 0, crosschecks = 0; double z3_time = 0; };
extern SolverStats g_ss;
// Check satisfiability of the conjunction.  On SAT, fills model for the
// variables mentioned.
Res z3check(const std::vector<Expr *> &cons, std::vector<std::pair<u32, u64>> *model);
void z3init();
extern bool g_solver_broken;  // z3 said unknown somewhere
