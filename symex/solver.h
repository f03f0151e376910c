#pragma once
#include "expr.h"
#include <memory>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, oneshot = 0, asserts_proved = 0;
  double time = 0, maxq = 0;
};
extern SolverStats g_ss;
extern int g_qtimeout;   // ms per query
extern bool g_oneshotFirst;
struct Solver;
Solver* newSolver();
// is pc /\ extra satisfiable?  If so and m != null, *m gets a model.
// base, when given, is an assignment satisfying pc: independent constraints are
// then left out of the query and their values taken from base.
Res solve(Solver*, const std::vector<E>& pc, E extra, Assign* m, const Assign* base = nullptr);
// dump as SMT-LIB (for cross-checking with another solver)
std::string dumpSmt2(Solver*, const std::vector<E>& pc, E extra);
