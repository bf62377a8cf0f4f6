#pragma once
#include "expr.h"
enum Res { R_UNSAT=0, R_SAT=1, R_UNKNOWN=2 };
struct SolverStats { u64 queries=0, cachehits=0, z3=0, fpq=0, fpabs=0, unknown=0; double time=0, fptime=0; double maxq=0; };
extern SolverStats sst;
extern double g_qtimeout; // seconds
extern bool g_fpint;
extern bool g_lazyfp; // IEEE terms stay opaque; a model that evaluation rejects counts as no answer
// is (pc /\ c) satisfiable? model: in = a model of pc (may be reused for independent parts), out = model of pc /\ c
Res solve(const std::vector<Expr*>& pc, Expr* c, std::vector<u128>& model);
void solverAfterFork();
double nowsec();
