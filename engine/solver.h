#pragma once
#include "expr.h"
struct Dom { u64 b[4]; bool get(unsigned i)const{return b[i>>6]>>(i&63)&1;} };
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cached=0, quick=0; double time=0, maxTime=0; };
extern SolverStats g_ss; extern unsigned g_qtimeout; // ms
enum R { SAT, UNSAT, UNKNOWN };
// decide conjunction; on SAT fills assignment for the vars occurring
R z3check(const std::vector<Ex*>&cons, std::vector<std::pair<u32,u8>>&asg);
extern FILE* g_dump;
