// Lowering of expressions to Z3 and query pipeline.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
enum class Res { Unsat, Sat, Unk };
struct Model { std::unordered_map<uint32_t,mpq_class> r; std::unordered_map<uint32_t,uint64_t> v; };
struct SmtStats { uint64_t queries=0,sat=0,unsat=0,unk=0,cached=0,trivial=0; double secs=0; };
extern SmtStats SS;
Res smtCheck(const std::vector<Expr*>& cs, Model* m, double tmo);
double nowS();
extern double gDeadline;
extern void (*gHardTimeout)();
extern std::string gDumpDir;
extern double gSlow;
