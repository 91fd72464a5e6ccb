PRE=open("/verif/tools/seeds/pre.txt").read()
OLD='''    if (eq_mat.rows() != 0)
    {
      B_Nprev_ = eq_mat * Nprev_;
      RtQuadraticUtils::addFromNorm(qp_solver_interface_.objectiveQuadPart().topLeftCorner(dim_z, dim_z),
                                    qp_solver_interface_.objectiveLinPart().topRows(dim_z), B_Nprev_,
                                    eq_vec + eq_mat * xopt_);
    }
'''
NOT='''
    // notify problem2svd_converter that it can proceed
    is_svd_computed_ = false;
    problem2svd_converter_.broadcast();
    mutex_.unlock();

'''
S=dict(id="hqp-svd-race", property="P15", edits=[("solver/include/solver/rt_optimizer/RtHQPSolver.h",OLD+NOT,NOT.lstrip("\n")+OLD)],
 needs="the singular-value thread running between being woken and the main thread's next statement", what="the singular-value thread is started before the projected equality matrix of the rank is stored, so it may compute the null space of the previous rank and lower priorities then disturb higher ones",
 demo_cpp='''#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <yaml-cpp/yaml.h>
static pthread_t mainThread; static bool slow = false;
static int slow_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); if (slow && pthread_equal(pthread_self(), mainThread)) usleep(20000); return r; }
#include <solver/interface/Solver.hpp>
#undef RTEIG_NO_ASSERTS
using namespace rt_solver; using namespace solver;
int main() { mainThread = pthread_self(); YAML::Node par; RtModel<10, 10, 4> m(par); m.clean();
  m.addLinConstr(m.getVar(0) + m.getVar(1), "=", 2.0, 0); m.addLinConstr(m.getVar(0), "=", 5.0, 1); m.addLinConstr(m.getVar(1), "=", 7.0, 2); m.addLinConstr(m.getVar(2), "=", 1.0, 2);
  m.initialize(); usleep(20000); slow = true; m.solve(); slow = false; auto x = m.hqp_solver_.solution(); std::printf("%g %g %g\\n", x[0], x[1], x[2]);
  if (std::fabs(x[0] + x[1] - 2) > 1e-3 || std::fabs(x[0] - 5) > 1e-2) { std::printf("FAIL a lower priority disturbed a higher one\\n"); return 1; } return 0; }
''', demo_sh='''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/solver/rt_optimizer"; sed 's/pthread_mutex_unlock(/slow_unlock(/g' solver/include/solver/rt_optimizer/RtMutex.hpp > "$T/inc/solver/rt_optimizer/RtMutex.hpp"
g++ -std=c++17 -O1 -w -DNDEBUG -I"$T/inc" -Isolver/include -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L_build -lsolver -lyaml-cpp -lboost_thread -lboost_system -lpthread -Wl,-rpath,"$PWD/_build" || exit 3
cd "$T" && timeout 60 ./demo
''')
