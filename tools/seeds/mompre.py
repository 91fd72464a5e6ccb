exec(open("/verif/tools/seeds/lqrpre.py").read())
def sh(srcs, extra=""):
    return '''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O0 -w -DCFG_PATH=\\"\\" -DCFG_SRC_PATH=std::string(\\"./\\") -I$D -Isolver/include -Isolver_lqr/include -Imomentumopt/include -I/usr/include/eigen3"
for f in %s; do g++ $F -c $f.cpp -o "$T/$(basename $f).o" & done; g++ $F -c "$D/demo.cpp" -o "$T/demo.o" & wait
g++ "$T"/*.o -o "$T/demo" -L_build -lsolver -lyaml-cpp -Wl,-rpath,"$PWD/_build" || exit 3
cp solver_lqr/config/default_solver_env.yaml momentumopt/config/*.yaml "$T"; cp solver/tests/yaml_config_files/default_stgs.yaml "$T"; %s
cd "$T" && timeout 100 ./demo
''' % (" ".join(srcs), extra)
MS="momentumopt/src/momentumopt/"
CNT=[MS+x for x in ["cntopt/ContactPlanInterface","cntopt/ContactPlanFromFile","cntopt/ContactState","cntopt/TerrainDescription","dynopt/DynamicsState","setting/PlannerSetting","utilities/TrajectoryGenerator","utilities/OrientationUtils"]]
HEAD='''#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <yaml-cpp/yaml.h>
static void fail(const char* w) { std::printf("FAIL %s\\n", w); std::exit(1); }
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
#define private public
#define protected public
'''
END='''
#undef private
#undef protected
using namespace momentumopt; typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
'''
KIN=[MS+"kinopt/KinematicsState"]
DYN=CNT+KIN+[MS+"dynopt/DynamicsOptimizer"]
DH=HEAD+'''#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>'''+END+'''
struct Plan : ContactPlanFromFile { void add(int e, double a, double b, V3 pos, Q o) { ContactState c; c.time_ini_ = a; c.time_end_ = b; c.position_ = pos; c.orientation_ = o.normalized(); c.contact_type_ = ContactType::FlatContact; c.selected_as_active_ = true; contactSequence().endeffectorContacts(e).push_back(c); } };
struct Run { PlannerSetting s; Plan p; DynamicsState ini; KinematicsSequence k; DynamicsOptimizer o; int T;
  Run(int steps, YAML::Node extra) : T(steps) { YAML::Node n = YAML::LoadFile("cfg_biped.yaml"); YAML::Node v = n["planner_variables"]; v["time_step"] = 0.1; v["time_horizon"] = 0.1 * steps + 0.05; v["use_default_solver_setting"] = true; v["store_data"] = false; v["min_rel_height"] = 0.1; for (auto i : extra) v[i.first.as<std::string>()] = i.second; { std::ofstream f("mine.yaml"); f << n; } s.initialize("mine.yaml"); if (s.get(PlannerIntParam_NumTimesteps) != T) fail("setup"); p.initialize(s); k.resize(T, 0); ini.centerOfMass() = V3(0, 0, 0.8); ini.linearMomentum().setZero(); ini.angularMomentum().setZero(); for (int e = 0; e < 4; e++) { ini.endeffectorForce(e).setZero(); ini.endeffectorActivation(e) = false; ini.endeffectorPosition(e).setZero(); } }
  void go() { std::cout.setstate(std::ios::failbit); o.initialize(s); o.model_.getSetting().set(solver::SolverBoolParam_Verbose, false); o.optimize(ini, &p, k, false); } DynamicsState& st(int t) { return o.dynamicsSequence().dynamicsState(t); } };
'''
