YU='''#pragma once
#include <iomanip>
#include <stdexcept>
#include <string>
#include <Eigen/Dense>
#include <yaml-cpp/yaml.h>
namespace YAML {
  template <typename S, int R, int C, int O, int MR, int MC> struct convert<Eigen::Matrix<S, R, C, O, MR, MC>> {
    static Node encode(const Eigen::Matrix<S, R, C, O, MR, MC>& m) { Node n; for (int i = 0; i < m.rows(); i++) { if (m.cols() == 1) { n.push_back(m(i, 0)); continue; } Node r; for (int j = 0; j < m.cols(); j++) r.push_back(m(i, j)); n.push_back(r); } return n; }
    static bool decode(const Node& n, Eigen::Matrix<S, R, C, O, MR, MC>& m) {
      if (!n.IsSequence()) return false;
      bool nested = n.size() > 0 && n[0].IsSequence(); int r = n.size(), c = nested ? (int)n[0].size() : 1;
      if (!nested && R == 1) { c = r; r = 1; }
      m.resize(r, c);
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = nested ? n[i][j].template as<S>() : n[r == 1 ? j : i].template as<S>();
      return true;
    }
  };
  template <typename T> inline T ReadParameter(const Node& n, const std::string& name) { const Node c = n[name]; if (!c) throw std::runtime_error("cannot read parameter " + name); return c.as<T>(); }
  template <typename T> inline void ReadParameter(const Node& n, const std::string& name, T& out, bool optional = false) { const Node c = n[name]; if (!c) { if (optional) return; throw std::runtime_error("cannot read parameter " + name); } out = c.as<T>(); }
}
'''
FILES={"yaml_utils/yaml_eigen.hpp":YU,"yaml_utils/yaml_cpp_fwd.hpp":"#pragma once\n#include <yaml_utils/yaml_eigen.hpp>\n"}
SH='''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
for f in SolverLqr ForwardPass BackwardPass FiniteDifferences OcpDescription SolverLqrSetting LqrInfoPrinter; do
  g++ -std=c++17 -O0 -w '-DCFG_PATH=""' -I"$D" -Isolver/include -Isolver_lqr/include -I/usr/include/eigen3 -c solver_lqr/src/solver_lqr/$f.cpp -o "$T/$f.o" & done; wait
g++ -std=c++17 -O0 -w '-DCFG_PATH=""' -I"$D" -Isolver/include -Isolver_lqr/include -I/usr/include/eigen3 "$D/demo.cpp" "$T"/*.o -o "$T/demo" -L_build -lsolver -lyaml-cpp -Wl,-rpath,"$PWD/_build" || exit 3
cp solver_lqr/config/default_solver_env.yaml "$T"; cd "$T" && timeout 60 ./demo
'''
PRE='''#include <algorithm>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <solver_lqr/SolverLqr.hpp>
#undef private
#undef protected
using namespace solverlqr; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static void fail(const char* w) { std::printf("FAIL %s\\n", w); std::exit(1); }
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a) + std::fabs(b)); }
struct Ocp : OcpBase {   // x' = x + a x + b u (+ c x^3), cost = q x^2 + r u^2 + s x u; terminal p x^2 + w sum(u)
  double a = 0, b = 1, c = 0, q = 1, r = 1, s = 0, p = 1, w = 0;
  void configure(const YAML::Node&) override {}
  StateBase dynamics(const StateBase& x, const ControlBase& u, int t) override { StateBase n(xdim()); for (int i = 0; i < xdim(); i++) { double v = x.stateVector()[i]; n.stateVector()[i] = a * v + b * u.feedforward()[i % udim()] + c * v * v * v; } return n; }
  double objective(const StateBase& x, const ControlBase& u, int t, bool fin) override { double xx = x.stateVector().squaredNorm(); return fin ? p * xx + w * u.feedforward().sum() : q * xx + r * u.feedforward().squaredNorm() + s * x.stateVector()[0] * u.feedforward()[0]; }
};
static void set(SolverLqrSetting& s, int T, int nx, int nu) {
  s.verbosity_ = 0; s.lqr_max_iters_ = 20; s.precision_digits_ = 5; s.bpass_regularization_type_ = 1; s.time_dimension_ = T; s.state_dimension_ = nx; s.control_dimension_ = nu; s.time_step_ = 0.1; s.use_runge_kutta_integration_ = false; s.has_control_limits_ = false; s.divergence_limit_check_ = 1e6; s.store_data_ = false;
  s.cost_change_tolerance_ = 1e-9; s.control_gradient_tolerance_ = 1e-9; s.bpass_min_regularization_ = 1e-6; s.bpass_max_regularization_ = 1e10; s.bpass_initial_regularization_ = 0; s.bpass_mult_regularization_incr_ = 1.6; s.bpass_initial_mult_regularization_incr_ = 1; s.min_expected_cost_improvement_ = 0; s.alpha_.resize(4); s.alpha_ << 1, 0.5, 0.2, 0.05;
}
'''
