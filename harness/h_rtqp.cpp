// Dense active-set QP solver of the real-time optimizer: optimality of the returned point, answers on infeasible problems.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <solver/rt_optimizer/RtQPSolver.hpp>
#undef private
#undef protected
using namespace rt_solver;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static double B = 100;
static V symv(const char* p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real_in(nm(p, i).c_str(), -B, B); return v; }
// some subset S of tight inequalities together with the equalities carries the gradient with multipliers of the right sign
static bool stationary(const M& H, const V& g, const M& CE, const M& CI, const V& ci, const V& x, double tol) {
  int n = H.rows(), p = CE.rows(), m = CI.rows(); bool any = false; V gr = H * x + g, sl = m ? V(CI * x + ci) : V(0);
  std::vector<char> tight(m); for (int i = 0; i < m; i++) tight[i] = sx_branch(sl[i] >= -tol);   // one case per set of tight rows
  for (int S = 0; S < (1 << m); S++) {
    std::vector<int> id; for (int i = 0; i < m; i++) if (S >> i & 1) id.push_back(i); bool skip = false; for (int i : id) skip |= !tight[i]; if (skip) continue; int k = p + id.size(); if (k > n) continue;
    M A(k, n); for (int i = 0; i < p; i++) A.row(i) = CE.row(i); for (size_t i = 0; i < id.size(); i++) A.row(p + i) = CI.row(id[i]);
    bool ok = true; V res = gr;
    if (k) {
      // orthogonal projection on the rows, Gram matrix inverted by elimination; dependent subsets are skipped
      M G = A * A.transpose(), W = M::Identity(k, k); bool dep = false;
      for (int c = 0; c < k && !dep; c++) { if (G(c, c) < 1e-9 * (1 + A.row(c).squaredNorm())) { dep = true; break; } double d = G(c, c); for (int j = 0; j < k; j++) { G(c, j) /= d; W(c, j) /= d; }
        for (int r = 0; r < k; r++) if (r != c) { double f = G(r, c); for (int j = 0; j < k; j++) { G(r, j) -= f * G(c, j); W(r, j) -= f * W(c, j); } } }
      if (dep) continue;
      M P = W * A; V lam(k); for (int i = 0; i < k; i++) { double s = 0; for (int j = 0; j < n; j++) s -= P(i, j) * gr[j]; lam[i] = s; }
      for (int i = 0; i < k; i++) res += A.row(i).transpose() * lam[i];
      for (int i = p; i < k; i++) { ok = sx_and(ok, lam[i] >= -tol); }
    }
    for (int i = 0; i < n; i++) ok = sx_and(ok, sx_and(res[i] <= tol, res[i] >= -tol));
    any = sx_or(any, ok);
  }
  return any;
}
template<int N, int P, int Q> static void solveAndCheck(RtQPSolver<N, P, Q>& qp, const M& H, const V& g, const M& CE, const V& ce, const M& CI, const V& ci, double tol) {
  int n = H.rows(), p = CE.rows(), m = CI.rows();
  static_cast<RtQPSolverInterface<N, P, Q>&>(qp).reset(n, p, m);
  qp.objectiveQuadPart() = H; qp.objectiveLinPart() = g; if (p) qp.appendEqualities(CE, ce); if (m) { qp.appendInequalities(CI.topRows(1), ci.head(1)); if (m > 1) qp.appendInequalities(CI.bottomRows(m - 1), ci.tail(m - 1)); }
  sx_assert(qp.numVariables() == n && qp.numEqConstr() == p && qp.numIneqConstr() == m, "sizes");
  bool ok = qp.optimize(); sx_assert(ok == qp.isOptimized(), "returned flag is isOptimized()");
  V y = symv("other", n); bool feas = true;
  for (int i = 0; i < p; i++) { double v = ce[i]; for (int j = 0; j < n; j++) v += CE(i, j) * y[j]; feas = sx_and(feas, v == 0); }
  for (int i = 0; i < m; i++) { double v = ci[i]; for (int j = 0; j < n; j++) v += CI(i, j) * y[j]; feas = sx_and(feas, v <= -1e-6); }
  if (!ok) { sx_assert(!feas, "a problem reported as not solved has no strictly feasible point"); return; }
  sx_assert(qp.solution().size() == n, "solution size"); V x = qp.solution();
  for (int i = 0; i < p; i++) sx_eq_tol(CE.row(i).dot(x) + ce[i], 0.0, tol, "equalities hold at the solution");
  for (int i = 0; i < m; i++) sx_assert(CI.row(i).dot(x) + ci[i] <= tol, "inequalities hold at the solution");
  sx_assert(stationary(H, g, CE, CI, ci, x, tol), "multipliers of the right sign exist for the solution");
}
static const double R2[9][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {-4, 3}, {1, 0}, {0, 0}, {1, -2}};
static const double H2[3][4] = {{1, 0, 0, 1}, {4, 2, 2, 2}, {0.25, -0.5, -0.5, 5}};
static M hess2(int k) { M H(2, 2); for (int i = 0; i < 4; i++) H(i / 2, i % 2) = H2[k][i]; return H; }
extern "C" void e_qp1() {   // one variable, every coefficient free
  sx_option("div0_exclude", 1); B = 50; M H(1, 1), CE(0, 1), CI(2, 1); H(0, 0) = sx_real("h"); sx_assume(H(0, 0) > 0.01); sx_assume(H(0, 0) < 100); V g = symv("g", 1), ci = symv("ci", 2);
  for (int i = 0; i < 2; i++) { CI(i, 0) = sx_choose(nm("s", i).c_str(), 0, 1) ? sx_real_in(nm("a", i).c_str(), 0.1, 10) : sx_real_in(nm("a", i).c_str(), -10, -0.1); }
  RtQPSolver<1, 1, 2> qp; solveAndCheck<1, 1, 2>(qp, H, g, CE, V(0), CI, ci, 1e-4);
}
static void fam2(int m, int p, int nrow, int nh) {
  sx_option("lin_round", 1); M H = hess2(nh > 1 ? sx_choose("H", 0, nh - 1) : 1), CE(p, 2), CI(m, 2); V g = symv("g", 2), ci = symv("ci", m), ce = symv("ce", p);
  static const int E[2] = {4, 8}; for (int i = 0; i < p; i++) { int r = E[sx_choose(nm("e", i).c_str(), 0, 1)]; CE(i, 0) = R2[r][0]; CE(i, 1) = R2[r][1]; }
  int last = 0; for (int i = 0; i < m; i++) { int r = sx_choose(nm("r", i).c_str(), last, nrow - 1); last = r; CI(i, 0) = R2[r][0]; CI(i, 1) = R2[r][1]; }
  RtQPSolver<2, 1, 4> qp; solveAndCheck<2, 1, 4>(qp, H, g, CE, ce, CI, ci, 1e-6);
}
extern "C" void e_qp2_eq() { fam2(2, 1, 9, 2); }
extern "C" void e_qp2_ineq() { fam2(2, 0, 9, 3); }
extern "C" void e_qp2_three() { fam2(3, 0, 5, 1); }
extern "C" void e_qp2_three_all() { fam2(3, 0, 7, 3); }
extern "C" void e_qp2_box() {   // box plus a cutting row; the same solver object solves two problems in a row
  sx_option("lin_round", 1); M H = hess2(1), CE(0, 2), CI(4, 2); V g = symv("g", 2), ci(4); CI << 1, 0, -1, 0, 0, 1, 0, -1; ci << -1, -1, -2, 0;
  RtQPSolver<2, 1, 4> qp; int swap = sx_choose("first", 0, 1); if (swap) { V g0(2); g0 << 1, 2; M I(1, 2); I << 1, 1; V c(1); c << 3; solveAndCheck<2, 1, 4>(qp, hess2(2), g0, CE, V(0), I, c, 1e-6); }
  solveAndCheck<2, 1, 4>(qp, H, g, CE, V(0), CI, ci, 1e-6);
}
static void fam3(bool dense) {
  sx_option("lin_round", 1); int p = sx_choose("eqs", 0, 1); M H(3, 3), CE(p, 3), CI(3, 3); V g = symv("g", 3), ci = symv("ci", 3), ce = symv("ce", p);
  if (dense) H << 4, 2, 0, 2, 2, 1, 0, 1, 10; else H << 4, 0, 0, 0, 1, 0, 0, 0, 1;
  if (p) { if (dense) CE << 1, 2, 2; else CE << 0, 3, 4; }
  int k = sx_choose("rows", 0, 2); if (k == 0) CI << 1, 0, 0, 0, 1, 0, 0, 0, 1; else if (k == 1) CI << 12, 3, 4, 1, 0, 0, 0, 0, -1; else CI << 0, 3, 4, -1, 0, 0, 1, 0, 0;
  RtQPSolver<3, 1, 3> qp; solveAndCheck<3, 1, 3>(qp, H, g, CE, ce, CI, ci, 1e-6);
}
extern "C" void e_qp3() { fam3(false); }
extern "C" void e_qp3_dense() { fam3(true); }
template<int N, int P, int Q> static void nearly(const M& H, const V& g, const M& CE, const V& ce, const M& CI, const V& ci) {
  RtQPSolver<N, P, Q> qp; static_cast<RtQPSolverInterface<N, P, Q>&>(qp).reset(H.rows(), 0, 0); qp.objectiveQuadPart() = H; qp.objectiveLinPart() = g; if (CE.rows()) qp.appendEqualities(CE, ce); qp.appendInequalities(CI, ci);
  if (qp.optimize()) for (int i = 0; i < CI.rows(); i++) sx_assert(CI.row(i).dot(qp.solution()) + ci[i] <= 1e-6 * CI.row(i).lpNorm<1>(), "inequalities hold at the solution");
  sx_assert(qp.numIneqConstr() == CI.rows(), "returns");
}
extern "C" void e_qp_nearly_dependent() {   // rows of very different length, dependent up to a tiny angle: termination, memory, no point that violates a row
  sx_option("lin_round", 1); int p = sx_choose("eqs", 0, 1), m = p ? 1 : sx_choose("m", 2, 3); M H = M::Identity(2, 2), CE(p, 2), CI(m, 2); V g = symv("g", 2), ci = symv("ci", m), ce = symv("ce", p);
  if (p) { CE << 1e10, 0; CI << 1, 1e-7; } else { CI.row(0) << 1e10, 0; CI.row(1) << 1, 1e-7; if (m > 2) CI.row(2) << 0, 1; }
  if (p) nearly<2, 1, 1>(H, g, CE, ce, CI, ci); else if (m == 2) nearly<2, 0, 2>(H, g, CE, ce, CI, ci); else nearly<2, 0, 3>(H, g, CE, ce, CI, ci);
}
extern "C" void e_qp_trivial() {
  RtQPSolver<2, 1, 2> qp; static_cast<RtQPSolverInterface<2, 1, 2>&>(qp).reset(0, 0, 0); sx_assert(qp.optimize(), "a problem without variables is solved");
}
// polyhedra with eight faces in four dimensions, every linear cost in a plane: long active-set histories with constraints dropped from a large active set
static const double PC[3][32] = {{2, -1, 1, 1, -1, -1, -1, -1, 1, 1, 0, 2, -3, 3, -2, -3, -3, 1, 0, -1, -2, 1, 3, 0, -3, 3, 1, 1, 2, -3, 1, -3},
  {3, 1, 3, 1, -2, 2, -2, -1, -3, -1, 2, -3, -2, -1, -1, 3, -2, -3, -3, 0, 2, -1, 0, 2, -2, 1, 3, 2, 3, 3, -1, -3},
  {3, 3, -3, 0, 1, -1, 3, -3, 0, 2, -3, 3, -3, -2, 0, 1, 0, -2, -3, 2, 0, -2, 2, 2, -3, 0, 3, 2, 3, -2, 3, 0}};
static const double Pc[3][8] = {{-3, -1, -2, -1, -2, -2, -3, -2}, {-1, -1, -2, -1, -2, -1, -3, -2}, {-1, -1, -2, -3, -1, -2, -1, -3}};
static const double Pa[3][4] = {{-3, 0, 0, 0}, {3, 2, -1, -1}, {-2, 3, -2, -2}}, Pb[3][4] = {{-1, -1, -2, -1}, {3, -2, 3, 0}, {-2, 1, 1, -3}};
static void poly(int k) {
  sx_option("lin_round", 1); const int N = 4, Q = 8; M H = M::Identity(N, N), CI(Q, N), CE(0, N); V g(N), ci(Q); double s = sx_real_in("s", -10, 10), t = sx_real_in("t", -10, 10);
  for (int i = 0; i < Q; i++) { ci[i] = Pc[k][i]; for (int j = 0; j < N; j++) CI(i, j) = PC[k][4 * i + j]; } for (int j = 0; j < N; j++) g[j] = Pa[k][j] * s + Pb[k][j] * t;
  RtQPSolver<N, 1, Q> qp; static_cast<RtQPSolverInterface<N, 1, Q>&>(qp).reset(N, 0, Q); qp.objectiveQuadPart() = H; qp.objectiveLinPart() = g; qp.appendInequalities(CI, ci);
  bool ok = qp.optimize(); sx_assert(ok && qp.isOptimized(), "a problem with a strictly feasible point is solved"); V x = qp.solution();
  for (int i = 0; i < Q; i++) sx_assert(CI.row(i).dot(x) + ci[i] <= 1e-6, "inequalities hold at the solution");
  sx_assert(stationary(H, g, CE, CI, ci, x, 1e-6), "multipliers of the right sign exist for the solution");
}
extern "C" void e_qp4_poly() { poly(sx_choose("polyhedron", 0, 2)); }
