// Hierarchical QP solver and its model: strict priorities, optimality per rank, row assembly. The SVD thread's body runs at a
// chosen point of the main thread's schedule (right after it is woken, or when the main thread waits for it).
#include "common.h"
#include <yaml-cpp/yaml.h>
#include <pthread.h>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#define private public
#define protected public
#include <solver/interface/Var.hpp>
#include <solver/interface/Exprs.hpp>
#include <solver/rt_optimizer/RtHQPSolver.h>
#include <solver/rt_optimizer/RtModel.h>
#undef private
#undef protected
using namespace rt_solver; using namespace solver;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
typedef RtHQPSolver<4, 2, 3> HQP; typedef RtModel<4, 3, 2> RTM;
// ---- schedule
static HQP* H; static int early, inSvd;
static void runSvd() { inSvd++; H->doSVDComputations(); inSvd--; H->stop_svd2problem_converter_ = false; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { pthread_mutex_unlock(m); if (inSvd) H->stop_svd2problem_converter_ = true; else runSvd(); pthread_mutex_lock(m); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) { if (!inSvd && early && H && c == &H->problem2svd_converter_.c_ && !H->is_svd_computed_ && !H->stop_svd2problem_converter_) { pthread_mutex_unlock(&H->mutex_.m_); runSvd(); pthread_mutex_lock(&H->mutex_.m_); } return 0; }
namespace boost { bool thread::start_thread_noexcept() { return true; } bool thread::join_noexcept() { return true; } void thread::detach() {} }
// ---- optimality
static const double TOL = 2e-5;
static bool stationary(V gr, const M& CE0, const M& CI, const V& sl) {   // sl: distance to the bound, <= 0
  int n = gr.size(); std::vector<int> t; bool any = false; for (int i = 0; i < CI.rows(); i++) if (sx_branch(sl[i] >= -TOL)) t.push_back(i);
  for (int S = 0; S < (1 << t.size()); S++) {
    std::vector<Eigen::RowVectorXd> b; std::vector<V> lamRow; bool ok = true; V res = gr; M A(0, n); int p = 0;
    auto add = [&](const Eigen::RowVectorXd& r, bool must) { M T(A.rows() + 1, n); T.topRows(A.rows()) = A; T.row(A.rows()) = r; M G = T * T.transpose(); double det = 1; for (int c = 0; c < G.rows(); c++) { if (G(c, c) < 1e-9) return false; for (int q = c + 1; q < G.rows(); q++) { double f = G(q, c) / G(c, c); for (int j = 0; j < G.rows(); j++) G(q, j) -= f * G(c, j); } } A = T; return true; };
    for (int i = 0; i < CE0.rows(); i++) add(CE0.row(i), false); p = A.rows(); bool dep = false; for (size_t i = 0; i < t.size() && !dep; i++) if (S >> i & 1) dep = !add(CI.row(t[i]), true); if (dep) continue;
    int k = A.rows();
    if (k) { M G = A * A.transpose(), W = M::Identity(k, k); for (int c = 0; c < k; c++) { double d = G(c, c); for (int j = 0; j < k; j++) { G(c, j) /= d; W(c, j) /= d; } for (int r = 0; r < k; r++) if (r != c) { double f = G(r, c); for (int j = 0; j < k; j++) { G(r, j) -= f * G(c, j); W(r, j) -= f * W(c, j); } } }
      M P = W * A; for (int i = 0; i < k; i++) { double s = 0; for (int j = 0; j < n; j++) s -= P(i, j) * gr[j]; if (i >= p) ok = sx_and(ok, s >= -TOL); for (int j = 0; j < n; j++) res[j] += A(i, j) * s; } }
    for (int i = 0; i < n; i++) ok = sx_and(ok, sx_and(res[i] <= TOL, res[i] >= -TOL)); any = sx_or(any, ok);
  }
  return any;
}
struct Task { M A, C; V a, c; };
static double pos(double v) { return sx_branch(v > 0) ? v : 0.0; }
// result x of a rank against the result xp before it (all earlier ranks done)
static void rankOptimal(const std::vector<Task>& ts, int k, const V& x, const V& xp) {
  int n = x.size(); std::vector<Eigen::RowVectorXd> E, I; std::vector<double> sl;
  for (int j = 0; j < k; j++) {
    for (int i = 0; i < ts[j].A.rows(); i++) { sx_eq_tol(ts[j].A.row(i).dot(x), ts[j].A.row(i).dot(xp), TOL, "a lower priority leaves equality residuals of higher priorities unchanged"); E.push_back(ts[j].A.row(i)); }
    for (int i = 0; i < ts[j].C.rows(); i++) { double b = pos(ts[j].C.row(i).dot(xp) + ts[j].c[i]), v = ts[j].C.row(i).dot(x) + ts[j].c[i]; sx_assert(v <= b + TOL, "a lower priority does not increase violations of higher priorities"); I.push_back(ts[j].C.row(i)); sl.push_back(v - b); }
  }
  const Task& t = ts[k]; V gr = V::Zero(n); for (int i = 0; i < t.A.rows(); i++) gr += t.A.row(i).transpose() * (t.A.row(i).dot(x) + t.a[i]); for (int i = 0; i < t.C.rows(); i++) gr += t.C.row(i).transpose() * pos(t.C.row(i).dot(x) + t.c[i]);
  M CE(E.size(), n), CI(I.size(), n); V s(I.size()); for (size_t i = 0; i < E.size(); i++) CE.row(i) = E[i]; for (size_t i = 0; i < I.size(); i++) { CI.row(i) = I[i]; s[i] = sl[i]; }
  sx_assert(stationary(gr, CE, CI, s), "each priority is optimal given the higher ones");
}
static V symv(const char* p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real_in(nm(p, i).c_str(), -10, 10); return v; }
static M mat(std::initializer_list<double> l) { M m(l.size() / 2, 2); int i = 0; for (double v : l) { m(i / 2, i % 2) = v; i++; } return m; }
static Task eq(int r, M A) { Task t; t.A = A; t.a = symv(nm("eq", r).c_str(), A.rows()); t.C = M(0, 2); t.c = V(0); return t; }
static Task in(int r, M C) { Task t; t.C = C; t.c = symv(nm("in", r).c_str(), C.rows()); t.A = M(0, 2); t.a = V(0); return t; }
static Task both(Task a, Task b) { a.C = b.C; a.c = b.c; return a; }
static void hierarchy(std::vector<Task> ts) {
  sx_option("lin_round", 1); early = sx_choose("svd_thread_runs_early", 0, 1); YAML::Node params; HQP hqp(params); H = &hqp; hqp.initialize(); int rounds = 1;
  hqp.reset(2); V xp = V::Zero(2);
  for (size_t k = 0; k < ts.size(); k++) {
    bool ok = hqp.solveNextTask(ts[k].A, ts[k].a, ts[k].C, ts[k].c); sx_assert(ok, "a relaxed task always has a solution"); sx_assert(hqp.solution().size() == 2, "solution size"); if (!ok) return; V x = hqp.solution();
    rankOptimal(ts, k, x, xp); xp = x; if (hqp.nullspaceDimension() == 0) break;
  }
  H = nullptr;
}
extern "C" void e_eq_eq() { int k = sx_choose("case", 0, 2); if (k == 0) hierarchy({eq(0, mat({1, 0})), eq(1, mat({3, 4}))}); else if (k == 1) hierarchy({eq(0, mat({3, 4})), eq(1, mat({6, 8})), eq(2, mat({1, 0}))}); else hierarchy({eq(0, mat({1, 0, 1, 0})), eq(1, mat({0, 1, 1, 0}))}); }
extern "C" void e_in_eq() { int k = sx_choose("case", 0, 2); if (k == 0) hierarchy({in(0, mat({-1, 0})), eq(1, mat({1, 0, 0, 1}))}); else if (k == 1) hierarchy({in(0, mat({3, 4})), eq(1, mat({1, 0}))}); else hierarchy({both(eq(0, mat({0, 1})), in(0, mat({1, 0}))), eq(1, mat({1, 1}))}); }
extern "C" void e_conflict() { int k = sx_choose("case", 0, 1); if (k == 0) hierarchy({in(0, mat({1, 0, -1, 0})), eq(1, mat({1, 0}))}); else hierarchy({in(0, mat({1, 0, -1, 0})), eq(1, mat({0, 1})), eq(2, mat({1, 0}))}); }   // two inequalities that may contradict each other
extern "C" void e_three() { int k = sx_choose("case", 0, 1); if (k == 0) hierarchy({eq(0, mat({0, 1})), in(1, mat({1, 1})), eq(2, mat({1, 0}))}); else hierarchy({in(0, mat({1, 0})), in(1, mat({-1, 0})), eq(2, mat({1, 1}))}); }
extern "C" void e_many_ranks() {   // the same single row in nine priorities: the first decides, the others change nothing
  YAML::Node params; HQP hqp(params); H = &hqp; early = sx_choose("svd_thread_runs_early", 0, 1); hqp.initialize(); hqp.reset(2); M A = mat({2, 0}), C(0, 2); V c(0), a = symv("a", 1), z(1); z << -7; int n = sx_choose("ranks", 7, 9); bool ok = true;
  for (int k = 0; k < n; k++) ok = hqp.solveNextTask(A, k == 0 ? a : z, C, c) && ok; sx_assert(ok && hqp.nullspaceDimension() == 1, "all priorities solved"); sx_eq_tol(2 * hqp.solution()[0] + a[0], 0, TOL, "first priority met"); sx_eq_tol(hqp.solution()[1], 0, TOL, "free variable"); sx_assert(H == &hqp && !hqp.stop_svd2problem_converter_ && hqp.is_svd_computed_, "solver state intact"); H = nullptr;
}
// ---- model
extern "C" void e_model_rows() {   // rows of each rank say what the expressions say
  YAML::Node params; RTM m(params); H = &m.hqp_solver_; int nc = sx_choose("constraints", 1, 2); double v[2] = {sx_real("x0"), sx_real("x1")}; std::vector<double> want[3], wantIn[3]; 
  for (int i = 0; i < nc; i++) {
    int rank = sx_choose(nm("rank", i).c_str(), 0, 1), s = sx_choose(nm("sense", i).c_str(), 0, 2), sh = sx_choose(nm("shape", i).c_str(), 0, 2); double a = sx_real(nm("a", i).c_str()), b = sx_real(nm("b", i).c_str()), c = sx_real(nm("c", i).c_str());
    LinExpr l = LinExpr(m.getVar(0)) * a + c, r; double lv = a * v[0] + c, rv = 0; if (sh == 0) { r = LinExpr(m.getVar(1)) * b; rv = b * v[1]; } else if (sh == 1) { r = LinExpr(m.getVar(0)) * b + 2.0; rv = b * v[0] + 2.0; } else { r = LinExpr(b); rv = b; }
    m.addLinConstr(l, s == 0 ? "=" : s == 1 ? "<" : ">", r, rank); if (s == 0) want[rank].push_back(lv - rv); else wantIn[rank].push_back(s == 1 ? lv - rv : rv - lv);
  }
  for (int rank = 0; rank < 2; rank++) {
    RtVectorUtils::resize(m.nextEqCostVec(), 0); RtVectorUtils::resize(m.nextIneqCostVec(), 0); RtMatrixUtils::resize(m.nextEqCostMat(), 0, 2); RtMatrixUtils::resize(m.nextIneqCostMat(), 0, 2); m.addCostsToHierarchy(rank);
    sx_assert(m.checkIfHigherRanksLeft(rank) == (rank == 0 && want[1].size() + wantIn[1].size() > 0), "knows whether lower priorities are left"); sx_assert(m.nextEqCostMat().rows() == (int)want[rank].size() && m.nextEqCostVec().size() == (int)want[rank].size() && m.nextIneqCostMat().rows() == (int)wantIn[rank].size(), "one row per constraint of the rank");
    for (size_t i = 0; i < want[rank].size() && i < (size_t)m.nextEqCostMat().rows(); i++) sx_eq(m.nextEqCostMat()(i, 0) * v[0] + m.nextEqCostMat()(i, 1) * v[1] + m.nextEqCostVec()[i], want[rank][i], "equality row is the difference of its sides");
    for (size_t i = 0; i < wantIn[rank].size() && i < (size_t)m.nextIneqCostMat().rows(); i++) sx_eq(m.nextIneqCostMat()(i, 0) * v[0] + m.nextIneqCostMat()(i, 1) * v[1] + m.nextIneqCostVec()[i], wantIn[rank][i], "inequality row is the difference of its sides, <= 0");
  }
  bool threw = false; try { m.addLinConstr(LinExpr(1.0), "<=", LinExpr(2.0), 0); } catch (std::runtime_error&) { threw = true; } sx_assert(threw, "unknown sense is rejected"); H = nullptr;
}
struct Comp : public RtHQPCost { RTM* m; int r; mutable std::string log; M A; V a; int calls = 0; int maxRank() const { return r; } void updateAfterSolutionFound() { calls++; } void addCostToHierarchy(int rank) const { RtVector<1>::i rk(1); rk[0] = r; RtMatrix<1, 2>::d S = A; RtVector<1>::d s = a; m->appendRowsOfRank<1>(rank, rk, S, s, true, 0); } };
extern "C" void e_model_solve() {   // same hierarchy, given through expressions and composers
  sx_option("lin_round", 1); early = sx_choose("svd_thread_runs_early", 0, 1); YAML::Node params; RTM m(params); H = &m.hqp_solver_; std::vector<Task> ts{both(eq(0, mat({3, 4})), in(0, M(0, 2))), eq(1, mat({1, 0}))}; int k = sx_choose("case", 0, 1), comp = sx_choose("composer", 0, 1); if (k == 1) { ts[0] = in(0, mat({1, 0})); }
  for (int r = 0; r < 2; r++) { for (int i = 0; i < ts[r].A.rows(); i++) if (r == 0 || !comp) m.addLinConstr(LinExpr(m.getVar(0)) * ts[r].A(i, 0) + LinExpr(m.getVar(1)) * ts[r].A(i, 1) + ts[r].a[i], "=", LinExpr(0.0), r); for (int i = 0; i < ts[r].C.rows(); i++) m.addLinConstr(LinExpr(m.getVar(0)) * ts[r].C(i, 0) + LinExpr(m.getVar(1)) * ts[r].C(i, 1) + ts[r].c[i], "<", LinExpr(0.0), r); }
  Comp c; c.m = &m; c.r = 1; c.A = ts[1].A; c.a = ts[1].a; if (comp) m.subCostComposers().push_back(&c);
  m.initialize(); bool ok = m.solve(); sx_assert(ok && m.is_solution_valid_ && m.n_solved_ranks_ == 2, "both priorities are solved"); sx_assert(!comp || c.calls == 1, "composers are told about the solution"); V x = m.hqp_solver_.solution();
  // the first rank alone
  HQP h2(params); H = &h2; h2.initialize(); h2.reset(2); h2.solveNextTask(ts[0].A, ts[0].a, ts[0].C, ts[0].c); V x0 = h2.solution(); rankOptimal(ts, 1, x, x0); rankOptimal(ts, 0, x0, V::Zero(2)); H = nullptr;
}
extern "C" void e_columns() {   // dropped columns disappear, the others keep their order
  YAML::Node params; RtModel<2, 2, 4> m(params); RtMatrix<2, 4>::d A(2, 4), B; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) A(i, j) = sx_real(nm("A", i, j).c_str()); B = A; std::vector<int> keep; for (int j = 0; j < 4; j++) { bool k = sx_choose(nm("keep", j).c_str(), 0, 1); m.full_to_opt_variable_index_[j] = k ? (int)keep.size() : -1; if (k) keep.push_back(j); }
  m.reduceColumns(B); sx_assert(B.rows() == 2 && B.cols() == (int)keep.size(), "dropped columns"); if (B.cols() != (int)keep.size()) return; for (int i = 0; i < 2; i++) for (size_t j = 0; j < keep.size(); j++) sx_eq(B(i, j), A(i, keep[j]), "kept columns");
  Eigen::Vector3d d, d0; for (int i = 0; i < 3; i++) d0[i] = d[i] = sx_real(nm("d", i).c_str()); double s = m.inequalitySlack(d), w = 0; for (int i = 0; i < 3; i++) { double p = pos(d0[i]); w += p * p; } sx_assert(s >= 0, "norm of the violations"); sx_eq(s * s, w, "norm of the violations");
}
extern "C" void e_no_slack() {   // a rank declared without slacks: its equalities are solved by least norm
  YAML::Node params; RTM m(params); H = &m.hqp_solver_; int when = sx_choose("rank_without_slack", 0, 1); double a0 = sx_real_in("a0", -10, 10), a1 = sx_real_in("a1", -10, 10); m.hierarchiesWithoutSlacks();
  sx_option("lin_round", 1); m.addLinConstr(LinExpr(m.getVar(0)) * 3.0 + LinExpr(m.getVar(1)) * 4.0 + a0, "=", LinExpr(0.0), 0); m.addLinConstr(LinExpr(m.getVar(0)) + a1, "=", LinExpr(0.0), 1); m.initialize(); m.hierarchiesWithoutSlacks().push_back(when);
  bool ok = m.solve(); sx_assert(ok, "solved"); V x = m.hqp_solver_.solution(); sx_eq_tol(3 * x[0] + 4 * x[1] + a0, 0, 1e-4, "first priority met"); sx_eq_tol(x[0] + a1, 0, 1e-4, "second priority met"); sx_assert(m.hqp_solver_.applyIneqSlacks() == (when != 1), "the option applies to its rank"); H = nullptr;
}
