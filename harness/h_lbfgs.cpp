// L-BFGS: lbfgs() against an arbitrary objective (every evaluation returns fresh values), and the penalty wrapper LbfgsSolver.
#include "common.h"
#define private public
#include <solver/optimizer/LbfgsSolver.hpp>
#include <solver/interface/NlpDescription.hpp>
#undef private
using namespace solver;
struct Ev { std::vector<double> x, g; double f; };
static std::vector<Ev> evs; static double fixG[8][2]; static bool useFix;
struct It { std::vector<double> x, g; double f, xn, gn, step; int k, ls; size_t evals; };
static std::vector<It> its; static int stopAt, stopCode;
static double evaluate(void* inst, const double* x, double* g, const int n, const double) {
  sx_assert(inst == (void*)&evs, "the user's pointer is handed on"); Ev e; int id = evs.size(); sx_assert(id < 40, "bounded number of evaluations");
  for (int i = 0; i < n; i++) { e.x.push_back(x[i]); g[i] = useFix && id < 8 ? fixG[id][i] : sx_real_in(nm("g", id, i).c_str(), -10, 10); e.g.push_back(g[i]); }
  e.f = useFix ? -1.0 * id : sx_real_in(nm("f", id).c_str(), -100, 100); evs.push_back(e); return e.f;
}
static int progress(void* inst, const double* x, const double* g, const double fx, const double xn, const double gn, const double step, int n, int k, int ls) {
  It t; t.x.assign(x, x + n); t.g.assign(g, g + n); t.f = fx; t.xn = xn; t.gn = gn; t.step = step; t.k = k; t.ls = ls; t.evals = evs.size(); its.push_back(t); return stopAt == k ? stopCode : 0;
}
static bool isEval(const double* x, int n, double f) { bool any = false; for (auto& e : evs) { bool q = e.f == f; for (int i = 0; i < n; i++) q = sx_and(q, e.x[i] == x[i]); any = sx_or(any, q); } return any; }
static double n2(const double* v, int n) { double s = 0; for (int i = 0; i < n; i++) s += v[i] * v[i]; return s; }
static lbfgs_parameter_t par() { lbfgs_parameter_t p; lbfgs_parameter_init(&p); p.m = 3; p.max_linesearch = 2; p.max_iterations = 2; p.epsilon = 0.125; return p; }
static void run(lbfgs_parameter_t p, int n, bool strong = false) {
  evs.clear(); its.clear(); double x[2], x0[2]; for (int i = 0; i < n; i++) x0[i] = x[i] = sx_real_in(nm("x", i).c_str(), -10, 10); double f = 12345; int r = lbfgs(n, x, &f, evaluate, progress, &evs, &p);
  sx_assert(evs.size() > 0, "objective evaluated"); if (evs.empty()) return; 
  size_t pe = 1; double pf = evs[0].f; std::vector<double> px(x0, x0 + n), pg = evs[0].g; int id = 0;
  for (auto& t : its) {
    id++; sx_assert(t.k == id, "iterations are counted from one"); sx_assert(t.ls == (int)(t.evals - pe) && t.ls <= p.max_linesearch && t.ls >= 1, "line search trials"); double gs = 0, gn = 0; for (int i = 0; i < n; i++) { gs += pg[i] * (t.x[i] - px[i]); gn += t.g[i] * (t.x[i] - px[i]); }
    sx_assert(isEval(t.x.data(), n, t.f), "accepted point has the reported value"); sx_assert(t.f <= pf + p.ftol * gs, "sufficient decrease"); sx_assert(gs <= 0, "descent direction"); if (p.linesearch == LBFGS_LINESEARCH_MORETHUENTE) sx_assert(sx_and(gn <= -p.gtol * gs, gn >= p.gtol * gs), "curvature condition"); if (p.linesearch == LBFGS_LINESEARCH_BACKTRACKING_WOLFE) sx_assert(gn >= p.wolfe * gs, "curvature condition"); if (p.linesearch == LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE) sx_assert(sx_and(gn >= p.wolfe * gs, gn <= -p.wolfe * gs), "curvature condition");
    sx_assert(sx_and(t.xn >= 0, t.gn >= 0), "norms"); sx_eq(t.xn * t.xn, n2(t.x.data(), n), "norm of the point"); sx_eq(t.gn * t.gn, n2(t.g.data(), n), "norm of the gradient"); sx_assert(sx_and(t.step >= p.min_step, t.step <= p.max_step), "step within its limits"); pe = t.evals; pf = t.f; px = t.x; pg = t.g;
  }
  // what the status says (its.size() iterations accepted; the last accepted point is px)
  double e2 = p.epsilon * p.epsilon; auto small = [&](const double* xx, const double* g) { double a = n2(xx, n), b = n2(g, n); return sx_and(sx_imp(a <= 1, b <= e2), sx_imp(a >= 1, b <= e2 * a)); };
  if (r == LBFGS_ALREADY_MINIMIZED) { sx_assert(evs.size() == 1 && its.empty(), "no search at a minimiser"); sx_assert(small(x0, evs[0].g.data()), "start is stationary"); }
  else { sx_assert(!small(x0, evs[0].g.data()) || n2(x0, n) == 0, "a stationary start is recognised"); }
  if (r == LBFGS_SUCCESS) { sx_assert(!its.empty(), "success after an iteration"); sx_assert(small(px.data(), pg.data()), "success means a small gradient"); }
  if (r == LBFGSERR_MAXIMUMITERATION) sx_assert((int)its.size() == p.max_iterations, "iteration limit reached"); if (p.max_iterations) sx_assert((int)its.size() <= p.max_iterations, "iteration limit kept");
  if (r == LBFGSERR_MAXIMUMLINESEARCH) sx_assert((int)(evs.size() - pe) == p.max_linesearch, "line search limit reached"); sx_assert((int)(evs.size() - pe) <= p.max_linesearch, "line search limit kept");
  if (r == LBFGS_STOP) { sx_assert(p.past > 0 && (int)its.size() >= p.past, "delta test needs a past"); if (p.past > 0 && (int)its.size() >= p.past) { double old = (int)its.size() == p.past ? evs[0].f : its[its.size() - 1 - p.past].f; sx_assert(sx_imp(f > 0, old - f <= p.delta * f), "improvement below delta"); } }
  for (int i = 0; i < n; i++) sx_eq(x[i], px[i], "returns the last accepted point"); sx_assert(pf <= evs[0].f, "never worse than the starting point");
  bool failed = r < 0 && r != LBFGSERR_MAXIMUMITERATION && evs.size() > pe; if (!failed) sx_assert(f == pf, "returns the last accepted value"); else if (strong) sx_assert(f == pf, "value returned after a failed line search"); else sx_assert(sx_or(f == pf, f == evs.back().f), "returns a value that was computed last");
}
static void opts() { sx_option("div0_exclude", 1); sx_option("t_branch", 2); stopAt = -1; useFix = false; }
extern "C" void e_armijo() { opts(); lbfgs_parameter_t p = par(); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; run(p, 1); }
extern "C" void e_failed_search() { opts(); lbfgs_parameter_t p = par(); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_iterations = 1; run(p, 1, true); }
extern "C" void e_wolfe() { opts(); lbfgs_parameter_t p = par(); p.linesearch = sx_choose("line_search", 2, 3); p.max_iterations = 1; run(p, 1); }
extern "C" void e_morethuente() { opts(); lbfgs_parameter_t p = par(); p.max_iterations = 1; p.max_linesearch = 2; run(p, 1); }
extern "C" void e_past() { opts(); lbfgs_parameter_t p = par(); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; p.past = sx_choose("past", 1, 2); p.delta = 0.25; p.max_iterations = 3; run(p, 1); }
extern "C" void e_cancel() {
  opts(); lbfgs_parameter_t p = par(); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; evs.clear(); its.clear(); stopAt = sx_choose("stop_at", 1, 2); stopCode = sx_choose("code", 7, 8); double x[1] = {sx_real_in("x", -10, 10)}, f; int r = lbfgs(1, x, &f, evaluate, progress, &evs, &p);
  sx_assert((int)its.size() <= stopAt, "no iteration after the user stops it"); sx_assert(((int)its.size() == stopAt) == (r == stopCode), "the user's code is returned"); if (r == stopCode) sx_assert(isEval(x, 1, f), "returned value is the objective at the returned point");
}
// the second direction is the BFGS one
extern "C" void e_direction() {
  opts(); useFix = true; lbfgs_parameter_t p = par(); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_ARMIJO; p.max_linesearch = 1; p.epsilon = 0; int m = p.m = sx_choose("memory", 1, 3), k = sx_choose("updates", 1, 3); p.max_iterations = k + 1; evs.clear(); its.clear();
  double G[5][2] = {{3, 4}, {1, 2}, {-1, 1.5}, {0.5, -2}, {1, 1}}; for (int i = 0; i < 5; i++) for (int j = 0; j < 2; j++) fixG[i][j] = G[i][j]; fixG[k][0] = sx_real_in("g0", 0.5, 2); fixG[k][1] = k == 1 ? sx_real_in("g1", 1, 3) : G[k][1];
  double x[2] = {1, -2}, f; lbfgs(2, x, &f, evaluate, progress, &evs, &p); if ((int)evs.size() <= k) return; if (its.size() < (size_t)k || its[0].ls < 0) return;
  sx_eq(evs[1].x[0], 1 - 0.6, "first trial is a unit step down the gradient"); sx_eq(evs[1].x[1], -2 - 0.8, "first trial is a unit step down the gradient");
  if ((int)evs.size() < k + 2) return;
  // H from the last min(m,k) pairs, starting at (s'y / y'y) I
  double H[2][2] = {{0, 0}, {0, 0}}; int b = m < k ? m : k;
  for (int i = k - b; i < k; i++) {
    double s[2], y[2]; for (int j = 0; j < 2; j++) { s[j] = evs[i + 1].x[j] - evs[i].x[j]; y[j] = evs[i + 1].g[j] - evs[i].g[j]; } double ys = y[0] * s[0] + y[1] * s[1];
    if (i == k - b) { double sl[2], yl[2]; for (int j = 0; j < 2; j++) { sl[j] = evs[k].x[j] - evs[k - 1].x[j]; yl[j] = evs[k].g[j] - evs[k - 1].g[j]; } H[0][0] = H[1][1] = (yl[0] * sl[0] + yl[1] * sl[1]) / (yl[0] * yl[0] + yl[1] * yl[1]); }
    double V[2][2], T[2][2], U[2][2]; for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) V[r][c] = (r == c) - y[r] * s[c] / ys;
    for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) { T[r][c] = 0; for (int q = 0; q < 2; q++) T[r][c] += H[r][q] * V[q][c]; }
    for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) { U[r][c] = s[r] * s[c] / ys; for (int q = 0; q < 2; q++) U[r][c] += V[q][r] * T[q][c]; }
    for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) H[r][c] = U[r][c];
  }
  for (int r = 0; r < 2; r++) sx_eq_tol(evs[k + 1].x[r] - evs[k].x[r], -(H[r][0] * fixG[k][0] + H[r][1] * fixG[k][1]), 1e-9, "later directions use the limited-memory inverse Hessian");
}
extern "C" void e_params() {   // invalid parameters are rejected before anything is evaluated
  stopAt = -1; useFix = false; lbfgs_parameter_t p = par(); evs.clear(); its.clear(); double x[1] = {0.5}, f = 3; int n = 1, want = 0; double bad = sx_real_in("v", -5, -1e-6); int which = sx_choose("which", 0, 12);
  switch (which) { case 0: n = sx_choose("n", -2, 0); want = LBFGSERR_INVALID_N; break; case 1: p.epsilon = bad; want = LBFGSERR_INVALID_EPSILON; break; case 2: p.past = -1; want = LBFGSERR_INVALID_TESTPERIOD; break; case 3: p.delta = bad; want = LBFGSERR_INVALID_DELTA; break; case 4: p.linesearch = sx_choose("l", 4, 9); want = LBFGSERR_INVALID_LINESEARCH; break; case 5: p.min_step = bad; want = LBFGSERR_INVALID_MINSTEP; break; case 6: p.min_step = 1; p.max_step = 1 + bad; want = LBFGSERR_INVALID_MAXSTEP; break; case 7: p.ftol = bad; want = LBFGSERR_INVALID_FTOL; break;
    case 8: p.linesearch = sx_choose("l", 2, 3); if (sx_choose("low", 0, 1)) p.wolfe = p.ftol + bad; else p.wolfe = 1 - bad; want = LBFGSERR_INVALID_WOLFE; break; case 9: p.gtol = bad; want = LBFGSERR_INVALID_GTOL; break; case 10: p.xtol = bad; want = LBFGSERR_INVALID_XTOL; break; case 11: p.max_linesearch = sx_choose("ml", -1, 0); want = LBFGSERR_INVALID_MAXLINESEARCH; break; default: want = 1; p.epsilon = 20; }
  int r = lbfgs(n, x, &f, evaluate, progress, &evs, &p); if (which == 12) { sx_assert(r == LBFGS_ALREADY_MINIMIZED && evs.size() == 1, "valid parameters are accepted"); return; } sx_assert(r == want, "invalid parameter is reported"); sx_assert(evs.empty() && f == 3 && x[0] == 0.5, "nothing is evaluated with invalid parameters");
}
// ---- penalty wrapper
struct Nlp : public NlpDescription {
  double q[2], c[2], l[2], u[2], gl[1], gu[1], a[2], x0[2]; int starts = 0;
  void getNlpParameters(int& n, int& m) { n = 2; m = 1; } void getStartingPoint(int, double* x) { starts++; x[0] = x0[0]; x[1] = x0[1]; }
  void getNlpBounds(int, int, double* xl, double* xu, double* cl, double* cu) { for (int i = 0; i < 2; i++) { xl[i] = l[i]; xu[i] = u[i]; } cl[0] = gl[0]; cu[0] = gu[0]; }
  double evaluateObjective(int, const double* x) { return q[0] * x[0] * x[0] + q[1] * x[1] * x[1] + c[0] * x[0] + c[1] * x[1]; } void evaluateConstraintsVector(int, int, const double* x, double* g) { g[0] = a[0] * x[0] + a[1] * x[1]; }
};
static double viol(double v, double l, double u) { if (sx_branch(v <= l)) return (v - l) * (v - l); if (sx_branch(v >= u)) return (v - u) * (v - u); return 0; }
static void fill(Nlp& p) { for (int i = 0; i < 2; i++) { p.q[i] = sx_real(nm("q", i).c_str()); p.c[i] = sx_real(nm("c", i).c_str()); p.a[i] = i + 1; p.l[i] = sx_real(nm("l", i).c_str()); p.u[i] = sx_real(nm("u", i).c_str()); sx_assume(p.l[i] < p.u[i]); p.x0[i] = sx_real(nm("s", i).c_str()); } p.gl[0] = sx_real("gl"); p.gu[0] = sx_real("gu"); sx_assume(p.gl[0] < p.gu[0]); }
extern "C" void e_penalty() {
  Nlp p; fill(p); double w = sx_real("w"); LbfgsSolver s; s.optimize(); sx_assert(p.starts == 0, "nothing happens before initialize"); s.initialize(&p, w); double x[2] = {sx_real("x0"), sx_real("x1")}; double want = p.evaluateObjective(2, x); double v = viol(x[0], p.l[0], p.u[0]) + viol(x[1], p.l[1], p.u[1]) + viol(x[0] + 2 * x[1], p.gl[0], p.gu[0]);
  sx_eq(s.evaluate_objective_function(x), want + w * v, "objective plus weighted squared violations");
}
extern "C" void e_gradient() {   // inside the bounds the gradient of a quadratic is exact
  Nlp p; fill(p); LbfgsSolver s; s.initialize(&p, 1.0); double x[2] = {sx_real("x0"), sx_real("x1")}, g[2]; double h = 1e-4; for (int i = 0; i < 2; i++) sx_assume(sx_and(x[i] > p.l[i] + h, x[i] < p.u[i] - h)); sx_assume(sx_and(x[0] + 2 * x[1] > p.gl[0] + 3 * h, x[0] + 2 * x[1] < p.gu[0] - 3 * h));
  double f = LbfgsSolver::delegate_evaluate(s.user_info_, x, g, 2, 1.0); sx_eq(f, p.evaluateObjective(2, x), "value"); for (int i = 0; i < 2; i++) sx_eq(g[i], 2 * p.q[i] * x[i] + p.c[i], "central difference of a quadratic is its derivative");
}
extern "C" void e_solver() {   // wrapper end to end on a strictly convex quadratic at its minimiser
  Nlp p; for (int i = 0; i < 2; i++) { p.q[i] = 1 + i; p.x0[i] = sx_real_in(nm("s", i).c_str(), -3, 3); p.c[i] = -2 * p.q[i] * p.x0[i]; p.l[i] = -10; p.u[i] = 10; p.a[i] = 1; } p.gl[0] = -30; p.gu[0] = 30;
  LbfgsSolver s; s.initialize(&p); s.optimize(); sx_assert(s.opt_status_ == LBFGS_ALREADY_MINIMIZED && p.starts == 1, "starts at the given point"); for (int i = 0; i < 2; i++) sx_eq(p.optimalVector()[i], p.x0[i], "solution is written to the problem"); sx_eq(p.optimalValue(), p.evaluateObjective(2, p.x0), "objective is written to the problem");
}
