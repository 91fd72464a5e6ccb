// Branch and bound over a specification of the conic solver: every subproblem (each binary free, 0 or 1) gets an arbitrary
// answer, consistent with being the exact relaxation of an arbitrary mixed-integer problem.
#include "solver_common.h"
#define OPT_IP _ZN6solver19InteriorPointSolver8optimizeEv
#define OPT_CP _ZN6solver12ConicProblem8optimizeEv
static int NB; static Model* M; static bool ncvx, built; static int col[3], xcol, junk, ninacc;
struct Sub { std::vector<int> fix; bool feas; double cost; std::vector<double> x; };
static std::vector<Sub> nodes; static std::vector<char> leafFeas; static std::vector<double> leafCost; static double bestSeen; static bool anySeen; static int calls;
static bool below(const std::vector<int>& a, const std::vector<int>& b) { for (int i = 0; i < NB; i++) if (b[i] != 2 && a[i] != b[i]) return false; return true; }   // a refines b
static std::vector<int> leaf(int l) { std::vector<int> r(NB); for (int i = 0; i < NB; i++) r[i] = l >> i & 1; return r; }
static int leafOf(const std::vector<int>& f) { int l = 0; for (int i = 0; i < NB; i++) { if (f[i] == 2) return -1; l |= f[i] << i; } return l; }
static Sub& subOf(const std::vector<int>& fix) {
  for (auto& n : nodes) if (n.fix == fix) return n;
  Sub n; n.fix = fix; std::string id; for (int v : fix) id += "01U"[v]; int lf = leafOf(fix); n.x.resize(NB); n.feas = false; for (int i = 0; i < NB; i++) n.x[i] = fix[i];
  bool need = false; for (int l = 0; l < (1 << NB); l++) need |= leafFeas[l] && below(leaf(l), fix);
  if (lf >= 0) { n.feas = leafFeas[lf]; n.cost = leafCost[lf]; }
  else if (!need) { for (auto& a : nodes) if (!a.feas && below(fix, a.fix)) goto done; n.feas = sx_choose(("relaxed" + id).c_str(), 0, 1); done:; } else n.feas = true;
  if (n.feas && lf < 0) {
    n.cost = sx_real(("cost" + id).c_str()); static const double V[3] = {0, 1, 0.4}; std::vector<int> r(fix); bool integral = true;
    for (int i = 0; i < NB; i++) if (fix[i] == 2) { int c = sx_choose(("x" + std::to_string(i) + "_" + id).c_str(), 0, 2); n.x[i] = V[c]; if (c < 2) r[i] = c; else integral = false; }
    if (integral) { int l = leafOf(r); sx_assume(leafFeas[l]); sx_assume(n.cost == leafCost[l]); }
    for (int l = 0; l < (1 << NB); l++) if (leafFeas[l] && below(leaf(l), fix)) sx_assume(n.cost <= leafCost[l]);
  }
  if (n.feas) for (auto& a : nodes) { if (a.feas && below(fix, a.fix)) sx_assume(a.cost <= n.cost); if (a.feas && below(a.fix, fix)) sx_assume(n.cost <= a.cost); }
  if (!n.feas) { for (auto& a : nodes) if (a.feas && below(a.fix, fix)) sx_assume(false); }
  nodes.push_back(n); return nodes.back();
}
static double K[3] = {3.0, -2.0, 0.5};
static ExitCode answer(InteriorPointSolver& ip, const std::vector<int>& fix) {
  calls++; Sub& n = subOf(fix); Eigen::VectorXd x(ip.opt_.x().size()); for (int i = 0; i < x.size(); i++) x[i] = 7.0 + i; for (int i = 0; i < NB; i++) x[col[i]] = n.x[i];
  auto& in = ip.getInfo();
  if (!n.feas) { for (int i = 0; i < x.size(); i++) x[i] = junk == 0 ? 0.0 : junk == 1 ? 2.75 - 3 * i : 0.25; ip.opt_.x() = x; in.get(SolverDoubleParam_PrimalCost) = junk == 2 ? 1e3 : -1e3; return junk == 2 ? ExitCode::PrimalInfInacc : ExitCode::PrimalInf; }
  double c = n.cost; for (int i = 0; i < NB; i++) c -= K[i] * n.x[i]; x[xcol] = c; ip.opt_.x() = x; in.get(SolverDoubleParam_PrimalCost) = n.cost; in.get(SolverDoubleParam_DualCost) = n.cost;   // objective x + sum K b
  bool integral = true; for (double v : n.x) integral = integral && (v == 0.0 || v == 1.0);
  if (integral) { if (!anySeen) bestSeen = n.cost; else if (sx_branch(n.cost < bestSeen)) bestSeen = n.cost; anySeen = true; }
  return ninacc ? ExitCode::OptimalInacc : ExitCode::Optimal;
}
extern "C" ExitCode __real__ZN6solver12ConicProblem8optimizeEv(ConicProblem*);
static int passMode; static std::vector<Eigen::VectorXd> passX; static std::vector<ExitCode> passE; static double hTr[8]; static int trRow;
extern "C" ExitCode __wrap__ZN6solver19InteriorPointSolver8optimizeEv(InteriorPointSolver* self) {
  if (passMode) { int k = passX.size(); Eigen::VectorXd x(self->opt_.x().size()); for (int i = 0; i < x.size(); i++) x[i] = i == 1 ? 1.5 + 0.25 * k : sx_real(nm("pass", k, i).c_str()); self->opt_.x() = x; passX.push_back(x);
    static const ExitCode E[4] = {ExitCode::Optimal, ExitCode::OptimalInacc, ExitCode::PrimalInf, ExitCode::ReachMaxIters}; passE.push_back(E[sx_choose(nm("status", k).c_str(), 0, 3)]); return passE.back(); }
  auto h = self->getStorage().h(); std::vector<int> f(NB);
  for (int i = 0; i < NB; i++) { double lo = -h[2 * i], hi = h[2 * i + 1]; f[i] = lo > 0.0 ? 1 : hi > 0.0 ? 2 : 0; sx_assert(hi >= 0.0 && lo >= 0.0 && (f[i] != 1 || hi > 0.0), "binary bounds are 0, 1 or free"); }
  return answer(*self, f);
}
extern "C" ExitCode __wrap__ZN6solver12ConicProblem8optimizeEv(ConicProblem* self) {
  if (!ncvx) return __real__ZN6solver12ConicProblem8optimizeEv(self);
  if (!built) { built = true; self->buildProblem(1); }
  std::vector<int> f(NB); for (int i = 0; i < NB; i++) { double lo = -self->binaryLowerBounds()[i], hi = self->binaryUpperBounds()[i]; f[i] = lo == 1.0 ? 1 : hi == 1.0 ? 2 : 0; sx_assert(lo >= 0.0 && lo <= 1.0 && hi >= lo && hi <= 1.0, "binary bounds are 0, 1 or free"); }
  return answer(self->getSolver(), f);
}
static void run(bool nc, int nb, int maxIters) {
  ncvx = nc; built = false; NB = nb; nodes.clear(); nodes.reserve(64); anySeen = false; bestSeen = 0; calls = 0; leafFeas.assign(1 << nb, 0); leafCost.assign(1 << nb, 0); bool any = false;
  for (int l = 0; l < (1 << nb); l++) { leafFeas[l] = sx_choose(nm("feasible", l).c_str(), 0, 1); any = any || leafFeas[l]; leafCost[l] = sx_real(nm("leaf", l).c_str()); sx_assume(sx_and(leafCost[l] >= -100.0, leafCost[l] <= 100.0)); }
  junk = nb < 2 ? sx_choose("junk", 0, 2) : nc ? 0 : maxIters < 10 ? 2 : 1; ninacc = sx_choose("inacc", 0, nb < 2 ? 1 : 0);
  Model m; M = &m; defaultSettings(m.getSetting()); m.getSetting().set(SolverIntParam_BnBMaxIters, maxIters); m.getSetting().set(SolverDoubleParam_BnBAbsSubOptGap, 0.5); m.getSetting().set(SolverDoubleParam_BnBRelSubOptGap, 0.0);
  std::vector<Var> b; b.push_back(m.addVar(VarType::Binary, 0, 1)); Var x = m.addVar(VarType::Continuous, -1000, 1000); for (int i = 1; i < nb; i++) b.push_back(m.addVar(VarType::Binary, 0, 1));
  for (int i = 0; i < nb; i++) col[i] = b[i].get(SolverIntParam_ColNum); xcol = x.get(SolverIntParam_ColNum);
  LinExpr e; e += LinExpr(b[0]) * 100.0; e += LinExpr(x) * -1.0; m.addLinConstr(e, "<", LinExpr(50.0));
  if (nc) { DCPQuadExpr q; LinExpr lx; lx += LinExpr(x); q.addQuaTerm(1.0, lx); m.addQuaConstr(q, "<", LinExpr(4.0), QuadConstrApprox::TrustRegion); }
  LinExpr o; o += LinExpr(x); for (int i = 0; i < nb; i++) o += LinExpr(b[i]) * K[i]; m.setObjective(DCPQuadExpr(), o);
  ExitCode ec = m.optimize(); bool solved = ec == ExitCode::Optimal || ec == ExitCode::OptimalInacc;
  if (solved) {
    std::vector<int> f(nb); double c = x.get(SolverDoubleParam_X);
    for (int i = 0; i < nb; i++) { double v = b[i].get(SolverDoubleParam_X); sx_assert(v == 0.0 || v == 1.0, "returned binaries are integral"); f[i] = v == 1.0; c += K[i] * v; }
    int l = leafOf(f); sx_assert(leafFeas[l], "returned assignment is feasible"); sx_eq(c, leafCost[l], "returned point is the solution of its subproblem");
    sx_assert(anySeen && sx_or(c <= bestSeen, bestSeen >= c), "no better solution was found and dropped"); sx_eq(m.getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost), c, "reported cost belongs to the returned point");
    if (ec == ExitCode::Optimal) for (int k = 0; k < (1 << nb); k++) if (leafFeas[k]) sx_assert(c <= leafCost[k] + 0.5, "no assignment is better by more than the gap");
    sx_reach(ec == ExitCode::Optimal ? "Optimal" : "OptimalInacc");
  } else {
    sx_assert(ec == ExitCode::PrimalInf || ec == ExitCode::PrimalInfInacc, "status is optimal or infeasible"); sx_assert(!anySeen, "a problem with a known solution is not called infeasible");
    if (ec == ExitCode::PrimalInf) sx_assert(!any, "infeasible only without feasible assignment"); sx_reach(ec == ExitCode::PrimalInf ? "PrimalInf" : "PrimalInfInacc");
  }
}
extern "C" void e_bnb1() { run(false, 1, sx_choose("max", 1, 4)); }
extern "C" void e_bnb2() { run(false, 2, 10); }
extern "C" void e_bnb2_cut() { run(false, 2, sx_choose("max", 1, 2)); }
extern "C" void e_ncvx1() { run(true, 1, sx_choose("max", 1, 4)); }
extern "C" void e_ncvx2() { run(true, 2, 10); }
// continuous models: one conic solve per requested pass, the last one is written back to the user's variables
extern "C" void e_passes() {
  passMode = 1; ncvx = false; passX.clear(); passE.clear(); Model m; defaultSettings(m.getSetting()); auto& st = m.getSetting(); int kind = sx_choose("kind", 0, 2), warm = sx_choose("warm", 0, 1), refs = sx_choose("refs", 0, 2), main = sx_choose("main", 0, 1);
  st.set(SolverIntParam_WarmStartIters, warm ? 5 : 0); st.set(SolverIntParam_NumberRefinementsTrustRegion, refs); st.set(SolverIntParam_SolverMaxIters, main ? 100 : 0);
  int nv = 3; std::vector<Var> v; std::vector<double> g; for (int i = 0; i < nv; i++) { g.push_back(0.5 * i - 0.25); v.push_back(m.addVar(VarType::Continuous, -10, 10, g[i])); }
  LinExpr o; for (int i = 0; i < nv; i++) o += LinExpr(v[i]) * (i + 1.0); m.setObjective(DCPQuadExpr(), o); LinExpr e; e += LinExpr(v[2]); e += LinExpr(v[0]) * -1.0; m.addLinConstr(e, "<", LinExpr(4.0));
  if (kind) { DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(v[1])); m.addQuaConstr(q, "<", LinExpr(4.0), kind == 1 ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint); }
  ExitCode ec = m.optimize(); int want = (main ? 1 : 0) + (kind ? warm + refs : 0); sx_assert((int)passX.size() == want, "one conic solve per requested pass");
  if (want && (int)passX.size() == want) { sx_assert(ec == passE.back(), "status of the last pass"); for (int i = 0; i < nv; i++) sx_eq(v[i].get(SolverDoubleParam_X), passX.back()[v[i].get(SolverIntParam_ColNum)], "solution of the last pass is written back"); sx_reach("solved"); }
  else { sx_assert(ec == ExitCode::Indeterminate, "no pass, no status"); for (int i = 0; i < nv; i++) sx_eq(v[i].get(SolverDoubleParam_X), g[i], "guess kept when nothing is solved"); }
  for (int i = 0; i < nv; i++) sx_eq(v[i].get(SolverDoubleParam_Guess), g[i], "initial guess is kept"); passMode = 0;
}
