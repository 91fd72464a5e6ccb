// Interior-point solver: termination certificates, line search, Newton step. The linear solver is replaced by a
// specification of it (arbitrary directions, or exact solutions of the KKT system; the real one is checked in P06/P07).
#include "solver_common.h"
static InteriorPointSolver* ip; static Cone* cone; static SolverStorage* sto; static SolverSetting* setg;
static int mode, nsolve, nmul, nfact, failAt; static Eigen::MatrixXd A, G; static Eigen::VectorXd cc, bb, hh;
struct Sol { Eigen::VectorXd x, y, z; }; static std::vector<Sol> sols;
static Eigen::VectorXd vx0, vy0, vz0, vs0; static double tau0, kappa0;
extern "C" FactStatus __real__ZN6solver9LinSolver20numericFactorizationEv(LinSolver*);
extern "C" int __real__ZN6solver9LinSolver5solveERKN5Eigen3RefIKNS1_6MatrixIdLin1ELi1ELi0ELin1ELi1EEELi0ENS1_11InnerStrideILi1EEEEERNS_18OptimizationVectorEb(LinSolver* self, const Eigen::Ref<const Eigen::VectorXd>& rhs, OptimizationVector& d, bool init);
extern "C" FactStatus __wrap__ZN6solver9LinSolver20numericFactorizationEv(LinSolver* self) { if (mode == 2 && nfact != failAt) { nfact++; return __real__ZN6solver9LinSolver20numericFactorizationEv(self); } return nfact++ == failAt ? FactStatus::Failure : FactStatus::Optimal; }
static Eigen::VectorXd freshV(int n, const char* p) { Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v[i] = sx_real(nm(p, i).c_str()); return v; }
// exact solution of [0 A' G'; A 0 0; G 0 -W^2] (x,y,z) = b for diagonal W^2 = s/z, one variable, no equality
static void exactKkt(const Eigen::VectorXd& b, const Eigen::VectorXd& w2, Sol& o) {
  int m = w2.size(); double num = b[0], den = 0; for (int i = 0; i < m; i++) { num += G(i, 0) * b[1 + i] / w2[i]; den += G(i, 0) * G(i, 0) / w2[i]; }
  o.x.resize(1); o.y.resize(0); o.z.resize(m); o.x[0] = num / den; for (int i = 0; i < m; i++) o.z[i] = (G(i, 0) * o.x[0] - b[1 + i]) / w2[i];
}
extern "C" int __wrap__ZN6solver9LinSolver5solveERKN5Eigen3RefIKNS1_6MatrixIdLin1ELi1ELi0ELin1ELi1EEELi0ENS1_11InnerStrideILi1EEEEERNS_18OptimizationVectorEb(LinSolver* self, const Eigen::Ref<const Eigen::VectorXd>& rhs, OptimizationVector& d, bool init) {
  if (mode == 2) return __real__ZN6solver9LinSolver5solveERKN5Eigen3RefIKNS1_6MatrixIdLin1ELi1ELi0ELin1ELi1EEELi0ENS1_11InnerStrideILi1EEEEERNS_18OptimizationVectorEb(self, rhs, d, init);
  int n = cone->numVars(), p = cone->numLeq(), m = cone->sizeCone(), k = nsolve++; Sol s;
  Eigen::VectorXd b(n + p + m); for (int i = 0; i < n + p + cone->sizeLpc(); i++) b[i] = rhs[self->invPerm(i)];
  for (int l = 0; l < cone->numSoc(); l++) for (int i = 0; i < cone->sizeSoc(l); i++) b[n + p + cone->startSoc(l) + i] = rhs[self->invPerm(cone->extStartSoc(l) + i)];
  if (mode == 0 && k == 0) { s.x = vx0; s.y = Eigen::VectorXd::Zero(p); s.z = -vs0; }            // initial point chosen by the harness
  else if (mode == 0 && k == 1) { s.x = Eigen::VectorXd::Zero(n); s.y = vy0; s.z = vz0; }
  else if (mode == 0) { s.x = freshV(n, ("x" + std::to_string(k) + "_").c_str()); s.y = freshV(p, ("y" + std::to_string(k) + "_").c_str()); s.z = freshV(m, ("z" + std::to_string(k) + "_").c_str()); }
  else if (k == 0) { s.x = vx0; s.y = Eigen::VectorXd::Zero(p); s.z = -vs0; } else if (k == 1) { s.x = Eigen::VectorXd::Zero(n); s.y = vy0; s.z = vz0; }
  else { Eigen::VectorXd w2(m); if (k == 2) { vs0 = ip->opt_.s(); vz0 = ip->opt_.z(); } for (int i = 0; i < m; i++) w2[i] = vs0[i] / vz0[i]; exactKkt(b, w2, s); }
  d.x() = s.x; d.y() = s.y; d.z() = s.z; sols.push_back(s); return 0;
}
struct W { Cone cone; SolverStorage sto; SolverSetting set; InteriorPointSolver ip; };
static void setup(W& w, int n, int p, int l, std::vector<int> q, bool symbolic) {
  Eigen::VectorXi Q(q.size()); for (size_t i = 0; i < q.size(); i++) Q[i] = q[i];
  defaultSettings(w.set); w.set.set(SolverIntParam_EquilibrationIters, 0); w.cone.initialize(n, p, l, Q); int m = w.cone.sizeCone();
  w.sto.initialize(w.cone, w.set); A = Eigen::MatrixXd::Zero(p, n); G = Eigen::MatrixXd::Zero(m, n); cc.resize(n); bb.resize(p); hh.resize(m);
  static const double V[5] = {1, -2, 0.5, 3, -1}; static const double C2[2] = {3, -4}, B2[2] = {-3, 4}, H4[4] = {2, -1, -2, 4}; int k = 0;  // c, b, h: rational norms
  auto val = [&](const std::string& s) { return symbolic ? sx_real(s.c_str()) : V[k++ % 5]; };
  for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) { A(i, j) = val(nm("A", i, j)); w.sto.addCoeff(Eigen::Triplet<double>(i, j, A(i, j)), true); }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { G(i, j) = val(nm("G", i, j)); if (mode == 2) G(i, j) = 1; w.sto.addCoeff(Eigen::Triplet<double>(i, j, G(i, j)), false); }
  w.sto.initializeMatrices();
  for (int i = 0; i < n; i++) w.sto.c()[i] = cc[i] = symbolic ? val(nm("c", i)) : C2[i]; for (int i = 0; i < p; i++) w.sto.b()[i] = bb[i] = symbolic ? val(nm("b", i)) : p == 1 ? 2.0 : B2[i]; for (int i = 0; i < m; i++) w.sto.h()[i] = hh[i] = symbolic ? val(nm("h", i)) : m >= 3 ? H4[i] : m == 1 ? -2.0 : B2[i];
  w.ip.initialize(w.sto, w.cone, w.set); ip = &w.ip; cone = &w.cone; sto = &w.sto; setg = &w.set; nsolve = 0; nfact = 0; failAt = -1; sols.clear();
}
static double norm(const Eigen::VectorXd& v) { double s = 0; for (int i = 0; i < v.size(); i++) s += v[i] * v[i]; return std::sqrt(s); }
static double mx(double a, double b) { return sx_branch(a < b) ? b : a; }

static Eigen::VectorXd mul(const Eigen::MatrixXd& M, const Eigen::VectorXd& x) { Eigen::VectorXd r(M.rows()); for (int i = 0; i < M.rows(); i++) { double v = 0; for (int j = 0; j < M.cols(); j++) v += M(i, j) * x[j]; r[i] = v; } return r; }
static Eigen::VectorXd mulT(const Eigen::MatrixXd& M, const Eigen::VectorXd& x) { Eigen::VectorXd r(M.cols()); for (int j = 0; j < M.cols(); j++) { double v = 0; for (int i = 0; i < M.rows(); i++) v += M(i, j) * x[i]; r[j] = v; } return r; }
static double dotp(const Eigen::VectorXd& a, const Eigen::VectorXd& b) { double r = 0; for (int i = 0; i < a.size(); i++) r += a[i] * b[i]; return r; }
// v < bound; a recorded measure may decide within the rounding of the recomputation
static double slack = 0;
static bool decide(double v, double bound, double rec) { if (slack > 0) { if (sx_branch(v > bound + slack)) return false; if (sx_branch(v > bound - slack)) return rec != SolverSetting::nan; return true; } return sx_branch(v < bound); }
// what the solver's progress record has to say about the point (x,y,z,s)/t, k
struct Stat { double pcost, dcost, gap, rgap, pres, dres, pinf, dinf; bool hasRel, hasPinf, hasDinf; };
static Stat stats(W& w, const Eigen::VectorXd& x, const Eigen::VectorXd& y, const Eigen::VectorXd& z, const Eigen::VectorXd& s, double t) {
  Stat r; double cx = dotp(cc, x), d = dotp(bb, y) + dotp(hh, z); double rt = w.set.get(SolverDoubleParam_DualityGapRelTol);
  r.pcost = cx / t; r.dcost = -d / t; r.gap = dotp(s, z); r.hasRel = true;
  if (sx_branch(r.pcost < 0.0)) r.rgap = r.gap / -r.pcost; else if (sx_branch(r.dcost > 0.0)) r.rgap = r.gap / r.dcost; else r.hasRel = false;
  Eigen::VectorXd gx = mul(G, x) + s, ax = mul(A, x), ay = mulT(A, y) + mulT(G, z);
  double ix = mx(1.0, norm(cc)), iy = mx(1.0, norm(bb)), iz = mx(1.0, norm(hh));
  r.pres = mx(norm(ax - t * bb) / mx(iy + norm(x), 1.0), norm(gx - t * hh) / mx(iz + norm(x) + norm(s), 1.0)) / t;
  r.dres = norm(-ay - t * cc) / mx(ix + norm(y) + norm(z), 1.0) / t;
  double dy = mx(norm(y) + norm(z), 1.0), dx = mx(norm(x), 1.0), ds = mx(norm(x) + norm(s), 1.0);
  r.hasPinf = decide(d / dy, -rt, w.ip.getInfo().get(SolverDoubleParam_PrimalInfeasibility)); if (r.hasPinf) r.pinf = norm(ay) / dy; r.hasDinf = decide(cx / dx, -rt, w.ip.getInfo().get(SolverDoubleParam_DualInfeasibility)); if (r.hasDinf) r.dinf = mx(norm(ax) / dx, norm(gx) / ds);
  return r;
}
static void checkStats(W& w, const Stat& r) {
  auto& i = w.ip.getInfo(); double none = SolverSetting::nan;
  sx_eq(i.get(SolverDoubleParam_PrimalCost), r.pcost, "primal cost"); sx_eq(i.get(SolverDoubleParam_DualCost), r.dcost, "dual cost"); sx_eq(i.get(SolverDoubleParam_DualityGap), r.gap, "duality gap");
  if (r.hasRel) sx_eq(i.get(SolverDoubleParam_RelativeDualityGap), r.rgap, "relative duality gap"); else sx_assert(i.get(SolverDoubleParam_RelativeDualityGap) == none, "no relative gap without sign information");
  sx_eq(i.get(SolverDoubleParam_PrimalResidual), r.pres, "primal residual"); sx_eq(i.get(SolverDoubleParam_DualResidual), r.dres, "dual residual");
  if (r.hasPinf) sx_eq(i.get(SolverDoubleParam_PrimalInfeasibility), r.pinf, "primal infeasibility measure"); else sx_assert(i.get(SolverDoubleParam_PrimalInfeasibility) == none, "no primal infeasibility measure without descent of b'y + h'z");
  if (r.hasDinf) sx_eq(i.get(SolverDoubleParam_DualInfeasibility), r.dinf, "dual infeasibility measure"); else sx_assert(i.get(SolverDoubleParam_DualInfeasibility) == none, "no dual infeasibility measure without descent of c'x");
}
static void tolerances(W& w, bool full, double& ft, double& at, double& rt) {
  ft = w.set.get(full ? SolverDoubleParam_FeasibilityTol : SolverDoubleParam_FeasibilityTolInacc); at = w.set.get(full ? SolverDoubleParam_DualityGapAbsTol : SolverDoubleParam_DualityGapAbsTolInacc); rt = w.set.get(full ? SolverDoubleParam_DualityGapRelTol : SolverDoubleParam_DualityGapRelTolInacc);
}
// a final status is backed by the recorded measures of the point it is reported for
static void backed(W& w, ExitCode e) {
  bool full = e == ExitCode::Optimal || e == ExitCode::PrimalInf || e == ExitCode::DualInf; double ft, at, rt; tolerances(w, full, ft, at, rt); auto& i = w.ip.getInfo();
  double gap = i.get(SolverDoubleParam_DualityGap), rg = i.get(SolverDoubleParam_RelativeDualityGap);
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    sx_assert(i.get(SolverDoubleParam_PrimalResidual) < ft, "optimal: primal residual within the tolerance"); sx_assert(i.get(SolverDoubleParam_DualResidual) < ft, "optimal: dual residual within the tolerance");
    sx_assert(sx_or(gap < at, rg < rt), "optimal: absolute or relative gap within the tolerance"); sx_reach(full ? "Optimal" : "OptimalInacc");
  } else if (e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc) { sx_assert(i.get(SolverDoubleParam_PrimalInfeasibility) < ft, "primal infeasible: measure within the tolerance"); sx_reach(full ? "PrimalInf" : "PrimalInfInacc"); }
  else if (e == ExitCode::DualInf || e == ExitCode::DualInfInacc) { sx_assert(i.get(SolverDoubleParam_DualInfeasibility) < ft, "dual infeasible: measure within the tolerance"); sx_reach(full ? "DualInf" : "DualInfInacc"); }
}
// any iterate: the recorded measures are those of the iterate
static void record(int n, int p, int l, std::vector<int> q) {
  W w; setup(w, n, p, l, q, false); OptimizationVector& o = w.ip.opt_; for (int i = 0; i < o.size(); i++) o[i] = sx_real(nm("o", i).c_str());
  sx_assume(sx_and(o.tau() > 0.0, o.kappa() > 0.0)); for (int i = 0; i < w.cone.sizeLpc(); i++) { sx_assume(o.s()[i] > 0.0); sx_assume(o.z()[i] > 0.0); }
  w.ip.inires_x_ = mx(1.0, norm(cc)); w.ip.inires_y_ = mx(1.0, norm(bb)); w.ip.inires_z_ = mx(1.0, norm(hh));
  sx_option("div0_exclude", 1); sx_option("no_branch_query", 1); sx_option("fork_select", 1);
  w.ip.computeResiduals(); w.ip.updateStatistics(); Stat r = stats(w, o.x(), o.y(), o.z(), o.s(), o.tau()); checkStats(w, r);
  sx_eq(w.ip.residual_t_, o.kappa() + dotp(cc, o.x()) + dotp(bb, o.y()) + dotp(hh, o.z()), "residual of the homogeneous row");
  Eigen::VectorXd rx = -mulT(A, o.y()) - mulT(G, o.z()) - o.tau() * cc, ry = mul(A, o.x()) - o.tau() * bb, rz = mul(G, o.x()) + o.s() - o.tau() * hh;
  for (int i = 0; i < n; i++) sx_eq(w.ip.res_.x()[i], rx[i], "dual residual vector"); for (int i = 0; i < p; i++) sx_eq(w.ip.res_.y()[i], ry[i], "equality residual vector"); for (int i = 0; i < w.cone.sizeCone(); i++) sx_eq(w.ip.res_.z()[i], rz[i], "inequality residual vector");
}
extern "C" void e_record_lp() { record(2, 0, 2, {}); }
extern "C" void e_record_eq() { record(2, 1, 1, {}); }
extern "C" void e_record_soc() { record(2, 0, 0, {3}); }
// any recorded measures: what the convergence check concludes from them
extern "C" void e_status() {
  W w; setup(w, 2, 0, 2, {}, false); auto& i = w.ip.getInfo(); double none = SolverSetting::nan; bool full = sx_choose("full", 0, 1);
  for (int k = SolverDoubleParam_DualCost; k <= SolverDoubleParam_PrimalInfeasibility; k++) i.get((SolverDoubleParam)k) = sx_real(nm("m", k).c_str());
  if (sx_choose("norel", 0, 1)) i.get(SolverDoubleParam_RelativeDualityGap) = none; if (sx_choose("nopinf", 0, 1)) i.get(SolverDoubleParam_PrimalInfeasibility) = none; if (sx_choose("nodinf", 0, 1)) i.get(SolverDoubleParam_DualInfeasibility) = none;
  w.ip.cx_ = sx_real("cx"); w.ip.by_ = sx_real("by"); w.ip.hz_ = sx_real("hz"); w.ip.opt_.tau() = sx_real("tau"); w.ip.opt_.kappa() = sx_real("kappa"); sx_assume(sx_and(w.ip.opt_.tau() > 0.0, w.ip.opt_.kappa() > 0.0));
  std::vector<double> o(w.ip.opt_.size()); for (size_t k = 0; k < o.size(); k++) o[k] = w.ip.opt_[k]; std::vector<double> b; for (int k = SolverDoubleParam_DualCost; k <= SolverDoubleParam_PrimalInfeasibility; k++) b.push_back(i.get((SolverDoubleParam)k));
  ExitCode e = w.ip.convergenceCheck(full ? PrecisionConvergence::Full : PrecisionConvergence::Reduced); backed(w, e);
  bool isFull = e == ExitCode::Optimal || e == ExitCode::PrimalInf || e == ExitCode::DualInf, isInacc = e == ExitCode::OptimalInacc || e == ExitCode::PrimalInfInacc || e == ExitCode::DualInfInacc;
  sx_assert(e == ExitCode::NotConverged || (full ? isFull : isInacc), "full and reduced accuracy are told apart");
  double ft, at, rt; tolerances(w, full, ft, at, rt); double tau = w.ip.opt_.tau(), kp = w.ip.opt_.kappa(), gap = b[SolverDoubleParam_DualityGap - SolverDoubleParam_DualCost];
  bool small = sx_and(i.get(SolverDoubleParam_PrimalResidual) < ft, sx_and(i.get(SolverDoubleParam_DualResidual) < ft, sx_and(gap < at, w.ip.cx_ < 0.0)));
  sx_assert(sx_imp(small, e == ExitCode::Optimal || e == ExitCode::OptimalInacc), "small residuals and gap at a negative cost are reported as optimal");
  bool inf = e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc, dinf = e == ExitCode::DualInf || e == ExitCode::DualInfInacc;
  if (inf || dinf) sx_assert(sx_or(tau < kp, sx_and(inf, sx_and(tau < ft, kp < ft))), "infeasibility needs a vanishing homogenising variable");
  for (size_t k = 0; k < o.size(); k++) sx_eq(w.ip.opt_[k], o[k], "the check leaves the iterate alone"); for (size_t k = 0; k < b.size(); k++) sx_eq(i.get((SolverDoubleParam)(SolverDoubleParam_DualCost + k)), b[k], "the check leaves the record alone");
}
// whole solver runs with the real linear solver on a fixed problem, for any tolerances: the returned point, its record and the status belong together
static void data(W& w, int k) {
  std::vector<int> q; int l = 2; if (k == 3) { q = {3}; l = 1; }
  setup(w, 2, k == 4 ? 1 : 0, l, q, false); int m = w.cone.sizeCone(); static const double GG[5][4][2] = {{{-1, 0}, {0, -1}}, {{1, 0}, {-1, 0}}, {{-1, 0}, {0, -1}}, {{1, 0}, {0, 0}, {-1, 0}, {0, -1}}, {{-1, 0}, {0, -1}}};
  static const double HH[5][4] = {{0, 1}, {-1, -1}, {0, 0}, {1, 1, 0, 0}, {0, 0}}, CC[5][2] = {{1, 1}, {1, 0}, {-1, 0}, {1, -1}, {1, 2}};
  for (int i = 0; i < m; i++) { for (int j = 0; j < 2; j++) { G(i, j) = GG[k][i][j]; w.sto.Gmatrix().coeffRef(i, j) = G(i, j); w.sto.Gtmatrix().coeffRef(j, i) = G(i, j); } w.sto.h()[i] = hh[i] = HH[k][i]; }
  for (int j = 0; j < 2; j++) w.sto.c()[j] = cc[j] = CC[k][j]; if (k == 4) { for (int j = 0; j < 2; j++) { A(0, j) = 1; w.sto.Amatrix().coeffRef(0, j) = 1; w.sto.Atmatrix().coeffRef(j, 0) = 1; } w.sto.b()[0] = bb[0] = 2; }
  w.ip.initialize(w.sto, w.cone, w.set);
}
static void run(int k) {
  W w; mode = 2; slack = 1e-9; data(w, k); static const int it[4] = {0, 1, 4, 60}; int iters = it[sx_choose("iters", 1, 3)]; w.set.set(SolverIntParam_SolverMaxIters, iters);
  const SolverDoubleParam tp[6] = {SolverDoubleParam_FeasibilityTol, SolverDoubleParam_DualityGapAbsTol, SolverDoubleParam_DualityGapRelTol, SolverDoubleParam_FeasibilityTolInacc, SolverDoubleParam_DualityGapAbsTolInacc, SolverDoubleParam_DualityGapRelTolInacc};
  double v[6]; for (int i = 0; i < 6; i++) { v[i] = sx_real(nm("tol", i).c_str()); sx_assume(sx_and(v[i] >= 1e-9, v[i] <= 1e3)); if (i >= 3) sx_assume(v[i] >= v[i - 3]); w.set.set(tp[i], v[i]); }
  failAt = sx_choose("fail", 0, 2) - 1; if (failAt == 1) failAt = 2;
  ExitCode e = w.ip.optimize(); sx_assert(e != ExitCode::NotConverged, "a final status is returned");
  if (e == ExitCode::Indeterminate || e == ExitCode::PrSlacksLeaveCone) { sx_assert(e == ExitCode::PrSlacksLeaveCone || failAt >= 0, "early exits only after a failed factorisation"); sx_reach("early exit"); return; }
  OptimizationVector& o = w.ip.opt_; double t = o.tau(); sx_assert(t > 0.0, "positive homogenising variable"); Eigen::VectorXd x = o.x() * t, y = o.y() * t, z = o.z() * t, s = o.s() * t;
  Stat r = stats(w, x, y, z, s, t); checkStats(w, r); backed(w, e);
  for (int i = 0; i < w.cone.sizeLpc(); i++) { sx_assert(o.s()[i] > -1e-12, "slacks in the cone"); sx_assert(o.z()[i] > -1e-12, "multipliers in the cone"); }
}
extern "C" void e_run_feasible() { run(0); }
extern "C" void e_run_infeasible() { run(1); }
extern "C" void e_run_unbounded() { run(2); }
extern "C" void e_run_soc() { run(3); }
extern "C" void e_run_eq() { run(4); }
// line search: any search direction
static int half = 0;   // 1, 2: the other direction is fixed
static void search(int l, std::vector<int> q, const std::vector<double>& lam, bool tk) {
  W w; setup(w, 2, 0, l, q, false); int m = w.cone.sizeCone(); Eigen::VectorXd ds(m), dz(m), la(m); sx_option("fork_select", 1);
  for (int i = 0; i < m; i++) { la[i] = lam.size() ? lam[i] : sx_real(nm("la", i).c_str()); if (!lam.size()) sx_assume(la[i] > 0.0); w.ip.lambda_[i] = la[i]; ds[i] = half == 1 || (half && !i) ? 0.5 - i : sx_real(nm("ds", i).c_str()); dz[i] = half == 2 || (half && !i) ? i - 1.0 : sx_real(nm("dz", i).c_str()); }
  double tau = 1, kappa = 2, dt = 0.5, dk = 0.25; if (tk) { tau = sx_real("tau"); kappa = sx_real("kappa"); dt = sx_real("dt"); dk = sx_real("dk"); sx_assume(sx_and(tau > 0.0, kappa > 0.0)); }
  double a = w.ip.lineSearch(ds, dz, tau, dt, kappa, dk), lo = w.set.get(SolverDoubleParam_MinimumStepLength), hi = w.set.get(SolverDoubleParam_MaximumStepLength);
  sx_assert(sx_and(a >= lo, a <= hi), "step length within its limits"); if (sx_branch(a <= lo)) { sx_reach("stagnation"); return; }
  sx_assert(tau + a * dt >= 0.0, "tau stays non-negative"); sx_assert(kappa + a * dk >= 0.0, "kappa stays non-negative");
  for (int i = 0; i < l; i++) { sx_assert(la[i] + a * ds[i] >= 0.0, "scaled slack stays in the linear cone"); sx_assert(la[i] + a * dz[i] >= 0.0, "scaled multiplier stays in the linear cone"); }
  for (int k = 0; k < w.cone.numSoc(); k++) for (int side = 0; side < 2; side++) { int st = w.cone.startSoc(k); const Eigen::VectorXd& d = side ? dz : ds; double v0 = la[st] + a * d[st], n2 = 0; for (int i = 1; i < w.cone.sizeSoc(k); i++) { double v = la[st + i] + a * d[st + i]; n2 += v * v; }
    sx_assert(v0 >= 0.0, "scaled point stays in the upper half of the second-order cone"); sx_assert(v0 * v0 >= n2, "scaled point stays in the second-order cone"); }
}
extern "C" void e_search_lp() { search(2, {}, {}, false); }
extern "C" void e_search_tau() { search(1, {}, {}, true); }
extern "C" void e_search_soc2() { if (sx_choose("pt", 0, 1)) search(0, {2}, {5, -3}, false); else search(0, {2}, {2, 0}, false); }
extern "C" void e_search_soc3() { half = 1 + sx_choose("side", 0, 1); search(1, {3}, {1, 3, 2, -2}, false); }
// one iteration with exact linear algebra: all residuals shrink by the same factor 1 - a (1 - sigma)
static void newton(bool sc) {
  W w; mode = 1; setup(w, 1, 0, 1, {}, false); w.set.set(SolverIntParam_SolverMaxIters, 1); w.sto.c()[0] = cc[0] = sc ? sx_real("c") : 1.5; if (sc) sx_assume(sx_and(cc[0] >= 1.0, cc[0] <= 2.0)); w.sto.h()[0] = hh[0] = sc ? 0.75 : sx_real("h");
  vx0 = Eigen::VectorXd::Constant(1, 0.5); vy0.resize(0); vs0 = Eigen::VectorXd::Constant(1, 2.0); vz0 = Eigen::VectorXd::Constant(1, 0.5); sx_option("fork_select", 1); sx_option("div0_exclude", 1);
  ExitCode e = w.ip.optimize(); (void)e; if (nsolve != 5) { sx_reach("stopped before the first step"); return; } sx_reach("one step");
  auto& i = w.ip.getInfo(); double a = i.get(SolverDoubleParam_StepLength), sg = i.get(SolverDoubleParam_CorrectionStepLength), f = 1 - a * (1 - sg);
  double rx = -G(0, 0) * vz0[0] - cc[0], rz = G(0, 0) * 0.5 + vs0[0] - hh[0], rt = 1.0 + cc[0] * 0.5 + hh[0] * vz0[0];
  sx_eq(w.ip.res_.x()[0], f * rx, "dual residual shrinks by the common factor"); sx_eq(w.ip.res_.z()[0], f * rz, "primal residual shrinks by the common factor"); sx_eq(w.ip.residual_t_, f * rt, "gap residual shrinks by the common factor");
}
extern "C" void e_newton_c() { newton(true); }
extern "C" void e_newton_h() { newton(false); }
