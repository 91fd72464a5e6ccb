// Sparse LDL' factorisation, KKT assembly and solution, equilibration.
#include "solver_common.h"

// ---------------------------------------------------------------- sparse factorisation
struct Sym { int n; double a[5][5]; bool nz[5][5]; };
static Eigen::SparseMatrix<double> upper(const Sym& s) {
  std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < s.n; i++) for (int j = i; j < s.n; j++) if (s.nz[i][j]) t.push_back(Eigen::Triplet<double>(i, j, s.a[i][j]));
  Eigen::SparseMatrix<double> m(s.n, s.n); m.setFromTriplets(t.begin(), t.end()); m.makeCompressed(); return m;
}
// checks (A + E) x = b, E the diagonal correction of regularised pivots; returns nothing
static void factorAndSolve(Sym& s, const Eigen::VectorXd& sign, bool allowReg) {
  SolverSetting st; defaultSettings(st); double eps = st.get(SolverDoubleParam_DynamicRegularizationThresh), del = st.get(SolverDoubleParam_DynamicRegularization);
  int n = s.n; Eigen::VectorXd b(n), x(n), E = Eigen::VectorXd::Zero(n); for (int i = 0; i < n; i++) b[i] = sx_real(nm("b", i).c_str());
  Eigen::SparseMatrix<double> A = upper(s);
  // pivots from their definition
  double L[5][5] = {{0}}, D[5];
  for (int k = 0; k < n; k++) {
    double d = s.a[k][k];
    for (int j = 0; j < k; j++) { double y = s.a[j][k]; for (int i = 0; i < j; i++) y -= L[j][i] * L[k][i] * D[i]; L[k][j] = y / D[j]; d -= L[k][j] * L[k][j] * D[j]; }
    D[k] = d;
    if (!allowReg) sx_assume(sign[k] * d > eps); else if (sx_branch(sign[k] * d <= eps)) { D[k] = sign[k] * del; E[k] = D[k] - d; }
  }
  linalg::SparseCholesky ch; ch.analyzePattern(A, st);
  int twice = sx_choose("twice", 0, 1);
  for (int r = 0; r <= twice; r++) sx_assert(ch.factorize(A, sign) == n, "factorisation completes");
  ch.solve(b, x.data()); Eigen::VectorXd x2 = ch.solve(b);
  for (int i = 0; i < n; i++) { double r = E[i] * x[i]; for (int j = 0; j < n; j++) r += s.a[std::min(i, j)][std::max(i, j)] * x[j]; sx_eq(r, b[i], allowReg ? "(A + E) x = b, E = regularised pivots only" : "A x = b"); sx_eq(x2[i], x[i], "both solve functions agree"); }
}
static Sym full(int n) { Sym s; s.n = n; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { s.nz[i][j] = i < n && j < n; s.a[i][j] = 0; } for (int i = 0; i < n; i++) for (int j = i; j < n; j++) s.a[i][j] = sx_real(nm("a", i, j).c_str()); return s; }
extern "C" void e_ldl_dense2() { Sym s = full(2); Eigen::VectorXd g(2); for (int i = 0; i < 2; i++) g[i] = sx_choose(nm("sg", i).c_str(), 0, 1) ? 1.0 : -1.0; factorAndSolve(s, g, true); }
// Every symmetric matrix whose pivots all pass the threshold, with the given sparsity pattern: A = L D L', where the
// entries of L on the pattern and D are free and the entries outside it are the fill-in that makes A vanish there.
static Sym param(int n, const Eigen::VectorXd& g, bool (*nz)(int, int)) {
  Sym s; s.n = n; double L[5][5] = {{0}}, D[5]; double eps = 1e-13;
  for (int i = 0; i < n; i++) { D[i] = sx_real(nm("d", i).c_str()); sx_assume(g[i] * D[i] > eps); L[i][i] = 1; }
  for (int j = 0; j < n; j++) for (int i = j + 1; i < n; i++) {
    s.nz[j][i] = nz(j, i);
    if (s.nz[j][i]) L[i][j] = sx_real(nm("l", i, j).c_str()); else { double f = 0; for (int k = 0; k < j; k++) f -= L[i][k] * L[j][k] * D[k]; L[i][j] = f / D[j]; }
  }
  for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { double v = 0; for (int k = 0; k <= j; k++) v += L[i][k] * L[j][k] * D[k]; if (i == j) s.nz[j][j] = true; s.a[j][i] = s.nz[j][i] ? v : 0.0; }
  return s;
}
static void patternSolve(int n, bool (*nz)(int, int)) {
  Eigen::VectorXd g(n); for (int i = 0; i < n; i++) g[i] = i % 3 == 1 ? -1 : 1;
  Sym s = param(n, g, nz); SolverSetting st; defaultSettings(st); Eigen::VectorXd b(n), x(n); for (int i = 0; i < n; i++) b[i] = sx_real(nm("b", i).c_str());
  Eigen::SparseMatrix<double> A = upper(s); linalg::SparseCholesky ch; ch.analyzePattern(A, st);
  int twice = n < 5 ? sx_choose("twice", 0, 1) : 1; for (int r = 0; r <= twice; r++) sx_assert(ch.factorize(A, g) == n, "factorisation completes");
  ch.solve(b, x.data()); Eigen::VectorXd x2 = ch.solve(b);
  for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += s.a[std::min(i, j)][std::max(i, j)] * x[j]; sx_eq(r, b[i], "A x = b"); sx_eq(x2[i], x[i], "both solve functions agree"); }
}
static bool anyPattern(int i, int j) { return sx_choose(nm("p", i, j).c_str(), 0, 1); }
extern "C" void e_ldl_patterns3() { patternSolve(3, anyPattern); }
extern "C" void e_ldl_patterns4() { patternSolve(4, anyPattern); }
static int shape5;
static bool shapePattern(int i, int j) { switch (shape5) { case 0: return j == i + 1; case 1: return j == 4; case 2: return i == 0; case 3: return (i < 2) == (j < 2); case 4: return j == i + 1 || (i == 0 && j == 4); default: return true; } }
extern "C" void e_ldl_patterns5() { shape5 = sx_choose("shape", 0, 4); patternSolve(5, shapePattern); }   // chain, arrow, reverse arrow, two blocks, ring

// ---------------------------------------------------------------- KKT system
struct Prob { Cone cone; SolverSetting set; SolverStorage sto; LinSolver lin; Eigen::MatrixXd A, G; int n, p, m; };
// shape: variables, equalities, linear part, second-order cones; sparsity mask leaves structural zeros
static void mkProb(Prob& P, int which, bool symbolic, double reg) {
  static const int S[][3] = {{2, 1, 2}, {2, 1, 1}, {2, 0, 0}, {3, 1, 1}, {1, 0, 1}}; static const int Q[][2] = {{0, 0}, {3, 0}, {2, 3}, {2, 2}, {0, 0}};
  Eigen::VectorXi q; int nq = (Q[which][0] > 0) + (Q[which][1] > 0); q.resize(nq); for (int i = 0; i < nq; i++) q[i] = Q[which][i];
  defaultSettings(P.set); P.set.set(SolverDoubleParam_StaticRegularization, reg); P.set.set(SolverIntParam_EquilibrationIters, 0);
  P.cone.initialize(S[which][0], S[which][1], S[which][2], q);
  P.n = P.cone.numVars(); P.p = P.cone.numLeq(); P.m = P.cone.sizeCone();
  P.sto.initialize(P.cone, P.set); P.A = Eigen::MatrixXd::Zero(P.p, P.n); P.G = Eigen::MatrixXd::Zero(P.m, P.n);
  static const double V[7] = {1, -2, 0.5, 3, -1, 0.25, 2}; int k = 0;
  for (int i = 0; i < P.p; i++) for (int j = 0; j < P.n; j++) if ((i + 2 * j) % 4 != 3) { P.A(i, j) = symbolic ? sx_real(nm("A", i, j).c_str()) : V[(k++) % 7]; P.sto.addCoeff(Eigen::Triplet<double>(i, j, P.A(i, j)), true); }
  for (int i = 0; i < P.m; i++) for (int j = 0; j < P.n; j++) if ((i + j) % 3 != 2) { P.G(i, j) = symbolic ? sx_real(nm("G", i, j).c_str()) : V[(k++) % 7]; P.sto.addCoeff(Eigen::Triplet<double>(i, j, P.G(i, j)), false); }
  P.sto.initializeMatrices();
  P.sto.Atmatrix() = P.sto.Amatrix().transpose(); P.sto.Gtmatrix() = P.sto.Gmatrix().transpose();
}
static void symScalings(Prob& P) {
  for (int i = 0; i < P.cone.sizeLpc(); i++) P.cone.sqScalingLpc(i) = sx_real(nm("wl", i).c_str());
  for (int l = 0; l < P.cone.numSoc(); l++) { auto& c = P.cone.soc(l); c.etaSquare() = sx_real(nm("eta", l).c_str()); c.d1() = sx_real(nm("d1", l).c_str()); c.u0() = sx_real(nm("u0", l).c_str()); c.u1() = sx_real(nm("u1", l).c_str()); c.v1() = sx_real(nm("v1", l).c_str()); for (int i = 0; i < P.cone.sizeSoc(l); i++) c.scalingSoc(i) = sx_real(nm("w", l, i).c_str()); }
}
// expected matrix in the original order, extended by two rows per second-order cone
static Eigen::MatrixXd kktRef(Prob& P, double reg, bool init) {
  int N = P.cone.extSizeProb(); Eigen::MatrixXd K = Eigen::MatrixXd::Zero(N, N);
  for (int i = 0; i < P.n; i++) K(i, i) = reg; for (int i = 0; i < P.p; i++) { K(P.n + i, P.n + i) = -reg; for (int j = 0; j < P.n; j++) K(j, P.n + i) = P.A(i, j); }
  int o = P.n + P.p;
  for (int i = 0; i < P.cone.sizeLpc(); i++) { for (int j = 0; j < P.n; j++) K(j, o + i) = P.G(i, j); K(o + i, o + i) = init ? -1.0 : -P.cone.sqScalingLpc(i) - reg; }
  for (int l = 0; l < P.cone.numSoc(); l++) {
    int s = P.cone.startSoc(l), e = o + s + 2 * l, c = P.cone.sizeSoc(l); auto& k = P.cone.soc(l); double h = init ? 1.0 : k.etaSquare();
    for (int i = 0; i < c; i++) { for (int j = 0; j < P.n; j++) K(j, e + i) = P.G(s + i, j); K(e + i, e + i) = init ? -1.0 : -h * (i ? 1.0 : k.d1()) - reg; }
    K(e + c, e + c) = -h; K(e + c + 1, e + c + 1) = init ? 1.0 : h + reg;
    if (!init) { K(e, e + c + 1) = -h * k.u0(); for (int i = 1; i < c; i++) { K(e + i, e + c) = -h * k.v1() * k.scalingSoc(i); K(e + i, e + c + 1) = -h * k.u1() * k.scalingSoc(i); } }
  }
  for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) K(i, j) = K(j, i);
  return K;
}
static void compareKkt(Prob& P, const Eigen::MatrixXd& K, const char* l) {
  int N = P.cone.extSizeProb(); Eigen::MatrixXd M = Eigen::MatrixXd::Zero(N, N); bool lower = false;
  for (int j = 0; j < N; j++) for (Eigen::SparseMatrix<double>::InnerIterator it(P.lin.permKkt_, j); it; ++it) { if (it.row() > it.col()) lower = true; M(it.row(), it.col()) = it.value(); }
  sx_assert(!lower, "only the upper triangle is stored");
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) sx_eq(M(i, j), K(P.lin.perm(i), P.lin.perm(j)), l);
}
extern "C" void e_kkt_matrix() {
  Prob P; double reg = sx_real("reg"); sx_assume(reg > 0.0); mkProb(P, sx_choose("shape", 0, 4), true, reg); symScalings(P);
  P.lin.initialize(P.cone, P.set, P.sto);
  std::vector<int> seen(P.cone.extSizeProb(), 0); for (int i = 0; i < P.cone.extSizeProb(); i++) { seen[P.lin.perm(i)]++; sx_assert(P.lin.invPerm(P.lin.perm(i)) == i, "permutation and its inverse"); }
  for (int v : seen) sx_assert(v == 1, "ordering is a permutation");
  P.lin.initializeMatrix(); compareKkt(P, kktRef(P, reg, true), "initial KKT matrix");
  P.lin.updateMatrix(); compareKkt(P, kktRef(P, reg, false), "KKT matrix after a scaling update");
  symScalings(P); P.lin.updateMatrix(); compareKkt(P, kktRef(P, reg, false), "KKT matrix after a second scaling update");
  P.lin.initializeMatrix(); compareKkt(P, kktRef(P, reg, true), "KKT matrix reset to its initial value");
}
static void rhs(Prob& P, Eigen::VectorXd& b, ExtendedVector& pb, double box) {
  int N = P.cone.extSizeProb(); b.resize(P.n + P.p + P.m); pb.initialize(P.cone); Eigen::VectorXd e = Eigen::VectorXd::Zero(N);
  for (int i = 0; i < b.size(); i++) { b[i] = sx_real(nm("b", i).c_str()); if (box > 0) sx_assume(sx_and(b[i] <= box, b[i] >= -box)); }
  for (int i = 0; i < P.n + P.p + P.cone.sizeLpc(); i++) e[i] = b[i];
  for (int l = 0; l < P.cone.numSoc(); l++) for (int i = 0; i < P.cone.sizeSoc(l); i++) e[P.cone.extStartSoc(l) + i] = b[P.n + P.p + P.cone.startSoc(l) + i];
  for (int i = 0; i < N; i++) pb[P.lin.invPerm(i)] = e[i];
}
static void residual(Prob& P, const Eigen::VectorXd& b, OptimizationVector& d, bool init, double reg, double tol) {
  Eigen::VectorXd x = d.x(), y = d.y(), z = d.z(), wz(P.m), wwz(P.m);
  if (init) wwz = z; else { P.cone.conicNTScaling(z, wz); P.cone.conicNTScaling(wz, wwz); }
  for (int j = 0; j < P.n; j++) { double r = reg * x[j]; for (int i = 0; i < P.p; i++) r += P.A(i, j) * y[i]; for (int i = 0; i < P.m; i++) r += P.G(i, j) * z[i]; sx_eq_tol(r, b[j], tol, "A'dy + G'dz = b_x"); }
  for (int i = 0; i < P.p; i++) { double r = -reg * y[i]; for (int j = 0; j < P.n; j++) r += P.A(i, j) * x[j]; sx_eq_tol(r, b[P.n + i], tol, "A dx = b_y"); }
  for (int i = 0; i < P.m; i++) { double r = -wwz[i] - (init ? 0.0 : reg) * z[i]; for (int j = 0; j < P.n; j++) r += P.G(i, j) * x[j]; sx_eq_tol(r, b[P.n + P.p + i], tol, "G dx - W^2 dz = b_z"); }
}
extern "C" void e_solve_lp() {   // exact: linear cones, symbolic data, no pivot regularised
  sx_option("guard_const", 1e-13);
  Prob P; int sh = sx_choose("shape", 0, 1) ? 4 : 0; double reg = sx_real("reg"); sx_assume(sx_and(reg >= 1e-9, reg <= 1.0)); mkProb(P, sh, sh == 4, reg);
  bool init = sx_choose("init", 0, 1); P.set.set(SolverIntParam_NumIterRefinementsLinSolve, init ? 0 : sx_choose("refine", 0, 2));
  Eigen::VectorXd s(P.m), z(P.m), lam(P.m); for (int i = 0; i < P.m; i++) { s[i] = sx_real(nm("s", i).c_str()); z[i] = 1.0 + i; sx_assume(s[i] > 1e-3); } P.cone.updateNTScalings(s, z, lam);
  P.lin.initialize(P.cone, P.set, P.sto); if (init) P.lin.initializeMatrix(); else P.lin.updateMatrix();
  sx_assert(P.lin.numericFactorization() == FactStatus::Optimal, "factorisation succeeds");
  Eigen::VectorXd b; ExtendedVector pb; rhs(P, b, pb, 0); OptimizationVector d; d.initialize(P.cone);
  P.lin.solve(pb, d, init); residual(P, b, d, init, reg, 1e-6);
}
extern "C" void e_solve_soc() {   // second-order cones: fixed data, every right-hand side, default regularisation
  sx_option("lin_round", 1);
  Prob P; int sh = sx_choose("shape", 1, 3); mkProb(P, sh, false, 7e-8); bool init = sx_choose("init", 0, 1);
  P.set.set(SolverIntParam_NumIterRefinementsLinSolve, sx_choose("refine", 0, 1));
  Eigen::VectorXd s(P.m), z(P.m), lam(P.m); for (int i = 0; i < P.m; i++) { s[i] = 0.25 * (1 + i % 3); z[i] = -0.5 + 0.25 * i; }
  for (int i = 0; i < P.cone.sizeLpc(); i++) { s[i] = 2; z[i] = 0.5; } for (int l = 0; l < P.cone.numSoc(); l++) { s[P.cone.startSoc(l)] = 3 + l; z[P.cone.startSoc(l)] = 2; }
  sx_assert(P.cone.updateNTScalings(s, z, lam) == ConeStatus::Inside, "interior point");
  P.lin.initialize(P.cone, P.set, P.sto); if (init) P.lin.initializeMatrix(); else P.lin.updateMatrix();
  sx_assert(P.lin.numericFactorization() == FactStatus::Optimal, "factorisation succeeds");
  Eigen::VectorXd b; ExtendedVector pb; rhs(P, b, pb, 1.0); OptimizationVector d; d.initialize(P.cone);
  P.lin.solve(pb, d, init); residual(P, b, d, init, 0.0, 1e-4);
}

// ---------------------------------------------------------------- equilibration
static void equil(int which, int iters) {
  Prob P; mkProb(P, which, true, 1e-8); P.set.set(SolverIntParam_EquilibrationIters, iters);
  for (int i = 0; i < P.p; i++) for (int j = 0; j < P.n; j++) if ((i + 2 * j) % 4 != 3) sx_assume(P.A(i, j) != 0.0);
  Eigen::MatrixXd A = P.A, G = P.G; Eigen::VectorXd c(P.n), b(P.p), h(P.m);
  for (int i = 0; i < P.n; i++) P.sto.c()[i] = c[i] = sx_real(nm("c", i).c_str()); for (int i = 0; i < P.p; i++) P.sto.b()[i] = b[i] = sx_real(nm("bb", i).c_str()); for (int i = 0; i < P.m; i++) P.sto.h()[i] = h[i] = sx_real(nm("h", i).c_str());
  EqRoutine eq; eq.setEquilibration(P.cone, P.set, P.sto);
  Eigen::VectorXd ex = eq.equilVec().x(), ey = eq.equilVec().y(), ez = eq.equilVec().z();
  bool pos = true; for (int i = 0; i < P.n; i++) pos = sx_and(pos, ex[i] > 0.0); for (int i = 0; i < P.p; i++) pos = sx_and(pos, ey[i] > 0.0); for (int i = 0; i < P.m; i++) pos = sx_and(pos, ez[i] > 0.0);
  sx_assert(pos, "scaling factors are positive");
  for (int l = 0; l < P.cone.numSoc(); l++) for (int j = 1; j < P.cone.sizeSoc(l); j++) sx_eq(ez[P.cone.startSoc(l) + j], ez[P.cone.startSoc(l)], "one factor per second-order cone");
  Eigen::MatrixXd As = Eigen::MatrixXd(P.sto.Amatrix()), Gs = Eigen::MatrixXd(P.sto.Gmatrix()); Eigen::VectorXd cs = P.sto.c(), bs = P.sto.b(), hs = P.sto.h();
  for (int i = 0; i < P.p; i++) for (int j = 0; j < P.n; j++) sx_eq(As(i, j) * ey[i] * ex[j], A(i, j), "A is scaled by rows and columns");
  for (int i = 0; i < P.m; i++) for (int j = 0; j < P.n; j++) sx_eq(Gs(i, j) * ez[i] * ex[j], G(i, j), "G is scaled by rows and columns");
  for (int i = 0; i < P.n; i++) sx_eq(cs[i] * ex[i], c[i], "cost is scaled"); for (int i = 0; i < P.p; i++) sx_eq(bs[i] * ey[i], b[i], "right-hand side is scaled"); for (int i = 0; i < P.m; i++) sx_eq(hs[i] * ez[i], h[i], "right-hand side is scaled");
  eq.unsetEquilibration(P.sto);
  As = Eigen::MatrixXd(P.sto.Amatrix()); Gs = Eigen::MatrixXd(P.sto.Gmatrix());
  for (int i = 0; i < P.p; i++) for (int j = 0; j < P.n; j++) sx_eq(As(i, j), A(i, j), "removing the scaling restores the data"); for (int i = 0; i < P.m; i++) for (int j = 0; j < P.n; j++) sx_eq(Gs(i, j), G(i, j), "removing the scaling restores the data");
  for (int i = 0; i < P.n; i++) sx_eq(P.sto.c()[i], c[i], "removing the scaling restores the data"); for (int i = 0; i < P.p; i++) sx_eq(P.sto.b()[i], b[i], "removing the scaling restores the data"); for (int i = 0; i < P.m; i++) sx_eq(P.sto.h()[i], h[i], "removing the scaling restores the data");
}
extern "C" void e_equil_lp() { equil(4, sx_choose("iters", 0, 2)); }
extern "C" void e_equil_soc() { equil(2, 1); }
extern "C" void e_equil_mixed() { equil(1, 1); }
// scaled solution -> solution of the original problem, for any positive scaling that is uniform on each cone
extern "C" void e_unscale() {
  Prob P; mkProb(P, sx_choose("shape", 0, 3), true, 1e-8); EqRoutine eq; eq.setEquilibration(P.cone, P.set, P.sto);   // zero iterations: all factors one
  OptimizationVector o; o.initialize(P.cone); int N = o.size(); Eigen::VectorXd v(N);
  for (int i = 0; i < N; i++) o[i] = v[i] = sx_real(nm("v", i).c_str());
  double tau = o.tau(); sx_assume(tau > 0.0);
  for (int i = 0; i < P.n + P.p + P.cone.sizeLpc(); i++) { eq.equilVec()[i] = sx_real(nm("e", i).c_str()); sx_assume(eq.equilVec()[i] > 0.0); }
  for (int l = 0; l < P.cone.numSoc(); l++) { double e = sx_real(nm("es", l).c_str()); sx_assume(e > 0.0); eq.equilVec().zSoc(l).setConstant(e); }
  Eigen::VectorXd ex = eq.equilVec().x(), ey = eq.equilVec().y(), ez = eq.equilVec().z(), x = o.x(), y = o.y(), z = o.z(), s = o.s();
  eq.scaleVariables(o);
  // P.A, P.G now play the scaled matrices; original ones are A_ij * ey_i * ex_j
  for (int i = 0; i < P.p; i++) { double r = 0, q = 0; for (int j = 0; j < P.n; j++) { r += P.A(i, j) * ey[i] * ex[j] * o.x()[j]; q += P.A(i, j) * x[j]; } sx_eq(r * tau, ey[i] * q, "equality residuals scale back"); }
  for (int i = 0; i < P.m; i++) { double r = o.s()[i], q = s[i]; for (int j = 0; j < P.n; j++) { r += P.G(i, j) * ez[i] * ex[j] * o.x()[j]; q += P.G(i, j) * x[j]; } sx_eq(r * tau, ez[i] * q, "inequality residuals scale back"); }
  for (int j = 0; j < P.n; j++) { double r = 0, q = 0; for (int i = 0; i < P.p; i++) { r += P.A(i, j) * ey[i] * ex[j] * o.y()[i]; q += P.A(i, j) * y[i]; } for (int i = 0; i < P.m; i++) { r += P.G(i, j) * ez[i] * ex[j] * o.z()[i]; q += P.G(i, j) * z[i]; } sx_eq(r * tau, ex[j] * q, "dual residuals scale back"); }
  double g0 = 0, g1 = 0; for (int i = 0; i < P.m; i++) { g0 += s[i] * z[i]; g1 += o.s()[i] * o.z()[i]; } sx_eq(g1 * tau * tau, g0, "the duality gap scales back");
}
