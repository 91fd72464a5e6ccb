// Translation of a modelled problem to the standard conic form  min c'x, Ax=b, Gx+s=h, s in K.
#include "solver_common.h"

static const int NU = 2;   // user variables
struct Lin { LinExpr e; double v; };
struct Ctx {
  bool nonzero = false;   // assume nonzero coefficients (fewer paths)
  Model model; std::vector<Var> u; double x[NU];
  std::vector<double> xs;   // full assignment, filled up to the number of columns
  Lin lin(const char* p, int n) {   // c + sum a_k x_{k}
    Lin r; double c = sx_real(nm(p, 9).c_str()); r.e = LinExpr(c); r.v = c;
    for (int k = 0; k < n; k++) { double a = sx_real(nm(p, k).c_str()); if (nonzero) sx_assume(a != 0.0); r.e += LinExpr(u[k], a); r.v += a * x[k]; }
    return r;
  }
  void init() {
    defaultSettings(model.getSetting());
    model.getSetting().set(SolverIntParam_EquilibrationIters, 0);
    for (int i = 0; i < NU; i++) { u.push_back(model.addVar(VarType::Continuous, -10.0, 10.0)); x[i] = sx_real(nm("x", i).c_str()); xs.push_back(x[i]); }
  }
  int ncols() { return model.getProblem().problemVariables().size(); }
  ConicProblem& P() { return model.getProblem(); }
  void build(int it = 1, bool warm = false) { P().buildProblem(it, warm); }
};
// slack h - Gx and equality residual Ax - b, from the matrices handed to the solver
struct Std { Eigen::VectorXd s, eq; double cost; };
static Std eval(Ctx& c, const std::vector<double>& x) {
  SolverStorage& st = c.P().getStorage();
  Std r; Eigen::MatrixXd G = Eigen::MatrixXd(st.Gmatrix()), A = Eigen::MatrixXd(st.Amatrix());
  r.s = st.h(); r.eq = -st.b(); r.cost = 0;
  for (int i = 0; i < G.rows(); i++) for (int j = 0; j < G.cols(); j++) r.s[i] -= G(i, j) * x[j];
  for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) r.eq[i] += A(i, j) * x[j];
  for (int j = 0; j < (int)x.size(); j++) r.cost += st.c()[j] * x[j];
  return r;
}
// membership of s in K, written without square roots (branch free)
static bool inCone(Ctx& c, const Eigen::VectorXd& s) {
  Cone& k = c.P().getCone(); bool in = true;
  for (int i = 0; i < k.sizeLpc(); i++) in = sx_and(in, s[i] >= 0.0);
  for (int l = 0; l < k.numSoc(); l++) {
    double n = 0; int o = k.startSoc(l);
    for (int j = 1; j < k.sizeSoc(l); j++) n += s[o + j] * s[o + j];
    in = sx_and(in, sx_and(s[o] >= 0.0, s[o] * s[o] >= n));
  }
  return in;
}
static bool zero(const Eigen::VectorXd& v) { bool z = true; for (int i = 0; i < v.size(); i++) z = sx_and(z, v[i] == 0.0); return z; }
static void sizes(Ctx& c) {
  SolverStorage& st = c.P().getStorage(); Cone& k = c.P().getCone();
  int n = k.sizeLpc(); for (int l = 0; l < k.numSoc(); l++) { sx_assert(k.startSoc(l) == n, "cones are stored one after another"); n += k.sizeSoc(l); }
  sx_assert(n == k.sizeCone() && st.Gmatrix().rows() == n && st.h().size() == n, "inequality rows match the cone sizes");
  sx_assert(st.Amatrix().rows() == k.numLeq() && st.b().size() == k.numLeq(), "equality rows match");
  sx_assert(k.numVars() == c.ncols() && st.Gmatrix().cols() == c.ncols() && st.Amatrix().cols() == c.ncols() && st.c().size() == c.ncols(), "one column per variable");
}

extern "C" void e_linear_rows() {
  Ctx c; c.init();
  const char* senses[3] = {"=", "<", ">"};
  bool feas = true;
  for (int k = 0; k < 2; k++) {
    Lin l = c.lin(k ? "b" : "a", 2), r = c.lin(k ? "d" : "r", 1);
    int s = sx_choose(nm("sense", k).c_str(), 0, 2);
    c.model.addLinConstr(l.e, senses[s], r.e);
    bool ok = s == 0 ? l.v == r.v : (s == 1 ? l.v <= r.v : l.v >= r.v);
    feas = sx_and(feas, ok);
  }
  c.build(); sizes(c);
  Std s = eval(c, c.xs);
  sx_assert(sx_iff(feas, sx_and(zero(s.eq), inCone(c, s.s))), "linear constraints: modelled feasible set = standard-form feasible set");
}
extern "C" void e_linear_const_row() {   // rows whose variables cancel out
  Ctx c; c.init();
  const char* senses[3] = {"=", "<", ">"};
  double a = sx_real("a"), k = sx_real("k"); int s = sx_choose("sense", 0, 2);
  Lin o = c.lin("o", 1); c.model.addLinConstr(o.e, "<", LinExpr(0.0));
  LinExpr l = LinExpr(c.u[0], a) + k, r = LinExpr(c.u[0], a);
  c.model.addLinConstr(l, senses[s], r);
  bool ok = s == 0 ? k == 0.0 : (s == 1 ? k <= 0.0 : k >= 0.0);
  c.build();
  Std t = eval(c, c.xs);
  sx_assert(sx_iff(sx_and(ok, o.v <= 0.0), sx_and(zero(t.eq), inCone(c, t.s))), "constant constraints are kept in the standard form");
}
extern "C" void e_objective() {
  Ctx c; c.init();
  DCPQuadExpr q; Lin a = c.lin("a", 2), b = c.lin("b", 1), l = c.lin("l", 2), m = c.lin("m", 1);
  double ca = sx_real("ca"), cb = sx_real("cb");
  sx_assume(sx_and(ca > 0.0, cb > 0.0));
  q.addQuaTerm(ca, a.e); q.addQuaTerm(cb, b.e); q.addLinTerm(l.e);
  c.model.setObjective(q, m.e);
  c.build(); sizes(c);
  double K = l.e.getConstant() + m.e.getConstant();
  double user = ca * a.v * a.v + cb * b.v * b.v + l.v + m.v - K;
  int n = c.ncols();
  sx_assert(n == NU + 2, "one auxiliary variable per squared term");
  std::vector<double> w = c.xs; w.push_back(a.v * a.v); w.push_back(b.v * b.v);
  Std s = eval(c, w);
  sx_assert(sx_and(inCone(c, s.s), zero(s.eq)), "every assignment of the user variables extends to a feasible point");
  sx_eq(s.cost, user, "the extension attains the modelled objective (up to its constant)");
  std::vector<double> t = c.xs; t.push_back(sx_real("t0")); t.push_back(sx_real("t1"));
  Std f = eval(c, t);
  sx_assert(sx_imp(inCone(c, f.s), f.cost >= user), "no feasible point has a cost below the modelled objective");
}
extern "C" void e_objective_replaced() {   // setting the objective again replaces the previous one
  Ctx c; c.init();
  int n0 = sx_choose("n0", 0, 1);
  { DCPQuadExpr q; Lin a = c.lin("p", 1); for (int i = 0; i <= n0; i++) q.addQuaTerm(1.0 + i, a.e); c.model.setObjective(q, a.e); }
  int before = c.ncols();
  DCPQuadExpr q; Lin a = c.lin("a", 2), m = c.lin("m", 1); double ca = sx_real("ca"); sx_assume(ca > 0.0);
  q.addQuaTerm(ca, a.e); c.model.setObjective(q, m.e);
  c.build();
  // any auxiliary variable may take any value; the cost must be minorised by the new objective and attain it
  std::vector<double> w = c.xs; int n = c.ncols();
  for (int i = NU; i < n; i++) w.push_back(i >= before ? a.v * a.v : sx_real(nm("t", i).c_str()));
  Std s = eval(c, w);
  double user = ca * a.v * a.v + m.v - m.e.getConstant();
  sx_eq(s.cost, user, "after a second setObjective only the new objective counts");
  for (int i = NU; i < n; i++) w[i] = i >= before ? sx_real(nm("q", i).c_str()) : w[i];
  Std f = eval(c, w);
  sx_assert(sx_imp(inCone(c, f.s), f.cost >= user), "no feasible point has a cost below the new objective");
}
extern "C" void e_quad_constr() {   // sum c_i q_i^2 + l <= r
  Ctx c; c.init();
  DCPQuadExpr q; Lin a = c.lin("a", 2), b = c.lin("b", 1), l = c.lin("l", 1), r = c.lin("r", 2);
  double ca = sx_real("ca"), cb = sx_real("cb"); sx_assume(sx_and(ca > 0.0, cb > 0.0));
  q.addQuaTerm(ca, a.e); q.addQuaTerm(cb, b.e); q.addLinTerm(l.e);
  c.model.addQuaConstr(q, "<", r.e);
  c.build(); sizes(c);
  bool user = ca * a.v * a.v + cb * b.v * b.v + l.v <= r.v;
  sx_assert(c.ncols() == NU + 2, "one auxiliary variable per squared term");
  std::vector<double> w = c.xs; w.push_back(a.v * a.v); w.push_back(b.v * b.v);
  sx_assert(sx_imp(user, inCone(c, eval(c, w).s)), "a point satisfying the quadratic constraint extends to a feasible point");
  std::vector<double> t = c.xs; t.push_back(sx_real("t0")); t.push_back(sx_real("t1"));
  sx_assert(sx_imp(inCone(c, eval(c, t).s), user), "every feasible point satisfies the quadratic constraint");
}
extern "C" void e_soc_constr() {   // || q || + l <= r
  Ctx c; c.init();
  DCPQuadExpr q; Lin a = c.lin("a", 2), b = c.lin("b", 1), l = c.lin("l", 1), r = c.lin("r", 2);
  q.addQuaTerm(1.0, a.e); q.addQuaTerm(1.0, b.e); q.addLinTerm(l.e);
  c.model.addSocConstr(q, "<", r.e);
  c.build(); sizes(c);
  double g = r.v - l.v;
  bool user = sx_and(g >= 0.0, a.v * a.v + b.v * b.v <= g * g);
  std::vector<double> w = c.xs; w.push_back(g);
  sx_assert(c.ncols() == NU + 1, "one auxiliary variable per cone constraint");
  sx_assert(sx_imp(user, inCone(c, eval(c, w).s)), "a point satisfying the cone constraint extends to a feasible point");
  std::vector<double> t = c.xs; t.push_back(sx_real("t0"));
  sx_assert(sx_imp(inCone(c, eval(c, t).s), user), "every feasible point satisfies the cone constraint");
}
extern "C" void e_mixed() {   // one of each kind: blocks do not overlap
  Ctx c; c.init(); c.nonzero = true;
  DCPQuadExpr qo, qq, qs, q2;
  Lin o = c.lin("o", 1), a = c.lin("a", 1), l = c.lin("l", 1), sa = c.lin("s", 1), sb = c.lin("z", 2), sl = c.lin("v", 1), e = c.lin("e", 2), i = c.lin("i", 2), b = c.lin("b", 1);
  int order = sx_choose("order", 0, 2);
  auto obj = [&]() { qo.addQuaTerm(2.0, o.e); c.model.setObjective(qo, l.e); };
  auto qua = [&]() { qq.addQuaTerm(3.0, a.e); c.model.addQuaConstr(qq, "<", l.e); q2.addQuaTerm(1.0, b.e); q2.addQuaTerm(2.0, o.e); c.model.addQuaConstr(q2, "<", e.e); };
  auto soc = [&]() { qs.addQuaTerm(1.0, sa.e); qs.addQuaTerm(1.0, sb.e); qs.addLinTerm(sl.e); c.model.addSocConstr(qs, "<", LinExpr(0.0)); };
  auto lin = [&]() { c.model.addLinConstr(e.e, "=", LinExpr(0.0)); c.model.addLinConstr(i.e, ">", e.e); };
  std::vector<double> w = c.xs, t = c.xs;
  auto ext = [&](double x) { w.push_back(x); t.push_back(sx_real(nm("t", t.size()).c_str())); };
  auto eo = [&]() { ext(o.v * o.v); }; auto eq = [&]() { ext(a.v * a.v); ext(b.v * b.v); ext(o.v * o.v); }; auto es = [&]() { ext(-sl.v); };
  if (order == 0) { obj(); eo(); lin(); qua(); eq(); soc(); es(); }
  else if (order == 1) { soc(); es(); qua(); eq(); obj(); eo(); lin(); }
  else { qua(); eq(); lin(); soc(); es(); obj(); eo(); }
  c.build(); sizes(c);
  bool uq = 3.0 * a.v * a.v <= l.v, uq2 = b.v * b.v + 2.0 * o.v * o.v <= e.v;
  bool us = sx_and(sl.v <= 0.0, sa.v * sa.v + sb.v * sb.v <= sl.v * sl.v), ul = e.v == 0.0, ui = i.v >= e.v;
  bool all = sx_and(sx_and(sx_and(uq, uq2), sx_and(us, ul)), ui);
  double cost = 2.0 * o.v * o.v + l.v - l.e.getConstant();
  Std s = eval(c, w);
  sx_assert(sx_imp(all, sx_and(zero(s.eq), inCone(c, s.s))), "a point satisfying all constraints extends to a feasible point");
  sx_eq(s.cost, cost, "objective of the extended point");
  Std f = eval(c, t);
  bool fin = sx_and(zero(f.eq), inCone(c, f.s));
  sx_assume(fin);
  sx_assert(uq, "feasible point satisfies the first quadratic constraint"); sx_assert(uq2, "feasible point satisfies the second quadratic constraint");
  sx_assert(us, "feasible point satisfies the cone constraint"); sx_assert(ul, "feasible point satisfies the equality"); sx_assert(ui, "feasible point satisfies the inequality");
  sx_assert(f.cost >= cost, "cost of a feasible point is at least the modelled cost");
}
extern "C" void e_trust_soft() {   // convexified non-convex constraints around the current point
  Ctx c; c.init();
  bool soft = sx_choose("soft", 0, 1), warm = sx_choose("warm", 0, 1); int iter = sx_choose("iter", 0, 2);
  double x0[NU]; for (int i = 0; i < NU; i++) { x0[i] = sx_real(nm("y", i).c_str()); c.u[i].set(SolverDoubleParam_X, x0[i]); }
  DCPQuadExpr q; Lin a = c.lin("a", 2), b = c.lin("b", 1), l = c.lin("l", 2), r = c.lin("r", 1);
  double ca = sx_real("ca"); sx_assume(ca > 0.0);
  q.addQuaTerm(ca, a.e); q.addQuaTerm(2.0, b.e); q.addLinTerm(l.e);
  c.model.addQuaConstr(q, "<", r.e, soft ? QuadConstrApprox::SoftConstraint : QuadConstrApprox::TrustRegion);
  sx_assert(c.P().numSoftConstraints() == (soft ? 1 : 0) && c.P().numTrustRegions() == (soft ? 0 : 1), "approximated constraints are counted");
  c.build(iter, warm); sizes(c);
  double a0 = a.e.getValue(), b0 = b.e.getValue();
  bool conv = ca * a.v * a.v + 2.0 * b.v * b.v + l.v <= r.v;
  // first-order model of the quadratic function around the current point
  double lin = ca * (a0 * a0 + 2 * a0 * (a.v - a0)) + 2.0 * (b0 * b0 + 2 * b0 * (b.v - b0)) + l.v - r.v;
  double thr = 1.0; for (int i = 0; i < iter; i++) thr *= 0.5;
  std::vector<double> w = c.xs, t = c.xs; w.push_back(a.v * a.v); w.push_back(b.v * b.v); t.push_back(sx_real("t0")); t.push_back(sx_real("t1"));
  if (soft) { w.push_back(lin * lin); t.push_back(sx_real("t2")); }
  sx_assert(c.ncols() == (int)w.size(), "auxiliary variables");
  Std s = eval(c, w), f = eval(c, t);
  bool user = (!soft && !warm) ? sx_and(conv, lin >= -thr) : conv;
  sx_assert(sx_imp(user, inCone(c, s.s)), "a point of the approximated constraint extends to a feasible point");
  sx_assert(sx_imp(inCone(c, f.s), conv), "every feasible point satisfies the convex side");
  if (!soft && !warm) sx_assert(sx_imp(inCone(c, f.s), lin >= -thr), "every feasible point stays inside the linearised trust region of the current iteration");
  double wgt = soft && !warm ? c.model.getSetting().get(SolverDoubleParam_SoftConstraintWeightReduced) : 0.0;
  sx_eq(s.cost, wgt * lin * lin, "soft constraint: the squared linearised violation is penalised with its weight");
  if (soft && !warm) sx_assert(sx_imp(inCone(c, f.s), f.cost >= wgt * lin * lin), "soft constraint: no feasible point is penalised less");
}
extern "C" void e_binaries() {   // relaxation rows of binary variables
  Ctx c; c.init();
  int nb = sx_choose("nb", 1, 2);
  double bv[2]; std::vector<Var> b;
  for (int i = 0; i < nb; i++) { b.push_back(c.model.addVar(VarType::Binary, 0.0, 1.0)); bv[i] = sx_real(nm("b", i).c_str()); c.xs.push_back(bv[i]); }
  double a0 = sx_real("a0"), a1 = sx_real("a1");
  LinExpr e = LinExpr(c.u[0], a0) + LinExpr(b[nb - 1], a1);
  c.model.addLinConstr(e, "<", LinExpr(1.0));
  c.build(); sizes(c);
  bool user = a0 * c.x[0] + a1 * bv[nb - 1] <= 1.0;
  for (int i = 0; i < nb; i++) user = sx_and(user, sx_and(bv[i] >= 0.0, bv[i] <= 1.0));
  sx_assert(c.P().numBinaryVariables() == nb, "binary variables are counted");
  sx_assert(sx_iff(user, inCone(c, eval(c, c.xs).s)), "binary variables are relaxed to [0,1]");
}
extern "C" void e_rejects() {   // invalid senses are rejected and leave the problem as it was
  Ctx c; c.init();
  DCPQuadExpr q; Lin a = c.lin("a", 2), l = c.lin("l", 1); q.addQuaTerm(1.0, a.e);
  c.model.addLinConstr(l.e, "<", LinExpr(0.0));
  const char* bad[4] = {">", "=", "<=", ""}; const char* badl[3] = {"<=", "", "=="};
  int kind = sx_choose("kind", 0, 2), s = sx_choose("sense", 0, 2); int n = c.ncols(); bool thrown = false;
  try {
    if (kind == 0) c.model.addQuaConstr(q, bad[s], l.e);
    else if (kind == 1) c.model.addSocConstr(q, bad[s], l.e);
    else c.model.addLinConstr(a.e, badl[s], l.e);
  } catch (std::runtime_error&) { thrown = true; }
  sx_assert(thrown, "an invalid sense is rejected");
  c.build();
  for (int i = NU; i < c.ncols(); i++) c.xs.push_back(sx_real(nm("t", i).c_str()));
  Std t = eval(c, c.xs);
  sx_assert(sx_iff(l.v <= 0.0, sx_and(zero(t.eq), inCone(c, t.s))), "a rejected constraint leaves the feasible set unchanged");
  c.model.clean();
  sx_assert(c.ncols() == 0 && c.P().numBinaryVariables() == 0 && c.P().numTrustRegions() == 0 && c.P().numSoftConstraints() == 0, "clean empties the problem");
}
extern "C" void e_mixed_approx() {   // binaries, trust region, soft constraint, plain quadratic, cone and objective together
  Ctx c; c.init(); c.nonzero = true;
  for (int i = 0; i < NU; i++) c.u[i].set(SolverDoubleParam_X, sx_real(nm("y", i).c_str()));
  Lin a = c.lin("a", 1), l = c.lin("l", 1), b = c.lin("b", 2), r = c.lin("r", 1), o = c.lin("o", 1), s = c.lin("s", 1), g = c.lin("g", 1);
  Var bin = c.model.addVar(VarType::Binary, 0.0, 1.0); double bv = sx_real("bv"); c.xs.push_back(bv);
  std::vector<double> w = c.xs, t = c.xs;
  auto ext = [&](double x) { w.push_back(x); t.push_back(sx_real(nm("t", t.size()).c_str())); };
  int order = sx_choose("order", 0, 1);
  DCPQuadExpr qt, qf, qp, qs, qo; double ca = 2.0, cb = 3.0;
  qt.addQuaTerm(ca, a.e); qf.addQuaTerm(cb, b.e); qp.addQuaTerm(1.0, o.e); qs.addQuaTerm(1.0, s.e); qo.addQuaTerm(5.0, g.e);
  double a0 = a.e.getValue(), b0 = b.e.getValue();
  double lt = ca * (a0 * a0 + 2 * a0 * (a.v - a0)) - l.v, ls = cb * (b0 * b0 + 2 * b0 * (b.v - b0)) - r.v;
  auto tr = [&]() { c.model.addQuaConstr(qt, "<", l.e, QuadConstrApprox::TrustRegion); ext(a.v * a.v); };
  auto sf = [&]() { c.model.addQuaConstr(qf, "<", r.e, QuadConstrApprox::SoftConstraint); ext(b.v * b.v); ext(ls * ls); };
  auto pl = [&]() { c.model.addQuaConstr(qp, "<", s.e); ext(o.v * o.v); };
  auto so = [&]() { c.model.addSocConstr(qs, "<", g.e); ext(g.v); };
  auto ob = [&]() { c.model.setObjective(qo, LinExpr(bin, 7.0)); ext(g.v * g.v); };
  if (order == 0) { tr(); sf(); pl(); so(); ob(); } else { ob(); so(); sf(); pl(); tr(); }
  c.model.addLinConstr(LinExpr(bin, 1.0), "<", g.e);
  c.build(1); sizes(c);
  bool ut = sx_and(ca * a.v * a.v <= l.v, lt >= -0.5), uf = cb * b.v * b.v <= r.v, up = o.v * o.v <= s.v, us = sx_and(g.v >= 0.0, s.v * s.v <= g.v * g.v), ub = sx_and(bv >= 0.0, bv <= 1.0), ul = bv <= g.v;
  double wgt = c.model.getSetting().get(SolverDoubleParam_SoftConstraintWeightReduced), cost = 5.0 * g.v * g.v + 7.0 * bv + wgt * ls * ls;
  Std e = eval(c, w), f = eval(c, t);
  sx_assert(sx_imp(sx_and(sx_and(sx_and(ut, uf), sx_and(up, us)), sx_and(ub, ul)), inCone(c, e.s)), "a point satisfying all constraints extends to a feasible point");
  sx_eq(e.cost, cost, "objective of the extended point");
  sx_assume(inCone(c, f.s));
  sx_assert(ut, "trust-region constraint"); sx_assert(uf, "soft constraint"); sx_assert(up, "plain quadratic constraint"); sx_assert(us, "cone constraint"); sx_assert(ub, "binary bounds"); sx_assert(ul, "linear constraint");
  sx_assert(f.cost >= cost, "cost of a feasible point is at least the modelled cost");
}
