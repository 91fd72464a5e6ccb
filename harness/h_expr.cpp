// Variables and linear / quadratic expressions of the modelling interface.
#include "common.h"
#include <solver/interface/Model.hpp>
using namespace solver;

static const int NV = 3;
struct Vars { Model model; std::vector<Var> v; double val[NV]; };
static void mk(Vars& m) {
  for (int i = 0; i < NV; i++) {
    m.v.push_back(m.model.addVar(VarType::Continuous, -1.0, 1.0, 0.0));
    m.val[i] = sx_real(nm("x", i).c_str());
    m.v[i].set(SolverDoubleParam_X, m.val[i]);
  }
}
// affine value of an expression, computed by hand from its observable terms
static double evalTerms(const LinExpr& e) {
  double r = e.getConstant();
  for (int i = 0; i < (int)e.size(); i++) r += e.getCoeff(i) * e.getVar(i).get(SolverDoubleParam_X);
  return r;
}
struct E { LinExpr e; double val; };
static E mkExpr(Vars& m, const char* p, int n) {   // c + sum_k a_k x_{i_k}, i_k chosen (duplicates included)
  E r; r.e = LinExpr(sx_real(nm(p, 100).c_str())); r.val = r.e.getConstant();
  for (int k = 0; k < n; k++) {
    int id = sx_choose(nm(p, 200 + k).c_str(), 0, NV - 1);
    double a = sx_real(nm(p, k).c_str());
    LinExpr t(m.v[id], a);
    r.e += t;
    r.val += a * m.val[id];
  }
  return r;
}
static bool consistent(const LinExpr& e) {
  // each variable at most once, and getValue agrees with the terms
  for (int i = 0; i < (int)e.size(); i++)
    for (int j = 0; j < i; j++)
      if (e.getVar(i).get(SolverIntParam_ColNum) == e.getVar(j).get(SolverIntParam_ColNum)) return false;
  return true;
}
static void same(const LinExpr& e, double v, const char* l) { sx_eq(e.getValue(), v, l); sx_eq(evalTerms(e), v, l); }

extern "C" void e_linexpr_sum() {
  Vars m; mk(m);
  E a = mkExpr(m, "a", 2), b = mkExpr(m, "b", 1);
  same(a.e, a.val, "accumulated expression has the value of its terms");
  sx_assert(consistent(a.e), "each variable appears at most once after accumulation");
  same(a.e + b.e, a.val + b.val, "value(a+b) = value(a)+value(b)");
  same(a.e - b.e, a.val - b.val, "value(a-b) = value(a)-value(b)");
  LinExpr c = a.e; c += b.e; same(c, a.val + b.val, "a += b");
  sx_assert(consistent(c), "a += b merges terms of one variable");
  c = a.e; c -= b.e; same(c, a.val - b.val, "a -= b");
  same(a.e, a.val, "operands are left unchanged"); same(b.e, b.val, "operands are left unchanged");
}
extern "C" void e_linexpr_scale() {
  Vars m; mk(m);
  E a = mkExpr(m, "a", 2);
  double f = sx_real("f");
  same(a.e * f, a.val * f, "value(a*f) = f*value(a), also for f = 0");
  same(f * a.e, a.val * f, "f*a");
  LinExpr c = a.e; c *= f; same(c, a.val * f, "a *= f");
  c = a.e; c += f; same(c, a.val + f, "a += constant");
  c = a.e; c -= f; same(c, a.val - f, "a -= constant");
  same(a.e + f, a.val + f, "a + constant"); same(a.e - f, a.val - f, "a - constant");
  same(f + a.e, a.val + f, "constant + a"); same(f - a.e, f - a.val, "constant - a");
  same(-a.e, -a.val, "-a"); same(+a.e, a.val, "+a");
  sx_assume(f != 0.0);
  same(a.e / f, a.val / f, "a / f");
  c = a.e; c /= f; same(c, a.val / f, "a /= f");
}
extern "C" void e_linexpr_var() {
  Vars m; mk(m);
  double f = sx_real("f");
  int i = sx_choose("i", 0, NV - 1), j = sx_choose("j", 0, NV - 1);
  Var x = m.v[i], y = m.v[j]; double X = m.val[i], Y = m.val[j];
  same(x + y, X + Y, "var + var"); same(x - y, X - Y, "var - var");
  same(+x, X, "+var"); same(-x, -X, "-var");
  same(x * f, X * f, "var * c"); same(f * x, X * f, "c * var");
  same(x + f, X + f, "var + c"); same(f + x, X + f, "c + var"); same(x - f, X - f, "var - c"); same(f - x, f - X, "c - var");
  LinExpr e = LinExpr(y, f);
  same(e + x, f * Y + X, "expr + var"); same(e - x, f * Y - X, "expr - var"); same(x - e, X - f * Y, "var - expr");
  sx_assume(f != 0.0);
  same(x / f, X / f, "var / c");
}
extern "C" void e_linexpr_clean() {
  Vars m; mk(m);
  // raw expression with possibly repeated variables, through the public clean()
  LinExpr e(sx_real("c")); double v = e.getConstant();
  for (int k = 0; k < 3; k++) {
    int id = sx_choose(nm("i", k).c_str(), 0, NV - 1); double a = sx_real(nm("a", k).c_str());
    e += LinExpr(m.v[id], a); v += a * m.val[id];
  }
  LinExpr c = LinExpr::clean(e);
  same(c, v, "clean keeps the value"); sx_assert(consistent(c), "clean merges repeated variables");
  e.clear(); sx_assert(e.size() == 0, "clear removes the terms"); sx_eq(e.getValue(), 0.0, "cleared expression is zero");
}
extern "C" void e_linexpr_seq() {
  // histories of in-place operations
  Vars m; mk(m);
  LinExpr e; double v = 0.0;
  for (int k = 0; k < 3; k++) {
    int op = sx_choose(nm("op", k).c_str(), 0, 7); double a = sx_real(nm("p", k).c_str());
    switch (op) {
      case 0: e += LinExpr(m.v[k], a); v += a * m.val[k]; break;
      case 1: e -= LinExpr(m.v[0], a); v -= a * m.val[0]; break;
      case 2: e *= a; v *= a; break;
      case 3: e += a; v += a; break;
      case 4: e = e * a + LinExpr(m.v[1], 2.0); v = v * a + 2.0 * m.val[1]; break;
      case 5: e = a - e; v = a - v; break;
      case 6: e += e; v += v; break;
      default: e -= e; v = 0.0; break;
    }
  }
  same(e, v, "any sequence of operations keeps the affine value"); sx_assert(consistent(e), "no repeated variable after any sequence");
}
extern "C" void e_quadexpr() {
  Vars m; mk(m);
  DCPQuadExpr q; double v = 0.0; int n = 0;
  E l = mkExpr(m, "l", 1);
  for (int k = 0; k < 2; k++) {
    E a = mkExpr(m, k ? "b" : "a", 1); double c = sx_real(nm("c", k).c_str());
    q.addQuaTerm(c, a.e); v += c * a.val * a.val;
    sx_assert((int)q.qexpr().size() == (int)q.coeffs().size(), "one coefficient per squared term");
    if (c != 0.0) n++;
    sx_assert((int)q.coeffs().size() == n, "terms with coefficient zero are dropped, others kept");
  }
  q.addLinTerm(l.e); q.addLinTerm(l.e);
  sx_eq(q.getValue(), v, "quadratic value = sum c_i (a_i)^2");
  same(q.lexpr(), 2 * l.val, "linear part accumulates");
  q.clear();
  sx_assert(q.qexpr().empty() && q.coeffs().empty() && q.extraVars().empty() && q.lexpr().size() == 0, "clear empties the expression");
  sx_eq(q.getValue(), 0.0, "cleared quadratic expression is zero"); sx_eq(q.lexpr().getValue(), 0.0, "cleared linear part is zero");
}
extern "C" void e_var() {
  Model m;
  m.getSetting().set(SolverBoolParam_Verbose, bool(sx_choose("verbose",0,1)));
  int n = 0;
  for (int k = 0; k < 2; k++) {
    double lb = sx_real(nm("lb", k).c_str()), ub = sx_real(nm("ub", k).c_str()), g = sx_real(nm("g", k).c_str());
    bool bin = sx_choose(nm("bin", k).c_str(), 0, 1);
    bool thrown = false; Var v;
    int nb = m.getProblem().numBinaryVariables();
    try { v = m.addVar(bin ? VarType::Binary : VarType::Continuous, lb, ub, g); } catch (std::runtime_error&) { thrown = true; }
    sx_assert(thrown == (lb > ub), "a variable is rejected exactly when its lower bound exceeds its upper bound");
    sx_assert(m.getProblem().numBinaryVariables() == nb + (bin && !thrown), "binary variables are counted");
    if (thrown) continue;
    sx_assert(v.get(SolverIntParam_ColNum) == n, "columns are numbered in order of creation");
    n++;
    sx_eq(v.get(SolverDoubleParam_LB), lb, "lower bound stored"); sx_eq(v.get(SolverDoubleParam_UB), ub, "upper bound stored");
    double e = g < lb ? lb : (g > ub ? ub : g);
    sx_eq(v.get(SolverDoubleParam_Guess), e, "the initial guess is clamped to the bounds"); sx_eq(v.get(SolverDoubleParam_X), e, "the initial value is the clamped guess");
    // handles share their storage
    Var w = v; double x = sx_real(nm("nx", k).c_str());
    w.set(SolverDoubleParam_X, x); sx_eq(v.get(SolverDoubleParam_X), x, "copies of a variable share its value");
    sx_eq(v.get(SolverDoubleParam_Guess), e, "setting the value keeps the guess"); sx_eq(v.get(SolverDoubleParam_LB), lb, "setting the value keeps the bounds");
    w.set(SolverDoubleParam_LB, x); w.set(SolverDoubleParam_UB, x + 1.0); w.set(SolverDoubleParam_Guess, x + 0.5); w.set(SolverIntParam_ColNum, n - 1);
    sx_eq(v.get(SolverDoubleParam_LB), x, "set lower bound"); sx_eq(v.get(SolverDoubleParam_UB), x + 1.0, "set upper bound"); sx_eq(v.get(SolverDoubleParam_Guess), x + 0.5, "set guess"); sx_eq(v.get(SolverDoubleParam_X), x, "value kept");
  }
  Var empty; int nth = 0;
  try { empty.get(SolverDoubleParam_X); } catch (std::runtime_error&) { nth++; }
  try { empty.get(SolverIntParam_ColNum); } catch (std::runtime_error&) { nth++; }
  sx_assert(nth == 2, "reading an uninitialised variable throws");
}
