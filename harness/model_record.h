// Recording of what a planner hands to the solver model (second-order cones and quadratic constraints included); the solve itself is a hook.
#pragma once
static void solverFile(const char* f) {
  YAML::Node n = YAML::file(f)["solver_variables"]; for (const char* k : {"BnB_verbose", "verbose"}) n[k] = false; n["BnB_max_iterations"] = 10; n["equil_iterations"] = 3; n["num_iter_ref_lin_solve"] = 9; n["max_iters"] = 100; n["ipsolver_max_iters"] = 100; n["ipsolver_warm_iters"] = 0; n["num_itrefs_trustregion"] = 0;
  const char* kd[] = {"BnB_integer_tolerance", "BnB_absolute_suboptimality_gap", "BnB_relative_suboptimality_gap", "feasibility_tolerance", "feasibility_tolerance_inaccurate", "absolute_suboptimality_gap", "relative_suboptimality_gap", "absolute_suboptimality_gap_inaccurate", "relative_suboptimality_gap_inaccurate", "dyn_reg_thresh", "lin_sys_accuracy", "err_reduction_factor", "static_regularization", "dynamic_regularization", "safeguard", "min_step_length", "max_step_length", "min_centering_step", "max_centering_step", "step_length_scaling", "trust_region_threshold", "soft_constraint_weight_full", "soft_constraint_weight_reduced"}; double vd[] = {1e-4, 1e-3, 1e-6, 1e-8, 1e-4, 1e-8, 1e-8, 5e-5, 5e-5, 1e-13, 1e-14, 6, 7e-8, 2e-7, 500, 1e-6, 0.999, 1e-4, 1, 0.99, 0.001, 1e4, 8}; for (int i = 0; i < 23; i++) n[kd[i]] = vd[i];
}
// ---- what is added to the model is recorded; the solve returns any chosen point
struct Rec { int kind; LinExpr e; DCPQuadExpr q; bool ge; solver::QuadConstrApprox approx; };   // 0 linear equality, 1 linear inequality, 2 second-order cone, 3 quadratic
static std::vector<Rec> recs; static DCPQuadExpr costQ; static LinExpr costL; static int costSet; static std::function<solver::ExitCode()> hook;
#define CC2(a, b) a##b
#define CC(a, b) CC2(a, b)
#define FL _ZN6solver12ConicProblem12addLinConstrERKNS_7LinExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES3_
#define FS _ZN6solver12ConicProblem12addSocConstrERKNS_11DCPQuadExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_7LinExprE
#define FQ _ZN6solver12ConicProblem12addQuaConstrERKNS_11DCPQuadExprENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_7LinExprERKNS_16QuadConstrApproxE
#define FO _ZN6solver12ConicProblem12setObjectiveERKNS_11DCPQuadExprERKNS_7LinExprE
#define FM _ZN6solver5Model8optimizeEv
static Rec rec(int k, const LinExpr& e, bool ge) { Rec r; r.kind = k; r.e = e; r.ge = ge; r.approx = solver::QuadConstrApprox::None; return r; }
extern "C" {
void CC(__wrap_, FL)(solver::ConicProblem*, const LinExpr& l, std::string s, const LinExpr& r) { sx_assert(s == "=" || s == "<" || s == ">", "known constraint sense"); recs.push_back(rec(s == "=" ? 0 : 1, l - r, s == ">")); }
void CC(__wrap_, FS)(solver::ConicProblem*, const DCPQuadExpr& q, std::string s, const LinExpr& l) { sx_assert(s == "<", "second-order cone sense"); recs.push_back(rec(2, l, false)); recs.back().q = q; }
void CC(__wrap_, FQ)(solver::ConicProblem*, const DCPQuadExpr& q, std::string s, const LinExpr& l, const solver::QuadConstrApprox& a) { sx_assert(s == "<", "quadratic constraint sense"); recs.push_back(rec(3, l, false)); recs.back().q = q; recs.back().approx = a; }
void CC(__wrap_, FO)(solver::ConicProblem*, const DCPQuadExpr& q, const LinExpr& l) { costQ = q; costL = l; costSet++; }
solver::ExitCode CC(__wrap_, FM)(solver::Model*) { return hook(); }
}
static double ev(const LinExpr& e) { double r = e.getConstant(); for (size_t i = 0; i < e.size(); i++) r += e.getCoeff(i) * e.getVar(i).get(solver::SolverDoubleParam_X); return r; }
static double evq(const DCPQuadExpr& q) { double r = ev(q.lexpr()); for (size_t i = 0; i < q.qexpr().size(); i++) { double e = ev(q.qexpr()[i]); r += q.coeffs()[i] * e * e; } return r; }
