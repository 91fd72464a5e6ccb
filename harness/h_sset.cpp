// Solver settings: every key of the file ends in the parameter of that name, writing one changes no other, unknown parameters are refused.
#include "common.h"
#include <yaml-cpp/yaml.h>
#include <solver/interface/SolverSetting.hpp>
using namespace solver;
struct D { const char* key; SolverDoubleParam p; }; struct I { const char* key; SolverIntParam p; }; struct B { const char* key; SolverBoolParam p; };
#define SD(x) SolverDoubleParam_##x
#define SI(x) SolverIntParam_##x
static const D doubles[] = {
 {"BnB_integer_tolerance", SD(BnBIntegerTol)}, {"BnB_absolute_suboptimality_gap", SD(BnBAbsSubOptGap)}, {"BnB_relative_suboptimality_gap", SD(BnBRelSubOptGap)},
 {"feasibility_tolerance", SD(FeasibilityTol)}, {"absolute_suboptimality_gap", SD(DualityGapAbsTol)}, {"relative_suboptimality_gap", SD(DualityGapRelTol)},
 {"feasibility_tolerance_inaccurate", SD(FeasibilityTolInacc)}, {"absolute_suboptimality_gap_inaccurate", SD(DualityGapAbsTolInacc)}, {"relative_suboptimality_gap_inaccurate", SD(DualityGapRelTolInacc)},
 {"dyn_reg_thresh", SD(DynamicRegularizationThresh)}, {"lin_sys_accuracy", SD(LinearSystemAccuracy)}, {"err_reduction_factor", SD(ErrorReductionFactor)}, {"static_regularization", SD(StaticRegularization)}, {"dynamic_regularization", SD(DynamicRegularization)},
 {"safeguard", SD(SafeGuard)}, {"min_step_length", SD(MinimumStepLength)}, {"max_step_length", SD(MaximumStepLength)}, {"min_centering_step", SD(MinimumCenteringStep)}, {"max_centering_step", SD(MaximumCenteringStep)}, {"step_length_scaling", SD(StepLengthScaling)},
 {"trust_region_threshold", SD(TrustRegionThreshold)}, {"soft_constraint_weight_full", SD(SoftConstraintWeightFull)}, {"soft_constraint_weight_reduced", SD(SoftConstraintWeightReduced)}};
static const I ints[] = {{"BnB_max_iterations", SI(BnBMaxIters)}, {"equil_iterations", SI(EquilibrationIters)}, {"num_iter_ref_lin_solve", SI(NumIterRefinementsLinSolve)}, {"max_iters", SI(MaxIters)}, {"ipsolver_max_iters", SI(SolverMaxIters)}, {"ipsolver_warm_iters", SI(WarmStartIters)}, {"num_itrefs_trustregion", SI(NumberRefinementsTrustRegion)}};
static const B bools[] = {{"BnB_verbose", SolverBoolParam_BnBVerbose}, {"verbose", SolverBoolParam_Verbose}};
struct All { std::vector<double> d; std::vector<int> i; std::vector<bool> b; };
static All fresh(const std::string& t, int flag) { All a; for (auto& e : doubles) a.d.push_back(sx_real((t + e.key).c_str())); int k0 = t.empty() ? 11 : 40 + t.size(); for (auto& e : ints) { (void)e; a.i.push_back(k0++); } for (int k = 0; k < 2; k++) a.b.push_back(flag >> k & 1); return a; }
static void write(YAML::Node n, const All& a) { int k = 0; for (auto& e : doubles) n[e.key] = a.d[k++]; k = 0; for (auto& e : ints) n[e.key] = a.i[k++]; k = 0; for (auto& e : bools) n[e.key] = bool(a.b[k++]); }
static void same(const SolverSetting& s, const All& a) { int k = 0; for (auto& e : doubles) sx_eq(s.get(e.p), a.d[k++], e.key); k = 0; for (auto& e : ints) sx_assert(s.get(e.p) == a.i[k++], e.key); k = 0; for (auto& e : bools) sx_assert(s.get(e.p) == a.b[k++], e.key); }
extern "C" void e_read() {   // from the default section or another one
  bool other = sx_choose("section", 0, 1); All a = fresh("", sx_choose("flags", 0, 3)); YAML::Node f = YAML::file("some_cfg.yaml"); write(f[other ? "mine" : "solver_variables"], a); f[other ? "solver_variables" : "mine"]["feasibility_tolerance"] = sx_real("elsewhere"); SolverSetting s; if (other) s.initialize("some_cfg.yaml", "mine"); else s.initialize("some_cfg.yaml"); same(s, a);
}
extern "C" void e_reread() { All a = fresh("a_", sx_choose("flagsA", 0, 3)), b = fresh("other_", sx_choose("flagsB", 0, 3)); write(YAML::file("a.yaml")["solver_variables"], a); write(YAML::file("b.yaml")["solver_variables"], b); SolverSetting s, t; s.initialize("a.yaml"); t.initialize("b.yaml"); same(s, a); same(t, b); s.initialize("b.yaml"); same(s, b); same(t, b); }
extern "C" void e_set() {   // whatever is written, in any place, is what is read there, and nothing else moves; copies are separate
  All a = fresh("", sx_choose("flags", 0, 3)); write(YAML::file("a.yaml")["solver_variables"], a); SolverSetting s; s.initialize("a.yaml"); SolverSetting keep(s); const int nd = sizeof(doubles) / sizeof(doubles[0]), ni = sizeof(ints) / sizeof(ints[0]); int w = sx_choose("which", 0, nd + ni + 1); All b = a;
  if (w < nd) s.set(doubles[w].p, b.d[w] = sx_real("new")); else if (w < nd + ni) s.set(ints[w - nd].p, b.i[w - nd] = sx_int("newint", -9, 99)); else { bool v = !a.b[w - nd - ni]; b.b[w - nd - ni] = v; s.set(bools[w - nd - ni].p, v); }
  same(s, b); same(keep, a);
}
extern "C" void e_set_all() { All a = fresh("", 0), b = fresh("new_", 3); write(YAML::file("a.yaml")["solver_variables"], a); SolverSetting s; s.initialize("a.yaml"); int k = 0; for (auto& e : doubles) s.set(e.p, b.d[k++]); k = 0; for (auto& e : ints) s.set(e.p, b.i[k++] = sx_int((std::string("int_") + e.key).c_str(), -9, 99)); k = 0; for (auto& e : bools) s.set(e.p, bool(b.b[k++])); same(s, b); }
extern "C" void e_unknown() {   // parameters that do not exist are refused and change nothing
  All a = fresh("", sx_choose("flags", 0, 3)); write(YAML::file("a.yaml")["solver_variables"], a); SolverSetting s; s.initialize("a.yaml"); int w = sx_choose("which", 0, 5); bool t = false; double v = sx_real("new"); int c = 900 + sx_choose("code", 0, 2);
  try { switch (w) { case 0: s.get((SolverDoubleParam)c); break; case 1: s.get((SolverIntParam)c); break; case 2: s.get((SolverBoolParam)c); break; case 3: s.set((SolverDoubleParam)c, v); break; case 4: s.set((SolverIntParam)c, 7); break; default: s.set((SolverBoolParam)c, true); } } catch (std::runtime_error&) { t = true; } sx_assert(t, "unknown parameters are refused"); same(s, a);
}
