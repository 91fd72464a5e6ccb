// Momentum feedback: the optimal control problem whose LQR gains are applied around a momentum plan.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#undef private
#undef protected
using namespace momentumopt; using namespace solverlqr; typedef Eigen::Vector3d V3; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real((p + std::to_string(i)).c_str()); return v; }
static M sm(const std::string& p, int r, int c) { M m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = sx_real((p + std::to_string(i) + "_" + std::to_string(j)).c_str()); return m; }
static void eqv(const V& a, const V& b, const char* l) { sx_assert(a.size() == b.size(), l); if (a.size() == b.size()) for (int i = 0; i < a.size(); i++) sx_eq(a[i], b[i], l); }
struct World { SolverLqrSetting l; PlannerSetting s; DynamicsState ini; DynamicsSequence seq; double m, mg; V3 g; std::vector<V> wt; int T, nE; };
static void solverFile() {
  YAML::Node n = YAML::file("default_solver_env.yaml")["solver_variables"]; for (const char* k : {"BnB_verbose", "verbose"}) n[k] = false; n["BnB_max_iterations"] = 10; n["equil_iterations"] = 3; n["num_iter_ref_lin_solve"] = 9; n["max_iters"] = 100; n["ipsolver_max_iters"] = 100; n["ipsolver_warm_iters"] = 0; n["num_itrefs_trustregion"] = 0;
  const char* kd[] = {"BnB_integer_tolerance", "BnB_absolute_suboptimality_gap", "BnB_relative_suboptimality_gap", "feasibility_tolerance", "feasibility_tolerance_inaccurate", "absolute_suboptimality_gap", "relative_suboptimality_gap", "absolute_suboptimality_gap_inaccurate", "relative_suboptimality_gap_inaccurate", "dyn_reg_thresh", "lin_sys_accuracy", "err_reduction_factor", "static_regularization", "dynamic_regularization", "safeguard", "min_step_length", "max_step_length", "min_centering_step", "max_centering_step", "step_length_scaling", "trust_region_threshold", "soft_constraint_weight_full", "soft_constraint_weight_reduced"}; double vd[] = {1e-4, 1e-3, 1e-6, 1e-8, 1e-4, 1e-8, 1e-8, 5e-5, 5e-5, 1e-13, 1e-14, 6, 7e-8, 2e-7, 500, 1e-6, 0.999, 1e-4, 1, 0.99, 0.001, 1e4, 1e4}; for (int i = 0; i < 23; i++) n[kd[i]] = vd[i];
}
static const char* keys[] = {"control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking"};
static bool on(int pat, int t, int e) { return pat == 0 ? true : pat == 1 ? (t + e) % 2 == 0 : pat == 2 ? e == 1 : false; }
static void mk(World& w, int T, int nE, int pat) {
  solverFile();
  w.T = T; w.nE = nE; auto& s = w.l; s.verbosity_ = 0; s.time_dimension_ = T; s.state_dimension_ = 9; s.control_dimension_ = 3 * nE; s.time_step_ = 0.5; s.use_runge_kutta_integration_ = false; s.has_control_limits_ = false; s.store_data_ = false; s.lqr_max_iters_ = 1; s.precision_digits_ = 5;
  YAML::Node n; for (const char* k : keys) { w.wt.push_back(sv(std::string(k) + "_", 3)); n[k] = w.wt.back(); } s.user_parameters_ = n;
  w.m = sx_real_in("mass", 0.001, 1000); w.mg = sx_real_in("mass_times_gravity", 0.001, 10000); w.g = sv("gravity", 3); w.s.robot_mass_ = w.m; w.s.mass_times_gravity_ = w.mg; w.s.gravity_vector_ = w.g; w.s.num_act_eefs_ = nE;
  w.ini.centerOfMass() = sv("com_ini", 3); w.ini.linearMomentum() = sv("lmom_ini", 3); w.ini.angularMomentum() = sv("amom_ini", 3); w.seq.resize(T);
  for (int t = 0; t < T; t++) { DynamicsState& d = w.seq.dynamicsState(t); std::string q = std::to_string(t) + "_"; d.time() = sx_real(("dt" + q).c_str()); d.centerOfMass() = sv("com" + q, 3); d.linearMomentum() = sv("lmom" + q, 3); d.angularMomentum() = sv("amom" + q, 3); for (int e = 0; e < 4; e++) { std::string p = q + std::to_string(e) + "_"; d.endeffectorForce(e) = sv("frc" + p, 3); d.endeffectorPosition(e) = sv("pos" + p, 3); d.endeffectorActivation(e) = e < nE ? on(pat, t, e) : true; } }
}
static void setup(World& w, DynamicsFeedback& f) { f.initialize(w.l); f.setPlannerSetting(w.s); f.setStatesAndControls(w.ini, w.seq); }
extern "C" void e_start() {   // initial state, nominal forces, unchanged plan; also when set again for another plan
  int T = sx_choose("T", 1, 3), nE = sx_choose("nE", 1, 4), pat = sx_choose("active", 0, 3); World w; mk(w, T, nE, pat); DynamicsFeedback f; bool again = sx_choose("again", 0, 1); if (again) { f.initialize(w.l); f.setPlannerSetting(w.s); for (int t = 0; t < T; t++) f.controlSeq().control(t).feedforward() = sv("old" + std::to_string(t) + "_", 3 * nE); f.stateSeq().state(0).stateVector() = sv("oldx", 9); f.setStatesAndControls(w.ini, w.seq); } else setup(w, f);
  V x(9); x << w.ini.centerOfMass(), w.ini.linearMomentum(), w.ini.angularMomentum(); eqv(f.stateSeq().state(0).stateVector(), x, "starts from the given centroidal state"); sx_assert(f.stateSeq().size() == T + 1 && f.controlSeq().size() == T, "sequence lengths");
  for (int t = 0; t < T; t++) { V u = V::Zero(3 * nE); for (int e = 0; e < nE; e++) if (on(pat, t, e)) u.segment<3>(3 * e) = w.mg * w.seq.dynamicsState(t).endeffectorForce(e); eqv(f.controlSeq().control(t).feedforward(), u, "nominal controls are the planned forces of the active end effectors"); }
}
extern "C" void e_mismatch() { int T = sx_choose("T", 1, 3), L = sx_choose("L", 1, 3); World w; mk(w, T, 2, 1); w.l.time_dimension_ = L; DynamicsFeedback f; bool threw = false; try { setup(w, f); } catch (std::runtime_error&) { threw = true; } sx_assert(threw == (T != L), "a plan of another length is rejected"); }
extern "C" void e_step() {
  int T = sx_choose("T", 1, 2), nE = sx_choose("nE", 1, 4), pat = sx_choose("active", 0, 3); World w; mk(w, T, nE, pat); DynamicsFeedback f; setup(w, f); int t = sx_choose("t", 0, T - 1); StateBase x(9), n; x.stateVector() = sv("x", 9); ControlBase u(9, 3 * nE); u.feedforward() = sv("u", 3 * nE); V x0 = x.stateVector(), u0 = u.feedforward(); f.internal_dynamics(x, u, n, t);
  const DynamicsState& d = w.seq.dynamicsState(t); double h = d.time(); V3 F = w.m * w.g; for (int e = 0; e < nE; e++) if (on(pat, t, e)) F += u0.segment<3>(3 * e); V3 l = x0.segment<3>(3) + h * F, c = x0.segment<3>(0) + (h / w.m) * l, k = x0.segment<3>(6); for (int e = 0; e < nE; e++) if (on(pat, t, e)) k += h * V3(d.endeffectorPosition(e) - c).cross(V3(u0.segment<3>(3 * e)));
  V y = n.stateVector(); sx_assert(y.size() == 9, "state size"); if (y.size() != 9) return; eqv(y.segment<3>(3), l, "linear momentum changes by gravity and contact forces"); eqv(y.segment<3>(0), c, "centre of mass moves with the linear momentum"); eqv(y.segment<3>(6), k, "angular momentum changes by the contact moments"); eqv(x.stateVector(), x0, "arguments unchanged"); eqv(u.feedforward(), u0, "arguments unchanged");
}
static V3 col(const V& w, const V3& d) { return V3(w[0] * d[0], w[1] * d[1], w[2] * d[2]); }
extern "C" void e_cost() {   // running and terminal cost
  int T = sx_choose("T", 1, 2), nE = sx_choose("nE", 1, 4), pat = sx_choose("active", 0, 3); World w; mk(w, T, nE, pat); DynamicsFeedback f; setup(w, f); int t = sx_choose("t", 0, T); bool fin = t == T; StateBase x(9); x.stateVector() = sv("x", 9); ControlBase u(9, 3 * nE); u.feedforward() = sv("u", 3 * nE); if (fin) u.feedforward().setZero();
  OcpBase& o = f; double J = o.objective(x, u, t, fin), want = 0; V x0 = x.stateVector(); const DynamicsState& d = w.seq.dynamicsState(t > 0 ? t - 1 : 0); V3 dc = x0.segment<3>(0) - d.centerOfMass(), dl = x0.segment<3>(3) - d.linearMomentum(), da = x0.segment<3>(6) - d.angularMomentum(); int b = fin ? 4 : 1;
  want = dc.dot(col(w.wt[b], dc)) + dl.dot(col(w.wt[b + 1], dl)) + da.dot(col(w.wt[b + 2], da)); if (!fin) for (int e = 0; e < nE; e++) if (on(pat, t, e)) { V3 q = u.feedforward().segment<3>(3 * e); want += q.dot(col(w.wt[0], q)); } sx_eq(J, want, fin ? "terminal cost" : "running cost");
}
extern "C" void e_final_control() {   // nothing about end effectors is read for the terminal cost
  World w; mk(w, 2, 2, 0); DynamicsFeedback f; setup(w, f); StateBase x(9); x.stateVector() = sv("x", 9); ControlBase u(9, 6), z(9, 6); u.feedforward() = sv("u", 6); OcpBase& o = f; sx_eq(o.objective(x, u, 2, true), o.objective(x, z, 2, true), "the terminal cost has no control term");
}
extern "C" void e_gain() {   // feedback gains by time, with clamping
  World w; int T = sx_choose("T", 1, 3), t = sx_choose("t", -3, 6); mk(w, T, 1, 0); DynamicsFeedbackWrapper p; p.initialize(w.l, w.s); p.dynamics_description_.setStatesAndControls(w.ini, w.seq); std::vector<M> K; for (int i = 0; i < T; i++) { K.push_back(sm("K" + std::to_string(i) + "_", 3, 9)); p.dynamics_description_.controlSeq().control(i).feedback() = K[i]; } M g = p.forceGain(t); int c = t < 0 ? 0 : t >= T ? T - 1 : t; sx_assert(g.rows() == 3 && g.cols() == 9, "gain size"); if (g.rows() != 3 || g.cols() != 9) return; for (int i = 0; i < 3; i++) for (int j = 0; j < 9; j++) sx_eq(g(i, j), K[c](i, j), "gain of the requested step");
}
static int optCalls; static V optX, optU; static OcpBase* optOcp;
extern "C" { void __wrap__ZN9solverlqr9SolverLqr8optimizeEv(SolverLqr* s) { optCalls++; OcpBase& o = *s->ocp_; optOcp = &o; optX = o.stateSeq().state(0).stateVector(); optU = o.controlSeq().control(0).feedforward(); o.controlSeq().control(0).feedback()(0, 0) = 7; } }
extern "C" void e_wrapper() {   // the wrapper solves the problem of the plan it is given, each time
  World w; mk(w, 1, 2, 1); DynamicsFeedbackWrapper p; p.initialize(w.l, w.s); optCalls = 0; for (int k = 0; k < 2; k++) { if (k) { w.ini.centerOfMass() = sv("com2_", 3); w.seq.dynamicsState(0).endeffectorForce(0) = sv("frc2_", 3); } p.optimize(w.ini, w.seq); sx_assert(optCalls == k + 1, "one optimisation per call"); if (optCalls != k + 1) return; V x(9); x << w.ini.centerOfMass(), w.ini.linearMomentum(), w.ini.angularMomentum(); V u = V::Zero(6); u.segment<3>(0) = w.mg * w.seq.dynamicsState(0).endeffectorForce(0); eqv(optX, x, "optimised problem"); eqv(optU, u, "optimised problem"); sx_eq(p.forceGain(0)(0, 0), 7, "gain of the optimised problem"); }
}
