// Centroidal dynamics planner: the optimisation problem handed to the solver means the documented one, and its solution is what the user reads back.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#undef private
#undef protected
using namespace momentumopt; using solver::LinExpr; using solver::DCPQuadExpr; typedef Eigen::Vector3d V3; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Matrix3d M3; typedef Eigen::Quaterniond Q;
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real((p + std::to_string(i)).c_str()); return v; }
static M sm(const std::string& p, int r, int c) { M m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = sx_real((p + std::to_string(i) + "_" + std::to_string(j)).c_str()); return m; }
static void same3(const V3& a, const V3& b, const char* l) { for (int i = 0; i < 3; i++) sx_eq(a[i], b[i], l); }
static M3 rot(int k) { M3 m; if (k == 0) m.setIdentity(); else if (k == 1) m << 0, 0, 1, 1, 0, 0, 0, 1, 0; else m << 0.28, -0.96, 0, 0.96, 0.28, 0, 0, 0, 1; return m; }
static Q turn(int k) { return k == 0 ? Q(1, 0, 0, 0) : k == 1 ? Q(0.5, 0.5, 0.5, 0.5) : Q(0.8, 0, 0, 0.6); }
#include "model_record.h"
// ---- scenarios: contacts [first step, last step) per end effector
struct Cn { int eff, a, b, r; ContactType type; }; struct Case { int T, nE; std::vector<Cn> c; };
static Case scenario(int k) {
  ContactType F = ContactType::FlatContact, U = ContactType::FullContact;
  switch (k) { case 0: return {1, 1, {{0, 0, 1, 2, F}}}; case 1: return {2, 2, {{0, 0, 1, 0, F}, {1, 1, 2, 1, F}}}; case 2: return {2, 3, {{0, 0, 2, 0, F}, {2, 1, 2, 2, U}}}; case 3: return {3, 1, {{0, 0, 1, 1, F}, {0, 2, 3, 2, F}}}; case 4: return {2, 2, {{0, 1, 2, 0, F}, {1, 0, 1, 2, F}}}; case 5: return {1, 0, {}}; case 6: return {2, 1, {{0, 0, 1, 0, F}}}; default: return {2, 3, {{0, 0, 1, 2, F}, {2, 0, 2, 0, F}}}; }
}
struct World {
  Case k; PlannerSetting s; ContactPlanFromFile plan; DynamicsOptimizer o; DynamicsState ini; KinematicsSequence kin; double m, g, dt, mu; V3 goal;
  M com, lm, am, dts, lmd, amd, ub[4], lb[4], f[4], cop[4], trq[4]; int pass = 0; int variant = 0; bool timeopt = false, update = false, bounded = false, known = false, defaults = false; std::vector<DynamicsState> before; 
  const Cn* at(int t, int e, int* slot = nullptr) { int n = 0; for (auto& c : k.c) if (c.eff == e) { if (t >= c.a && t < c.b) { if (slot) *slot = n + t - c.a; return &c; } n += c.b - c.a; } return nullptr; }
  int steps(int e) { int n = 0; for (auto& c : k.c) if (c.eff == e) n += c.b - c.a; return n; }
  V3 pos(const Cn* c) { int i = 0; for (auto& d : k.c) { if (&d == c) break; if (d.eff == c->eff) i++; } return plan.contactSequence().endeffectorContacts(c->eff)[i].position_; }
};
static World* W;
static double pos_(const char* n) { return sx_real_in(n, 0.001, 1000); }
static void mk(World& w, int kc, Heuristic h, bool linear, bool free = false) {   // free: mass, gravity and weights arbitrary
  W = &w; w.k = scenario(kc); Case& k = w.k; if (w.known) for (auto& c : k.c) c.r = std::min(c.r, 1);   /* exactly representable rotations */
  PlannerSetting& s = w.s; w.dt = 0.25; w.m = free ? pos_("mass") : 2; w.g = free ? pos_("gravity") : 10; w.timeopt = h == Heuristic::TimeOptimization;
  s.heuristic_ = h; s.cfg_file_ = "dyn.yaml"; s.default_solver_setting_file_ = "default.yaml"; s.use_default_solver_setting_ = w.defaults; s.store_data_ = false; s.load_kinematics_ = false; s.num_timesteps_ = k.T; s.time_step_ = w.dt; s.time_horizon_ = w.dt * k.T; s.num_act_eefs_ = k.nE; s.robot_mass_ = w.m; s.gravity_ = w.g; s.mass_times_gravity_ = w.m * w.g; s.gravity_vector_ = V3(0, 0, -w.g); s.num_extended_act_dofs_ = 6; s.num_com_viapoints_ = 0; s.max_time_iterations_ = 0; s.max_time_residual_tolerance_ = 0; s.min_time_residual_improvement_ = 0;
  w.mu = linear ? (kc == 0 ? 0.0 : kc == 1 ? 1.25 : 0.5) : (kc == 1 ? 1.25 : 0.5); s.friction_coeff_ = w.mu; s.is_friction_cone_linear_ = linear; s.is_time_horizon_fixed_ = kc != 0; s.min_rel_height_ = sx_real("min_height"); s.torque_range_ = sv("torque_range", 2); s.time_range_ = sv("time_range", 2); s.com_displacement_ = sv("move", 3); s.external_force_ = sv("push", 3); for (int e = 0; e < 4; e++) { s.cop_range_[e] = sv(nm("cop_range", e), 4); s.eff_offset_[e] = sv(nm("offset", e), 3); s.max_eef_lengths_[e] = pos_(nm("length", e).c_str()); }
  int wi = 0; for (V3* v : {&s.w_com_, &s.w_lmom_, &s.w_lmomd_, &s.w_lmom_final_, &s.w_amom_, &s.w_amomd_, &s.w_amom_final_, &s.w_com_via_, &s.w_frc_arm_, &s.w_frc_leg_, &s.w_dfrc_arm_, &s.w_dfrc_leg_, &s.w_com_track_, &s.w_lmom_track_, &s.w_amom_track_}) for (int i = 0; i < 3; i++) { (*v)[i] = free ? pos_(nm("w", wi).c_str()) : 1; wi++; } for (double* d : {&s.w_trq_arm_, &s.w_trq_leg_, &s.w_time_, &s.w_time_penalty_}) { *d = free ? pos_(nm("w", wi).c_str()) : 1; wi++; }
  YAML::Node n = YAML::file("dyn.yaml"); solverFile("dyn.yaml"); solverFile("default.yaml"); YAML::file("default.yaml")["solver_variables"]["soft_constraint_weight_reduced"] = 16.0; (void)n;
  w.plan.initialize(s); int ci[4] = {0, 0, 0, 0}; for (auto& c : k.c) { ContactState q; q.time_ini_ = (c.a + 0.5) * w.dt; q.time_end_ = (c.b + 0.5) * w.dt; if (w.known) q.position_ = V3(0.5 * c.eff + 0.25, 0.125 - 0.375 * c.a, 0.75 * c.b); else q.position_ = sv("c" + std::to_string(c.eff) + std::to_string(ci[c.eff]++) + "_", 3); q.orientation_ = turn(c.r); q.contact_type_ = c.type; q.selected_as_active_ = true; w.plan.contactSequence().endeffectorContacts(c.eff).push_back(q); }
  DynamicsState& i = w.ini; i.centerOfMass() = sv("com_ini", 3); i.linearMomentum() = sv("lmom_ini", 3); i.angularMomentum() = sv("amom_ini", 3); if (w.known) { i.centerOfMass() = V3(0.5, -0.25, 1); i.linearMomentum() = V3(1.5, 0.75, -2); i.angularMomentum() = V3(-0.5, 0.25, 1.25); } for (int e = 0; e < 4; e++) { i.endeffectorForce(e) = sv(nm("frc_ini", e), 3); i.endeffectorPosition(e) = sv(nm("pos_ini", e), 3); } w.kin.resize(k.T, 0); for (int t = 0; t < k.T; t++) { w.kin.kinematicsState(t).centerOfMass() = sv(nm("kcom", t), 3); w.kin.kinematicsState(t).linearMomentum() = sv(nm("klmom", t), 3); w.kin.kinematicsState(t).angularMomentum() = sv(nm("kamom", t), 3); }
  w.goal = i.centerOfMass() + s.com_displacement_; w.o.initialize(s); 
}
static void put(const solver::OptimizationVariable& v, const M& m) { sx_assert(v.getNumRows() == m.rows() && v.getNumCols() == m.cols(), "size of an optimisation variable"); if (v.getNumRows() == m.rows() && v.getNumCols() == m.cols()) for (int c = 0; c < m.cols(); c++) for (int r = 0; r < m.rows(); r++) W->o.vars_[v.id(r, c)].set(solver::SolverDoubleParam_X, m(r, c)); }
static void anyPoint(World& w, const std::string& t) { int T = w.k.T; w.com = sm(t + "com", 3, T); w.lm = sm(t + "lm", 3, T); w.am = sm(t + "am", 3, T); if (w.timeopt) { w.dts = sm(t + "dt", 1, T); w.lmd = sm(t + "lmd", 3, T); w.amd = sm(t + "amd", 3, T); } for (int e = 0; e < w.k.nE; e++) { int n = w.steps(e); std::string p = t + std::to_string(e) + "_"; w.ub[e] = sm(p + "ub", 3, n); w.lb[e] = sm(p + "lb", 3, n); w.f[e] = M(3, n); for (int j = 0; j < n; j++) for (int i = 0; i < 3; i++) w.f[e](i, j) = w.bounded ? sx_real_in((p + "f" + nm("", i, j)).c_str(), -1000, 1000) : sx_real((p + "f" + nm("", i, j)).c_str()); w.cop[e] = sm(p + "cop", 2, n); w.trq[e] = sm(p + "trq", 1, n); } }
// a concrete point: the linearisation point of the next pass
static void somePoint(World& w, int v) { int n = 0; auto fill = [&](M& m) { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) { n++; m(i, j) = ((n * (v ? 5 : 7) + n * n * 3 + v) % 17 - 8) * (v ? 0.25 : 0.5); } }; fill(w.com); fill(w.lm); fill(w.am); if (w.timeopt) { for (int t = 0; t < w.k.T; t++) w.dts(0, t) = 0.125 * (1 + (t + v) % 3); fill(w.lmd); fill(w.amd); } for (int e = 0; e < w.k.nE; e++) { fill(w.ub[e]); fill(w.lb[e]); fill(w.f[e]); fill(w.cop[e]); fill(w.trq[e]); } }
static void assign(World& w) { auto& o = w.o; put(o.com_, w.com); put(o.lmom_, w.lm); put(o.amom_, w.am); if (w.timeopt) { put(o.dt_, w.dts); put(o.lmomd_, w.lmd); put(o.amomd_, w.amd); } for (int e = 0; e < w.k.nE; e++) { put(o.ub_var_[e], w.ub[e]); put(o.lb_var_[e], w.lb[e]); put(o.frc_world_[e], w.f[e]); put(o.cop_local_[e], w.cop[e]); put(o.trq_local_[e], w.trq[e]); } }
// sum over contacts of forces and of (ub-lb)/4 and torque, per step
static V3 force(World& w, int t) { V3 r(0, 0, 0); for (int e = 0; e < w.k.nE; e++) { int s; if (w.at(t, e, &s)) r += w.f[e].col(s); } return r; }
static V3 momentBound(World& w, int t) { V3 r(0, 0, 0); for (int e = 0; e < w.k.nE; e++) { int s; if (const Cn* c = w.at(t, e, &s)) { r += (w.ub[e].col(s) - w.lb[e].col(s)) * (0.25 * w.m * w.g); r += rot(c->r).col(2) * w.trq[e](0, s); } } return r; }
static V3 lever(World& w, int t, int e, const M& com) { int s; const Cn* c = w.at(t, e, &s); return V3(w.pos(c) - V3(com.col(t)) + rot(c->r).col(0) * w.cop[e](0, s) + rot(c->r).col(1) * w.cop[e](1, s)); }
// equalities of the documented problem, as the value each momentum / position must take
struct Dyn { V3 com, lm, am, lmd, amd; };
static Dyn dyn(World& w, int t) {
  V3 c0 = t ? V3(w.com.col(t - 1)) : w.ini.centerOfMass(), l0 = t ? V3(w.lm.col(t - 1)) : w.ini.linearMomentum(), a0 = t ? V3(w.am.col(t - 1)) : w.ini.angularMomentum(); double m = w.m, mg = m * w.g; V3 G(0, 0, -mg); Dyn d; const DynamicsState& b = w.before[t]; double h = b.time();
  if (!w.timeopt) { V3 l = w.lm.col(t); d.com = c0 + l * (h / m); d.lm = l0 + (G + force(w, t) * mg + (t ? V3(0, 0, 0) : V3(w.s.external_force_ * mg))) * h; d.am = a0 + momentBound(w, t) * h; return d; }
  d.lmd = G + force(w, t) * mg; d.amd = momentBound(w, t);
  if (w.pass == 0) { d.com = c0 + V3(w.lm.col(t)) * (h / m); d.lm = l0 + V3(w.lmd.col(t)) * h; d.am = a0 + V3(w.amd.col(t)) * h; }
  else { double q = w.dts(0, t); auto lin = [&](const V3& x, const V3& x0) { return V3(x * h + x0 * q - x0 * h); }; d.com = c0 + lin(w.lm.col(t), b.linearMomentum()) / m; d.lm = l0 + lin(w.lmd.col(t), b.linearMomentumRate()); d.am = a0 + lin(w.amd.col(t), b.angularMomentumRate()); } return d;
}
static solver::ExitCode checkEq(World& w, int dir) {   // dir 0: every trajectory of the dynamics satisfies the equalities; 1: nothing else does
  int T = w.k.T, fixed = w.timeopt && w.s.is_time_horizon_fixed_; std::vector<double> want;
  if (dir == 0) { if (fixed) { double s = 0; for (int t = 0; t + 1 < T; t++) s += w.dts(0, t); w.dts(0, T - 1) = T * w.dt - s; } for (int t = 0; t < T; t++) { if (w.timeopt) { w.lmd.col(t) = dyn(w, t).lmd; w.amd.col(t) = dyn(w, t).amd; } w.lm.col(t) = dyn(w, t).lm; w.com.col(t) = dyn(w, t).com; w.am.col(t) = dyn(w, t).am; } assign(w); for (auto& r : recs) if (r.kind == 0) sx_eq(ev(r.e), 0, "every motion obeying the centroidal dynamics satisfies the equality constraints"); }
  else { assign(w); for (auto& r : recs) if (r.kind == 0) { double v = ev(r.e); sx_assume(v <= 1e-9); sx_assume(v >= -1e-9); } for (int t = 0; t < T; t++) { Dyn d = dyn(w, t); for (int i = 0; i < 3; i++) { want.push_back(w.com(i, t) - d.com[i]); want.push_back(w.lm(i, t) - d.lm[i]); want.push_back(w.am(i, t) - d.am[i]); if (w.timeopt) { want.push_back(w.lmd(i, t) - d.lmd[i]); want.push_back(w.amd(i, t) - d.amd[i]); } } } if (fixed) { double s = 0; for (int t = 0; t < T; t++) s += w.dts(0, t); want.push_back(s - T * w.dt); } for (double v : want) sx_assert(sx_and(v <= 1e-6, v >= -1e-6), "every feasible point obeys the centroidal dynamics"); }
  return solver::ExitCode::Optimal;
}
static solver::ExitCode checkIneq(World& w, int dir) {
  assign(w); std::vector<double> got[2], want[2]; bool split = !w.timeopt; int T = w.k.T; solver::QuadConstrApprox ap = w.timeopt ? solver::QuadConstrApprox::None : w.s.heuristic() == Heuristic::TrustRegion ? solver::QuadConstrApprox::TrustRegion : solver::QuadConstrApprox::SoftConstraint;
  for (auto& r : recs) { if (r.kind == 1) { double v = ev(r.e); got[0].push_back(r.ge ? -v : v); } if (r.kind == 2) { double l = ev(r.e); got[0].push_back(evq(r.q) - l * l); got[0].push_back(-l); } if (r.kind == 3) { bool a = split && r.approx != solver::QuadConstrApprox::None; sx_assert(r.approx == ap || r.approx == solver::QuadConstrApprox::None, "relaxation chosen by the heuristic"); got[a].push_back(evq(r.q) - ev(r.e)); } }
  double z0 = w.at(0, 0) ? w.pos(w.at(0, 0))[2] : w.ini.endeffectorPosition(0)[2]; for (int t = 0; t < T; t++) { want[0].push_back(w.s.min_rel_height_ - (w.com(2, t) - z0)); if (w.timeopt) { want[0].push_back(w.s.time_range_[0] - w.dts(0, t)); want[0].push_back(w.dts(0, t) - w.s.time_range_[1]); }
    for (int e = 0; e < w.k.nE; e++) { int s; const Cn* c = w.at(t, e, &s); if (!c) continue; M3 R = rot(c->r); double q = w.trq[e](0, s), x = w.cop[e](0, s), y = w.cop[e](1, s); V& cr = w.s.cop_range_[e]; want[0].push_back(w.s.torque_range_[0] - q); want[0].push_back(q - w.s.torque_range_[1]); want[0].push_back(cr[0] - x); want[0].push_back(x - cr[1]); want[0].push_back(cr[2] - y); want[0].push_back(y - cr[3]);
      V3 F = w.f[e].col(s), L = lever(w, t, e, w.com), fl = R.transpose() * F; if (c->type != ContactType::FullContact) { double mu = w.mu; if (w.s.is_friction_cone_linear_) { if (mu < 0.001) mu = 0.001; double k = mu * std::sqrt(2.0) * fl[2]; want[0].push_back(fl[0] + fl[1] - k); want[0].push_back(fl[0] - fl[1] - k); want[0].push_back(-fl[0] + fl[1] - k); want[0].push_back(-fl[0] - fl[1] - k); } else { want[0].push_back(fl[0] * fl[0] + fl[1] * fl[1] - mu * mu * fl[2] * fl[2]); want[0].push_back(-fl[2]); } }
      V3 d = L - V3(w.s.eff_offset_[e]); double len = w.s.max_eef_lengths_[e]; want[0].push_back(d.dot(d) - len * len); for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; auto sq = [](double v) { return v * v; }; /* (up - lo)/4 = (L x F)_i */ double up = sq(F[a] - L[b]) + sq(L[a] + F[b]), lo = sq(L[b] + F[a]) + sq(L[a] - F[b]); want[split].push_back(up - w.ub[e](i, s)); want[split].push_back(lo - w.lb[e](i, s)); } } }
  for (int k = 0; k < 2; k++) { if (dir == 0) { for (double v : want[k]) sx_assume(v <= -1e-5); for (double v : got[k]) sx_assert(v <= 0, "the model accepts every physically admissible motion"); } else { for (double v : got[k]) sx_assume(v <= -1e-5); for (double v : want[k]) sx_assert(v <= 0, "the model accepts only physically admissible motions"); } }
  return solver::ExitCode::Optimal;
}
static double sq(double v) { return v * v; }
static solver::ExitCode checkCost(World& w) {
  assign(w); sx_assert(costSet == 1 + w.pass, "one objective"); double got = evq(costQ) + ev(costL), want = 0; PlannerSetting& s = w.s; int T = w.k.T; for (int v = 0; v < s.num_com_viapoints_; v++) { int t = v ? T - 1 : 0; for (int i = 0; i < 3; i++) want += s.w_com_via_[i] * sq(w.com(i, t) - s.com_viapoints_[v][i + 1]); }
  V3 wl = w.update ? s.w_lmom_track_ : s.w_lmom_, wa = w.update ? s.w_amom_track_ : s.w_amom_;
  for (int t = 0; t < T; t++) { auto& k = w.kin.kinematicsState(t); for (int i = 0; i < 3; i++) { double l = w.lm(i, t), a = w.am(i, t), l0 = t ? w.lm(i, t - 1) : w.ini.linearMomentum()[i], a0 = t ? w.am(i, t - 1) : w.ini.angularMomentum()[i]; if (t == T - 1) want += s.w_com_[i] * sq(w.com(i, t) - w.goal[i]) + s.w_lmom_final_[i] * sq(l - k.linearMomentum()[i]) + s.w_amom_final_[i] * sq(a - k.angularMomentum()[i]); else want += wl[i] * sq(l - k.linearMomentum()[i]) + wa[i] * sq(a - k.angularMomentum()[i]); if (w.update) want += s.w_com_track_[i] * sq(w.com(i, t) - k.centerOfMass()[i]);
      want += w.timeopt ? s.w_lmomd_[i] * sq(w.lmd(i, t)) + s.w_amomd_[i] * sq(w.amd(i, t)) : s.w_lmomd_[i] * sq((l - l0) / w.before[t].time()) + s.w_amomd_[i] * sq((a - a0) / w.before[t].time());
      for (int e = 0; e < w.k.nE; e++) { int c; if (!w.at(t, e, &c)) continue; bool leg = e < 2; double f = w.f[e](i, c), nx = f, pv = w.ini.endeffectorForce(e)[i]; int q; if (t + 1 < T) nx = w.at(t + 1, e, &q) ? w.f[e](i, q) : 0; if (t > 0) pv = w.at(t - 1, e, &q) ? w.f[e](i, q) : 0; want += (leg ? s.w_frc_leg_ : s.w_frc_arm_)[i] * f * f + (leg ? s.w_dfrc_leg_ : s.w_dfrc_arm_)[i] * (sq(nx - f) + sq(f - pv)); } }
    for (int e = 0; e < w.k.nE; e++) { int c; if (w.at(t, e, &c)) want += (e < 2 ? s.w_trq_leg_ : s.w_trq_arm_) * sq(w.trq[e](0, c)); } if (w.timeopt) want += s.w_time_penalty_ * sq(w.dts(0, t)) + s.w_time_ * sq(w.dts(0, t) - w.dt);
    if (w.pass) for (int e = 0; e < w.k.nE; e++) { int c; const Cn* k = w.at(t, e, &c); if (!k) continue; M3 R = rot(k->r); auto& b = w.before[t]; V3 L = lever(w, t, e, w.com), F = w.f[e].col(c), L0 = w.pos(k) - b.centerOfMass() + R.col(0) * b.endeffectorCoP(e)[0] + R.col(1) * b.endeffectorCoP(e)[1], F0 = b.endeffectorForce(e); for (int i = 0; i < 3; i++) { int p = (i + 1) % 3, q = (i + 2) % 3; auto lin = [](double x, double x0) { return x0 * x0 + 2 * x0 * (x - x0); }; double up = lin(F[p] - L[q], F0[p] - L0[q]) + lin(L[p] + F[q], L0[p] + F0[q]), lo = lin(L[q] + F[p], L0[q] + F0[p]) + lin(L[p] - F[q], L0[p] - F0[q]); want += 8 * (sq(up - w.ub[e](i, c)) + sq(lo - w.lb[e](i, c))); } } }
  sx_eq(got, want, "objective is the documented weighted sum"); return solver::ExitCode::Optimal;
}
static void run(World& w, int passes, std::function<solver::ExitCode(int)> f, bool stop = false) { World* pw = &w; hook = [pw, f, stop]() { World& w = *pw; w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, nm("x", w.pass)); solver::ExitCode r = f(w.pass); w.pass++; recs.clear(); if (stop) { somePoint(w, w.variant); assign(w); /* what happens after the judged solve is not of interest */ } return r; }; recs.clear(); costSet = 0; w.s.max_time_iterations_ = passes - 1; w.o.optimize(w.ini, &w.plan, w.kin, w.update); if (passes > 0) sx_assert(w.pass == passes, "number of solves"); }
static Heuristic H(int k) { return k == 0 ? Heuristic::TrustRegion : k == 1 ? Heuristic::SoftConstraint : Heuristic::TimeOptimization; }
extern "C" void e_eq() { static World w; int k = sx_choose("case", 0, 6); mk(w, k, H(sx_choose("heuristic", 0, 1)), true); int dir = sx_choose("direction", 0, 1); run(w, 1, [&](int) { return checkEq(w, dir); }); }
extern "C" void e_eq_free() { static World w; mk(w, 2, H(1), true, true); run(w, 1, [&](int) { return checkEq(w, 0); }); }
extern "C" void e_eq_time() { static World w; int k = sx_choose("case", 0, 3); mk(w, k, H(2), true); int dir = sx_choose("direction", 0, 1); run(w, 1, [&](int) { return checkEq(w, dir); }); }
extern "C" void e_ineq() { static World w; w.bounded = true; int k = sx_choose("case", 0, 6), h = sx_choose("heuristic", 0, 2); mk(w, k, H(h), (k + h) % 2); int dir = sx_choose("direction", 0, 1); run(w, 1, [&](int) { return checkIneq(w, dir); }); }
static void cost(int k, int h, int passes) { static World w; w.known = passes > 1; mk(w, k, H(h), true, true); w.update = sx_choose("update", 0, 1); w.variant = (k + w.update) % 2; int nv = (k + h + w.update) % 3; w.s.num_com_viapoints_ = nv; for (int v = 0; v < nv; v++) { V q(4); q << (v ? w.k.T - 1 : 0) * w.dt + 0.125, sx_real(nm("via_x", v).c_str()), sx_real(nm("via_y", v).c_str()), sx_real(nm("via_z", v).c_str()); w.s.com_viapoints_.push_back(q); } run(w, passes, [&](int p) { return p == passes - 1 ? checkCost(w) : solver::ExitCode::Optimal; }, true); }
extern "C" void e_cost() { int k = sx_choose("case", 0, 7); cost(k, sx_choose("heuristic", 1, 2), 1); }
// second pass of the time optimisation: linearised around the stored first solution
extern "C" void e_cost_again() { int k = sx_choose("case", 0, 4); cost(k, 2, 2); }
extern "C" void e_eq_again() { static World w; w.known = true; int k = sx_choose("case", 0, 3); mk(w, k, H(2), true); int dir = sx_choose("direction", 0, 1); w.variant = (k + dir) % 2; run(w, 2, [&](int p) { if (p == 1) return checkEq(w, dir); return solver::ExitCode::Optimal; }, true); }
// ---- what the user reads back
static M3 qm(const Q& q) { return q.toRotationMatrix(); }
static void checkStored(World& w, const M& am, const char*) {
  auto& S = w.o.dynamicsSequence(); int T = w.k.T; sx_assert(S.size() == T, "one state per time step"); same3(S.dynamicsState(0).centerOfMass(), w.com.col(0), "stored centre of mass"); double mg = w.m * w.g;
  for (int t = 0; t < T; t++) { auto& d = S.dynamicsState(t); if (t) { same3(d.centerOfMass(), w.com.col(t - 1), "stored centre of mass"); same3(d.linearMomentum(), w.lm.col(t - 1), "stored linear momentum"); same3(d.angularMomentum(), am.col(t - 1), "stored angular momentum"); } else { same3(d.linearMomentum(), w.before[0].linearMomentum(), "initial momenta are kept"); same3(d.angularMomentum(), w.before[0].angularMomentum(), "initial momenta are kept"); }
    if (w.timeopt) { sx_eq(d.time(), w.dts(0, t), "stored duration"); same3(d.linearMomentumRate(), w.lmd.col(t), "stored momentum rates"); same3(d.angularMomentumRate(), w.amd.col(t), "stored momentum rates"); } else sx_eq(d.time(), w.dt, "step duration");
    for (int e = 0; e < 4; e++) { int s; const Cn* c = e < w.k.nE ? w.at(t, e, &s) : nullptr; V3 f(0, 0, 0), p(0, 0, 0), q(0, 0, 0), a(0, 0, 0); sx_assert(d.endeffectorActivation(e) == (w.at(t, e) != nullptr), "activations follow the contact plan"); if (c) { f = w.f[e].col(s); p << w.cop[e](0, s), w.cop[e](1, s), 0; q << 0, 0, w.trq[e](0, s); a = q + p.cross(V3(rot(c->r).transpose() * f * mg)); same3(d.endeffectorPosition(e), w.pos(c), "contact pose"); M3 R = qm(d.endeffectorOrientation(e)), R0 = rot(c->r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_eq(R(i, j), R0(i, j), "contact pose"); }
      same3(d.endeffectorForce(e), f, "stored contact force"); same3(d.endeffectorCoP(e), p, "stored centre of pressure"); same3(d.endeffectorTorque(e), q, "stored contact torque"); same3(d.endeffectorTorqueAtContactPoint(e), a, "torque at the contact point"); } }
}
static M momentumFromForces(World& w, const M& com, const M& h) { M a(3, w.k.T); V3 x = w.ini.angularMomentum(); for (int t = 0; t < w.k.T; t++) { for (int e = 0; e < w.k.nE; e++) { int s; const Cn* c = w.at(t, e, &s); if (!c) continue; V3 F = w.f[e].col(s) * (w.m * w.g); x += (lever(w, t, e, com).cross(F) + rot(c->r).col(2) * w.trq[e](0, s)) * h(0, t); } a.col(t) = x; } return a; }
static void eqm(const M& a, const M& b, const char* l) { sx_assert(a.rows() == b.rows() && a.cols() == b.cols(), "size of a stored matrix"); if (a.rows() == b.rows() && a.cols() == b.cols()) for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) sx_eq(a(i, j), b(i, j), l); }
extern "C" void e_store() {
  static World w; int k = sx_choose("case", 0, 7); mk(w, k, H(k & 1), true, true); int code = sx_choose("code", 0, 2); solver::ExitCode xs[] = {solver::ExitCode::Optimal, solver::ExitCode::PrimalInf, solver::ExitCode::ReachMaxIters}; hook = nullptr;
  hook = [&]() { w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, "x"); assign(w); w.pass++; return xs[code]; }; recs.clear(); costSet = 0; auto r = w.o.optimize(w.ini, &w.plan, w.kin, false); sx_assert(w.pass == 1, "one solve with fixed timing"); sx_assert(r == xs[code], "exit code of the solver is returned"); M h(1, w.k.T); h.setConstant(w.dt); checkStored(w, momentumFromForces(w, w.com, h), ""); }
extern "C" void e_store_twice() {   // a second plan with the same optimizer leaves nothing of the first
  static World w; int ks[] = {1, 2, 4, 6, 7}, k = ks[sx_choose("case", 0, 4)]; mk(w, k, H(1), true);
  Case first = {2, 4, {{0, 0, 2, 0, ContactType::FlatContact}, {1, 0, 2, 0, ContactType::FlatContact}, {2, 0, 1, 0, ContactType::FlatContact}, {3, 0, 2, 0, ContactType::FlatContact}}}; ContactPlanFromFile p2; p2.initialize(w.s); for (auto& c : first.c) { ContactState q; q.time_ini_ = (c.a + 0.5) * w.dt; q.time_end_ = (c.b + 0.5) * w.dt; q.position_ = V3(1, 2, 3); q.orientation_ = turn(0); q.contact_type_ = c.type; q.selected_as_active_ = true; p2.contactSequence().endeffectorContacts(c.eff).push_back(q); }
  Case own = w.k; int nE = own.nE; W = &w; w.k = first; w.k.nE = nE; w.s.num_act_eefs_ = nE; auto go = [&](const char* tag, ContactPlanFromFile* p) { hook = [tag]() { w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, tag); assign(w); return solver::ExitCode::Optimal; }; recs.clear(); w.o.optimize(w.ini, p, w.kin, false); };
  go("y", &p2); w.k = own; go("x", &w.plan); for (int t = 0; t < 2; t++) for (int e = 0; e < 4; e++) { int s = -1; const Cn* c = w.at(t, e, &s); auto& d = w.o.dynamicsSequence().dynamicsState(t); sx_assert(d.endeffectorActivation(e) == (c != nullptr), "activations follow the contact plan"); if (c && e < nE) same3(d.endeffectorForce(e), w.f[e].col(s), "stored contact force"); if (t) { same3(d.centerOfMass(), w.com.col(0), "stored centre of mass"); same3(d.linearMomentum(), w.lm.col(0), "stored linear momentum"); } } }
extern "C" void e_store_time() {   // optimised timing, one solve; momenta are those of the solution, or those integrated from the forces once converged
  static World w; int k = sx_choose("case", 0, 4), conv = sx_choose("converged", 0, 1); w.known = true; w.variant = k & 1; mk(w, k, H(2), true, false); w.s.max_time_iterations_ = 0; w.s.max_time_residual_tolerance_ = conv ? 1e6 : -1; w.s.min_time_residual_improvement_ = -1; hook = [&]() { w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, "x"); if (conv) somePoint(w, w.variant); assign(w); w.pass++; return solver::ExitCode::Optimal; };
  recs.clear(); auto r = w.o.optimize(w.ini, &w.plan, w.kin, false); (void)r; M com(3, w.k.T); V3 x = w.ini.centerOfMass(), l = w.ini.linearMomentum(); for (int t = 0; t < w.k.T; t++) { l += (V3(0, 0, -w.m * w.g) + force(w, t) * (w.m * w.g)) * w.dts(0, t); x += l * (w.dts(0, t) / w.m); com.col(t) = x; } checkStored(w, conv ? momentumFromForces(w, com, w.dts) : w.am, ""); }
extern "C" void e_flow() {   // refinement of the timing: stops when the residual or its improvement is small, never later than the iteration limit
  static World w; mk(w, 5, H(2), true); w.ini.centerOfMass() = V3(0.5, -0.25, 1); w.ini.linearMomentum() = V3(1, 0, 2); w.ini.angularMomentum() = V3(-1, 0.5, 0.25); int n = sx_choose("limit", 0, 3); w.s.max_time_iterations_ = n; double tol = w.s.max_time_residual_tolerance_ = sx_real_in("tolerance", 1e-3, 10), imp = w.s.min_time_residual_improvement_ = sx_real_in("improvement", 1e-3, 10); double err[5]; M am; V3 l(0, 0, 0);
  hook = [&]() { w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, nm("x", w.pass)); double h = 0.25, d = sx_real_in(nm("residual", w.pass).c_str(), 0.001, 100); if (w.pass < 5) err[w.pass] = d; w.dts(0, 0) = h; l = w.ini.linearMomentum() + V3(0, 0, -w.m * w.g * h); w.lm.col(0) = l; w.com.col(0) = w.ini.centerOfMass() + l * (h / w.m); w.am.col(0) = w.ini.angularMomentum() + V3(0, d, 0); w.lmd.setZero(); w.amd.setZero(); sx_sqrt_hint(d); assign(w); w.pass++; return solver::ExitCode::Optimal; };
  recs.clear(); w.o.optimize(w.ini, &w.plan, w.kin, false); sx_assert(w.pass >= 1 && w.pass <= 1 + n, "number of refinements within the limit"); if (w.pass < 1 || w.pass > 4) return; auto small = [&](int p) { double e = p ? err[p - 1] - err[p] : 1e9; return sx_or(err[p] < tol, p > 0 && sx_and(e < imp, -e < imp)); }; bool any = false; for (int p = 0; p + 1 < w.pass; p++) { if (p > 0) sx_assert(!small(p), "no refinement after convergence"); } for (int p = 0; p < w.pass; p++) any = sx_or(any, small(p)); if (w.pass < 1 + n) sx_assert(any, "refinement ends early only once converged");
  M got; w.o.amom_.getGuessValue(got); double y = 0.5 + err[w.pass - 1]; if (sx_branch(any)) y = 0.5; sx_eq(got(1, 0), y, "reported angular momentum is consistent with the forces once converged"); sx_eq(w.o.dynamicsSequence().dynamicsState(0).time(), 0.25, "stored duration"); }
extern "C" void e_save() {
  static World w; int k = sx_choose("case", 0, 4), store = sx_choose("store", 0, 1); mk(w, k, H(k & 1), true, true); int T = w.k.T; w.s.store_data_ = store; w.s.save_dynamics_file_ = "/dev/null"; YAML::file("dyn.yaml")["contact_plan"]["num_contacts"] = 3; w.s.num_extended_act_dofs_ = 2; M v = sm("qd", 2, T), a = sm("qdd", 2, T); for (int t = 0; t < T; t++) { w.kin.kinematicsState(t).robotVelocity().generalizedJointVelocities() = v.col(t); w.kin.kinematicsState(t).robotAcceleration().generalizedJointAccelerations() = a.col(t); } YAML::saved().clear();
  hook = [&]() { w.before = w.o.dynamicsSequence().dynamicsSequence(); anyPoint(w, "x"); assign(w); w.pass++; return solver::ExitCode::Optimal; }; recs.clear(); w.o.optimize(w.ini, &w.plan, w.kin, false); sx_assert(YAML::saved().size() == size_t(store), "the file is written exactly when asked for"); if (!store || YAML::saved().size() != 1) return;
  YAML::Node f = YAML::saved()[0], n = f["dynopt_params"]; sx_assert(f["contact_plan"]["num_contacts"].as<int>() == 3, "contact plan is copied to the file"); sx_eq(n["time_step"].as<double>(), w.dt, "saved scalars"); sx_eq(n["robot_mass"].as<double>(), w.m, "saved scalars"); sx_assert(n["n_act_eefs"].as<int>() == w.k.nE, "saved scalars"); sx_eq(n["time_horizon"].as<double>(), w.dt * T, "saved scalars"); M h(1, T); h.setConstant(w.dt); same3(V3(n["end_com"].as<V>()), w.goal, "saved goal"); same3(V3(n["ini_com"].as<V>()), w.ini.centerOfMass(), "saved goal");
  eqm(n["com_motion"].as<M>(), w.com, "saved motion"); eqm(n["lin_mom"].as<M>(), w.lm, "saved motion"); eqm(n["ang_mom"].as<M>(), momentumFromForces(w, w.com, h), "saved motion"); M r(3, T), tv(1, T); for (int t = 0; t < T; t++) { r.col(t) = w.kin.kinematicsState(t).centerOfMass(); tv(0, t) = (t + 1) * w.dt; } eqm(n["com_motion_ref"].as<M>(), r, "saved references"); for (int t = 0; t < T; t++) r.col(t) = w.kin.kinematicsState(t).linearMomentum(); eqm(n["lin_mom_ref"].as<M>(), r, "saved references"); for (int t = 0; t < T; t++) r.col(t) = w.kin.kinematicsState(t).angularMomentum(); eqm(n["ang_mom_ref"].as<M>(), r, "saved references"); eqm(n["jnt_vel"].as<M>(), v, "saved joint motion"); eqm(n["jnt_acc"].as<M>(), a, "saved joint motion"); eqm(n["time_vec"].as<M>(), tv, "saved times");
  for (int e = 0; e < w.k.nE; e++) { M F = M::Zero(3, T), q = M::Zero(1, T); for (int t = 0; t < T; t++) { int s; if (w.at(t, e, &s)) { F.col(t) = w.f[e].col(s); q(0, t) = w.trq[e](0, s); } } eqm(n["eef_frc_" + std::to_string(e)].as<M>(), F, "saved forces"); eqm(n["eef_trq_" + std::to_string(e)].as<M>(), q, "saved torques"); eqm(n["eef_cop_" + std::to_string(e)].as<M>(), w.cop[e], "saved centres of pressure"); } }
extern "C" void e_init() { static World w; int d = sx_choose("default_settings", 0, 1); YAML::file("dyn.yaml"); w.s.use_default_solver_setting_ = d; w.defaults = d; int k = sx_choose("case", 0, 3); mk(w, k, H(sx_choose("heuristic", 0, 2)), true); auto& S = w.o.dynamicsSequence(); sx_assert(S.size() == w.k.T, "one state per time step"); for (int t = 0; t < w.k.T; t++) sx_eq(S.dynamicsState(t).time(), w.dt, "step duration"); sx_eq(w.o.model_.getSetting().get(solver::SolverDoubleParam_SoftConstraintWeightReduced), d ? 16 : 8, "solver settings come from the chosen file"); }
