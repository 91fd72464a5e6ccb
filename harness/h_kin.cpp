// Kinematics planner in C++: the posture and trajectory programs mean the documented tracking problems for the robot's own Jacobians, and what is stored integrates their solutions.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
#undef private
#undef protected
using namespace momentumopt; using solver::LinExpr; using solver::DCPQuadExpr; typedef Eigen::Vector3d V3; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Quaterniond Q;
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real((p + std::to_string(i)).c_str()); return v; }
static void same3(const V3& a, const V3& b, const char* l) { for (int i = 0; i < 3; i++) sx_eq(a[i], b[i], l); }
#include "model_record.h"
static double sq(double v) { return v * v; }
static V3 logq(const Q& q) { return V3(2 * q.x() + 0.5 * q.w(), 2 * q.y() - 0.25 * q.w(), 3 * q.z() + 0.125 * q.w()); }   // any map of the orientation
// ---- a robot whose functions are arbitrary but known
static void sameState(const KinematicsState& a, const KinematicsState& b, const char* l) { same3(a.robotPosture().basePosition(), b.robotPosture().basePosition(), l); for (int i = 0; i < a.numJoints(); i++) sx_eq(a.robotPosture().jointPositions()[i], b.robotPosture().jointPositions()[i], l); sx_eq(a.robotPosture().baseOrientation().x(), b.robotPosture().baseOrientation().x(), l); sx_eq(a.robotPosture().baseOrientation().z(), b.robotPosture().baseOrientation().z(), l); }
static KinematicsState integ(const KinematicsState& s, double dt) { KinematicsState r = s; const V& v = s.robotVelocity().generalizedJointVelocities(); r.robotPosture().basePosition() += dt * v.head(3); Q& q = r.robotPosture().baseOrientation(); q.x() += dt * v[3]; q.y() += dt * v[4]; q.z() += dt * v[5]; r.robotPosture().jointPositions() += dt * v.tail(s.numJoints()); return r; }
static KinematicsState diff(const KinematicsState& a, const KinematicsState& b, double h) { KinematicsState r = b; V& v = r.robotVelocity().generalizedJointVelocities(); v.head(3) = (b.robotPosture().basePosition() - a.robotPosture().basePosition()) / h; const Q &p = a.robotPosture().baseOrientation(), &q = b.robotPosture().baseOrientation(); v[3] = (q.x() - p.x()) / h; v[4] = (q.y() - p.y()) / h; v[5] = (q.z() - p.z()) / h; v.tail(a.numJoints()) = (b.robotPosture().jointPositions() - a.robotPosture().jointPositions()) / h; return r; }
struct Call { KinematicsState in, out; M com, cmm, cmmv; std::vector<M> eff; Call(const KinematicsState& s) : in(s), out(s) {} };
struct Toy : KinematicsInterface {
  std::vector<Call> calls; int nc = 0; bool known = false; double H = 0; std::vector<V3> comAt;
  void initialize(PlannerSetting&) {}
  V3 logarithmicMap(const Eigen::Vector4d q) { return logq(Q(q[0], q[1], q[2], q[3])); }
  KinematicsState integratePosture(KinematicsState& s, double dt) { sx_eq(dt, H, "integration step of the settings"); return integ(s, dt); }
  void displayPosture(const KinematicsState&, double) {}
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double h) { return diff(a, b, h); }
  static M mat(int r, int c, int k) { M m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = ((i * 7 + j * 3 + k * 5 + i * j * 2) % 13 - 5) * 0.25; return m; }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double) {
    int c = calls.size(), n = s.numJoints() + 6; calls.emplace_back(s); Call& k = calls.back(); k.com = mat(3, n, c); k.cmm = mat(6, n, c + 1); k.cmmv = mat(6, n, c + 3); for (int e = 0; e < 4; e++) k.eff.push_back(mat(6, n, 2 * c + e + 4));
    centerOfMassJacobian(k.com); centroidalMomentumMatrix(k.cmm); centroidalMomentumMatrixVariation(k.cmmv); endeffectorJacobians(k.eff); constraintsMatrix(mat(nc, n, c + 6)); V b(nc); for (int i = 0; i < nc; i++) b[i] = i + 0.5 * c; constraintsVector(b);
    KinematicsState& o = k.out; if (known) { o.centerOfMass() = comAt[std::min<size_t>(c, comAt.size() - 1)]; return o; } std::string t = "k" + std::to_string(c) + "_"; o.centerOfMass() = sv(t + "com", 3); o.linearMomentum() = sv(t + "lm", 3); o.angularMomentum() = sv(t + "am", 3); for (int e = 0; e < 4; e++) o.endeffectorPosition(e) = sv(t + "e" + std::to_string(e) + "_", 3); return o;
  }
};
#define FU _ZN11momentumopt20ContactPlanInterface29updateEndeffectorTrajectoriesERKNS_13DynamicsStateERNS_16DynamicsSequenceE
struct World { PlannerSetting s; ContactPlanFromFile plan; KinematicsOptimizer o; Toy toy; DynamicsState ini; DynamicsSequence dyn; int T, nE, nJ, nA; std::vector<int> act; double h; int solves = 0, updates = 0; std::vector<V> qd; std::vector<V> eefNew; };
static World* W;
extern "C" void CC(__wrap_, FU)(ContactPlanInterface*, const DynamicsState& i, DynamicsSequence& d) { World& w = *W; sx_assert(&i == &w.ini && w.solves == 0, "foot trajectories are updated first"); w.updates++; for (int t = 0; t < w.T; t++) for (int e = 0; e < w.nE; e++) d.dynamicsState(t).endeffectorPosition(e) = w.eefNew[t * 4 + e]; }
static void mk(World& w, int T, int nE, int nJ, std::vector<int> act, bool free) {
  W = &w; w.T = T; w.nE = nE; w.nJ = nJ; w.act = act; w.nA = act.size(); PlannerSetting& s = w.s; auto p = [&](const std::string& n) { return free ? sx_real_in(n.c_str(), 0.001, 1000) : 1.0; };
  s.num_dofs_ = nJ; s.num_timesteps_ = T; s.num_act_eefs_ = nE; s.num_act_dofs_ = w.nA; s.num_extended_act_dofs_ = 6 + w.nA; s.active_dofs_ = Eigen::VectorXi(w.nA); s.extended_active_dofs_ = Eigen::VectorXi(6 + w.nA); for (int i = 0; i < 6; i++) s.extended_active_dofs_[i] = i; for (int i = 0; i < w.nA; i++) { s.active_dofs_[i] = act[i]; s.extended_active_dofs_[6 + i] = 6 + act[i]; }
  s.use_default_solver_setting_ = false; s.cfg_file_ = "kin.yaml"; s.default_solver_setting_file_ = "kin_default.yaml"; solverFile("kin.yaml"); solverFile("kin_default.yaml"); s.store_data_ = false; s.display_motion_ = false; s.time_step_ = 0.25; s.time_horizon_ = 0.25 * T; s.num_subsamples_ = 2; s.save_kinematics_file_ = "/dev/null";
  w.h = w.toy.H = s.kin_integration_step_ = 0.5; s.convergence_tolerance_ = -1; s.max_convergence_iters_ = 1; s.max_trajectory_iters_ = 0; s.floor_height_ = sx_real("floor"); s.kin_slacks_penalty_ = p("w_slack"); s.lambda_regularization_ = p("w_lambda");
  s.min_joint_limits_ = sv("qmin", nJ); s.max_joint_limits_ = sv("qmax", nJ); s.default_joint_positions_ = sv("qdef", nJ); s.w_kin_default_joints_ = V(nJ); for (int i = 0; i < nJ; i++) s.w_kin_default_joints_[i] = p(nm("w_def", i)); s.w_kin_joint_vel_ = s.w_kin_joint_acc_ = V(6 + nJ); for (int i = 0; i < 6 + nJ; i++) { s.w_kin_joint_vel_[i] = i < 2 ? p(nm("w_vel", i)) : 1 + i; s.w_kin_joint_acc_[i] = i > 4 ? p(nm("w_acc", i)) : 2 + i; }
  int k = 0; for (V3* v : {&s.w_kin_com_, &s.w_kin_lmom_, &s.w_kin_amom_, &s.w_kin_lmomd_, &s.w_kin_amomd_, &s.w_kin_eff_pos_, &s.w_kin_eff_pos_nonact_}) for (int i = 0; i < 3; i++) (*v)[i] = i == k % 3 ? p(nm("w", k++)) : 1.0 + i + k;
  auto dstate = [&](DynamicsState& d, const std::string& t, int v) { d.centerOfMass() = sv(t + "com", 3); d.linearMomentum() = sv(t + "lm", 3); d.angularMomentum() = sv(t + "am", 3); for (int e = 0; e < 4; e++) { d.endeffectorPosition(e) = sv(t + "e" + std::to_string(e) + "_", 3); d.endeffectorActivation(e) = (v + e) % 2; } d.time() = 0.125 * (1 << v); };
  dstate(w.ini, "ini_", 0); w.dyn.resize(T); for (int t = 0; t < T; t++) dstate(w.dyn.dynamicsState(t), "d" + std::to_string(t) + "_", t + 1); for (int t = 0; t < T; t++) for (int e = 0; e < 4; e++) w.eefNew.push_back(sv("new" + std::to_string(t) + std::to_string(e) + "_", 3));
  w.plan.initialize(s); w.o.initialize(s, &w.toy); sx_assert(w.o.kinematicsSequence().size() == T, "one kinematic state per time step");
}
static V put(const solver::OptimizationVariable& v, const std::string& t) { int R = v.getNumRows(), C = v.getNumCols(); V x(R * C); for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { x[c * R + r] = sx_real((t + std::to_string(r) + "_" + std::to_string(c)).c_str()); W->o.vars_[v.id(r, c)].set(solver::SolverDoubleParam_X, x[c * R + r]); } return x; }
static void putv(const solver::OptimizationVariable& v, int r, int c, double x) { W->o.vars_[v.id(r, c)].set(solver::SolverDoubleParam_X, x); }
static void compare(std::vector<double> got, std::vector<double> want, int dir) { if (dir == 0) { for (double v : want) sx_assume(v <= -1e-5); for (double v : got) sx_assert(v <= 0, "the model accepts every admissible posture"); } else { for (double v : got) sx_assume(v <= -1e-5); for (double v : want) sx_assert(v <= 0, "the model accepts only admissible postures"); } }
enum { COST, EQ0, EQ1, IN0, IN1, STORE };
// one inverse kinematics step of the posture c towards d
static void posture(World& w, const Call& c, const DynamicsState& d, int what, const std::string& tag) {
  auto& o = w.o; PlannerSetting& s = w.s; int n = 6 + w.nA, nc = w.toy.nc; V qd = put(o.jnt_qd_, tag + "qd"); w.qd.push_back(qd); if (what == STORE) return; V q = put(o.jnt_q_, tag + "q"), qdd = put(o.jnt_qdd_, tag + "qdd"), tq = put(o.total_qd_, tag + "tq"), sl = put(o.slack_vars_, tag + "sl"); auto col = [&](int j) { return j < 6 ? j : 6 + w.act[j - 6]; };
  V want(w.nA); for (int j = 0; j < w.nA; j++) want[j] = c.out.robotPosture().jointPositions()[w.act[j]] + w.h * qd[6 + j];
  if (what == COST) {
    double r = 0; for (int i = 0; i < 3; i++) { double a = -(d.centerOfMass()[i] - c.out.centerOfMass()[i]) / w.h, l = -(d.linearMomentum()[i] - c.out.linearMomentum()[i]) / w.h, m = -(d.angularMomentum()[i] - c.out.angularMomentum()[i]) / w.h; for (int j = 0; j < n; j++) { a += c.com(i, col(j)) * qd[j]; l += c.cmm(i, col(j)) * qdd[j] + c.cmmv(i, col(j)) * tq[j]; m += c.cmm(3 + i, col(j)) * qdd[j] + c.cmmv(3 + i, col(j)) * tq[j]; } r += s.w_kin_com_[i] * a * a + s.w_kin_lmom_[i] * l * l + s.w_kin_amom_[i] * m * m;
      for (int e = 0; e < w.nE; e++) { double v = -(d.endeffectorPosition(e)[i] - c.out.endeffectorPosition(e)[i]) / w.h; for (int j = 0; j < n; j++) v += c.eff[e](i, col(j)) * qd[j]; r += (d.endeffectorActivation(e) ? s.w_kin_eff_pos_ : s.w_kin_eff_pos_nonact_)[i] * v * v; } }
    for (int j = 0; j < n; j++) r += s.lambda_regularization_ * (qd[j] * qd[j] + qdd[j] * qdd[j]); for (int i = 0; i < nc; i++) r += s.kin_slacks_penalty_ * sl[i] * sl[i]; for (int j = 0; j < w.nA; j++) r += s.w_kin_default_joints_[j] * sq(q[j] - s.default_joint_positions_[w.act[j]]);
    sx_eq(evq(costQ) + ev(costL), r, "posture objective is the documented weighted sum");
  }
  if (what == EQ0) { for (int j = 0; j < w.nA; j++) putv(o.jnt_q_, j, 0, want[j]); for (auto& r : recs) if (r.kind == 0) sx_eq(ev(r.e), 0, "joint positions integrated over the step satisfy the equalities"); }
  if (what == EQ1) { for (auto& r : recs) if (r.kind == 0) { double v = ev(r.e); sx_assume(v <= 1e-9); sx_assume(v >= -1e-9); } for (int j = 0; j < w.nA; j++) sx_assert(sx_and(q[j] - want[j] <= 1e-6, q[j] - want[j] >= -1e-6), "joint positions are those integrated over the step"); }
  if (what == IN0 || what == IN1) { std::vector<double> g, f; for (auto& r : recs) if (r.kind == 1) { double v = ev(r.e); g.push_back(r.ge ? -v : v); } M A = Toy::mat(nc, 6 + w.nJ, &c - &w.toy.calls[0] + 6); for (int i = 0; i < nc; i++) { double v = -(i + 0.5 * (&c - &w.toy.calls[0])) - sl[i]; for (int j = 0; j < n; j++) v += A(i, col(j)) * qd[j]; f.push_back(v); f.push_back(-sl[i]); } for (int j = 0; j < w.nA; j++) { f.push_back(s.min_joint_limits_[w.act[j]] - q[j]); f.push_back(q[j] - s.max_joint_limits_[w.act[j]]); } compare(g, f, what == IN1); }
}
// generalized velocities with the solved entries of the active joints
static void velocity(World& w, KinematicsState& k, const V& qd) { V& v = k.robotVelocity().generalizedJointVelocities(); for (int j = 0; j < 6 + w.nA; j++) v[j < 6 ? j : 6 + w.act[j - 6]] = qd[j]; }
static std::vector<int> joints(int k) { return k == 0 ? std::vector<int>{0, 1} : k == 1 ? std::vector<int>{1} : k == 2 ? std::vector<int>{0} : std::vector<int>{2, 0}; }
static int dofs(int k) { return k == 3 ? 3 : 2; }
static void go(World& w, bool first, std::function<void(int)> f) { World* p = &w; hook = [p, f]() { f(p->solves); p->solves++; recs.clear(); costQ = DCPQuadExpr(); costL = LinExpr(0.0); return solver::ExitCode::Optimal; }; recs.clear(); w.o.optimize(w.ini, &w.plan, w.dyn, first); sx_assert(w.updates == 1, "foot trajectories are updated once"); }
static void postures(int what) {
  static World w; int k = sx_choose("joints", 0, 3), nE = sx_choose("feet", 0, 2); w.toy.nc = (k + nE) % 3; mk(w, 1, nE, dofs(k), joints(k), what == COST); w.s.max_convergence_iters_ = 2; int which = sx_choose("solve", 0, 3);
  go(w, true, [&](int n) { sx_assert(int(w.toy.calls.size()) == n + 1, "one evaluation of the robot per step"); posture(w, w.toy.calls.back(), n < 2 ? w.ini : w.dyn.dynamicsState(0), n == which ? what : STORE, "x" + std::to_string(n) + "_"); }); sx_assert(w.solves == 4, "every posture is refined the configured number of times");
}
extern "C" void e_posture_cost() { postures(COST); }
extern "C" void e_posture_eq() { postures(sx_choose("direction", EQ0, EQ1)); }
extern "C" void e_posture_ineq() { postures(sx_choose("direction", IN0, IN1)); }
static void checkVel(const KinematicsState& a, const KinematicsState& b, const char* l) { for (int i = 0; i < 6 + a.numJoints(); i++) sx_eq(a.robotVelocity().generalizedJointVelocities()[i], b.robotVelocity().generalizedJointVelocities()[i], l); }
// every state is the previous posture moved along the solved velocities, and carries the average velocity since the previous one
extern "C" void e_posture_flow() {
  static World w; int k = sx_choose("joints", 0, 3), T = sx_choose("T", 1, 2), it = sx_choose("iterations", 0, 2), first = sx_choose("first", 0, 1); mk(w, T, 1, dofs(k), joints(k), false); w.s.max_convergence_iters_ = it; for (int t = 0; t < T; t++) w.o.kinematicsSequence().kinematicsState(t).robotPosture().jointPositions() = sv(nm("old", t), dofs(k));
  std::vector<KinematicsState> old; for (int t = 0; t < T; t++) old.push_back(w.o.kinematicsSequence().kinematicsState(t)); go(w, first, [&](int n) { posture(w, w.toy.calls.back(), w.ini, STORE, "x" + std::to_string(n) + "_"); }); sx_assert(w.solves == (first ? T + 1 : 1) * it, "number of solves");
  KinematicsState cur(dofs(k)); cur.robotPosture().jointPositions() = w.s.default_joint_positions_; int c = 0;
  for (int p = -1; p < (first ? T : 0); p++) { KinematicsState start = cur; for (int i = 0; i < it; i++, c++) { sameState(w.toy.calls[c].in, cur, "each refinement starts from the posture reached so far"); cur = w.toy.calls[c].out; velocity(w, cur, w.qd[c]); cur = diff(start, integ(cur, w.h), (p < 0 ? w.ini : w.dyn.dynamicsState(p)).time()); }
    if (p < 0) { cur.linearMomentum() = w.ini.linearMomentum(); cur.angularMomentum() = w.ini.angularMomentum(); cur.robotVelocity().generalizedJointVelocities().setZero(); cur.robotAcceleration().generalizedJointAccelerations().setZero(); } const KinematicsState& g = p < 0 ? *w.o.ini_state_ : w.o.kinematicsSequence().kinematicsState(p); sameState(g, cur, p < 0 ? "initial posture" : "stored posture"); checkVel(g, cur, p < 0 ? "the robot starts at rest" : "stored velocity"); same3(g.linearMomentum(), cur.linearMomentum(), "stored momentum"); same3(g.centerOfMass(), cur.centerOfMass(), "stored centre of mass"); }
  if (!first) for (int t = 0; t < T; t++) sameState(w.o.kinematicsSequence().kinematicsState(t), old[t], "later kinematic optimizations keep the previous postures as linearisation");
}
extern "C" void e_converge() {   // refinement stops exactly when the error or its improvement is within the tolerance
  static World w; int n = sx_choose("case", 0, 2); w.toy.known = true; static const double D[3][4] = {{4, 2, 0.25, 0.125}, {3, 3, 1, 0.5}, {1, 2, 1.75, 1.5}}; mk(w, 1, 0, 1, {0}, false); w.ini.centerOfMass().setZero(); w.ini.linearMomentum().setZero(); w.ini.angularMomentum().setZero(); for (double d : D[n]) w.toy.comAt.push_back(V3(0, 0, d)); double tol = w.s.convergence_tolerance_ = sx_real_in("tolerance", 0, 20); w.s.max_convergence_iters_ = 4; int want = 0; double prev = 1e30;
  for (int i = 0; i < 4; i++) { double e = D[n][i] / w.h; if (sx_branch(sx_or(e < tol, std::abs(prev - e) < tol))) break; prev = e; want++; } go(w, false, [&](int) { put(w.o.jnt_qd_, "x" + std::to_string(w.solves)); }); sx_assert(w.solves == want, "refinement stops at convergence and not before");
}
// the whole horizon at once
static void trajectory(World& w, int what, const std::string& tag, int first) {
  auto& o = w.o; PlannerSetting& s = w.s; int T = w.T, n = 6 + w.nA; V qd = put(o.jnt_qd_, tag + "qd"), qdd = put(o.total_qdd_, tag + "qdd"); w.qd.push_back(qd); w.qd.push_back(qdd); if (what == STORE) return; V com = put(o.com_, tag + "com"), lm = put(o.lmom_, tag + "lm"), am = put(o.amom_, tag + "am"), q = put(o.jnt_q_, tag + "q"), tq = put(o.total_qd_, tag + "tq"); std::vector<V> ep, evl; for (int e = 0; e < w.nE; e++) { ep.push_back(put(o.eef_pos_[e], tag + "ep" + std::to_string(e) + "_")); evl.push_back(put(o.eef_vel_[e], tag + "ev" + std::to_string(e) + "_")); }
  auto col = [&](int j) { return j < 6 ? j : 6 + w.act[j - 6]; }; auto ref = [&](const KinematicsState& k, int j) { return j < 3 ? k.robotPosture().basePosition()[j] : j < 6 ? logq(k.robotPosture().baseOrientation())[j - 3] : k.robotPosture().jointPositions()[w.act[j - 6]]; }; auto at = [&](const V& v, int R, int r, int t) { return v[t * R + r]; };
  if (what == COST) { double r = 0; for (int t = 0; t < T; t++) { DynamicsState& d = w.dyn.dynamicsState(t); for (int i = 0; i < 3; i++) { double l = at(lm, 3, i, t), a = at(am, 3, i, t), l0 = t ? at(lm, 3, i, t - 1) : w.ini.linearMomentum()[i], a0 = t ? at(am, 3, i, t - 1) : w.ini.angularMomentum()[i]; r += s.w_kin_com_[i] * sq(d.centerOfMass()[i] - at(com, 3, i, t)) + s.w_kin_lmom_[i] * sq(d.linearMomentum()[i] - l) + s.w_kin_amom_[i] * sq(d.angularMomentum()[i] - a) + s.w_kin_lmomd_[i] * sq((l - l0) / d.time()) + s.w_kin_amomd_[i] * sq((a - a0) / d.time()); for (int e = 0; e < w.nE; e++) r += (d.endeffectorActivation(e) ? s.w_kin_eff_pos_ : s.w_kin_eff_pos_nonact_)[i] * sq(w.eefNew[t * 4 + e][i] - at(ep[e], 3, i, t)); }
      for (int j = 0; j < w.nA; j++) r += s.w_kin_default_joints_[j] * sq(s.default_joint_positions_[w.act[j]] - at(q, n, 6 + j, t)); for (int j = 0; j < n; j++) r += s.w_kin_joint_vel_[j] * sq(at(tq, n, j, t)) + s.w_kin_joint_acc_[j] * sq(at(qdd, n, j, t)); } sx_eq(evq(costQ) + ev(costL), r, "trajectory objective is the documented weighted sum"); return; }
  if (what == IN0 || what == IN1) { std::vector<double> g, f; for (auto& r : recs) if (r.kind == 1) { double v = ev(r.e); g.push_back(r.ge ? -v : v); } for (int t = 0; t < T; t++) { for (int e = 0; e < w.nE; e++) f.push_back(s.floor_height_ - at(ep[e], 3, 2, t)); for (int j = 0; j < w.nA; j++) { f.push_back(s.min_joint_limits_[w.act[j]] - at(q, n, 6 + j, t)); f.push_back(at(q, n, 6 + j, t) - s.max_joint_limits_[w.act[j]]); } } compare(g, f, what == IN1); return; }
  // every equality in terms of the joint velocities qd, which are free
  std::vector<std::pair<const solver::OptimizationVariable*, V>> want; V wc(3 * T), wl(3 * T), wa(3 * T), wq(n * T), wt(n * T), wa2(n * T); std::vector<V> we(w.nE, V(3 * T)), wv(w.nE, V(3 * T));
  for (int t = 0; t < T; t++) { const Call& c = w.toy.calls[first + t]; double h = w.dyn.dynamicsState(t).time(); for (int j = 0; j < n; j++) { wq[t * n + j] = ref(c.out, j) + w.h * at(qd, n, j, t); wt[t * n + j] = (wq[t * n + j] - (t ? wq[(t - 1) * n + j] : ref(*o.ini_state_, j))) / h; wa2[t * n + j] = (wt[t * n + j] - (t ? wt[(t - 1) * n + j] : 0)) / h; }
    for (int i = 0; i < 3; i++) { double a = c.out.centerOfMass()[i], l = 0, m = 0; for (int j = 0; j < n; j++) { a += w.h * c.com(i, col(j)) * at(qd, n, j, t); l += c.cmm(i, col(j)) * wt[t * n + j]; m += c.cmm(3 + i, col(j)) * wt[t * n + j]; } wc[3 * t + i] = a; wl[3 * t + i] = l; wa[3 * t + i] = m; for (int e = 0; e < w.nE; e++) { double v = 0; for (int j = 0; j < n; j++) v += c.eff[e](i, col(j)) * at(qd, n, j, t); wv[e][3 * t + i] = v; we[e][3 * t + i] = c.out.endeffectorPosition(e)[i] + w.h * v; } } }
  auto each = [&](std::function<void(const solver::OptimizationVariable&, const V&, const V&)> f) { f(o.com_, wc, com); f(o.lmom_, wl, lm); f(o.amom_, wa, am); f(o.jnt_q_, wq, q); f(o.total_qd_, wt, tq); f(o.total_qdd_, wa2, qdd); for (int e = 0; e < w.nE; e++) { f(o.eef_pos_[e], we[e], ep[e]); f(o.eef_vel_[e], wv[e], evl[e]); } };
  if (what == EQ0) { each([&](const solver::OptimizationVariable& v, const V& x, const V&) { for (int k = 0; k < x.size(); k++) putv(v, k % v.getNumRows(), k / v.getNumRows(), x[k]); }); for (auto& r : recs) if (r.kind == 0) sx_eq(ev(r.e), 0, "every motion of the linearised robot satisfies the equalities"); }
  else { for (auto& r : recs) if (r.kind == 0) { double v = ev(r.e); sx_assume(v <= 1e-9); sx_assume(v >= -1e-9); } each([&](const solver::OptimizationVariable&, const V& x, const V& y) { for (int k = 0; k < x.size(); k++) sx_assert(sx_and(y[k] - x[k] <= 1e-5, y[k] - x[k] >= -1e-5), "every feasible point is a motion of the linearised robot"); }); }
}
static void trajectories(int what) {
  static World w; int k = sx_choose("joints", 0, 3), nE = sx_choose("feet", 0, 2), T = sx_choose("T", 1, 2); if (what == EQ1 && T == 2 && nE == 2) sx_assume(false); mk(w, T, nE, dofs(k), joints(k), what == COST); w.s.max_convergence_iters_ = 0; w.s.max_trajectory_iters_ = 1; int first = 0;
  for (int t = 0; t < T; t++) { auto& p = w.o.kinematicsSequence().kinematicsState(t).robotPosture(); p.jointPositions() = sv(nm("old", t), dofs(k)); p.basePosition() = sv(nm("base", t), 3); p.baseOrientation() = Q(0.5 + t, 0.25, -0.5, 0.75 - t); }
  go(w, false, [&](int) { sx_assert(int(w.toy.calls.size()) == first + T, "one evaluation of the robot per time step"); for (int t = 0; t < T; t++) sameState(w.toy.calls[t].in, w.o.kinematicsSequence().kinematicsState(t), "the trajectory is linearised around the stored postures"); trajectory(w, what, "x", first); });
  sx_assert(w.solves == 1, "number of trajectory solves");
}
extern "C" void e_traj_cost() { trajectories(COST); }
extern "C" void e_traj_eq() { trajectories(sx_choose("direction", EQ0, EQ1)); }
extern "C" void e_traj_ineq() { trajectories(sx_choose("direction", IN0, IN1)); }
extern "C" void e_traj_flow() {   // stored states: postures moved along the solved velocities, velocities from consecutive postures, accelerations as solved; the file holds them
  static World w; int k = sx_choose("joints", 0, 3), T = sx_choose("T", 1, 2), it = sx_choose("iterations", 1, 2), store = sx_choose("store", 0, 1); mk(w, T, 1, dofs(k), joints(k), false); w.s.max_convergence_iters_ = 0; w.s.max_trajectory_iters_ = it; w.s.store_data_ = store; YAML::saved().clear();
  std::vector<KinematicsState> cur; for (int t = 0; t < T; t++) { auto& s = w.o.kinematicsSequence().kinematicsState(t); s.robotPosture().jointPositions() = sv(nm("old", t), dofs(k)); s.robotPosture().basePosition() = sv(nm("base", t), 3); cur.push_back(s); }
  go(w, false, [&](int n) { trajectory(w, STORE, "x" + std::to_string(n) + "_", n * T); }); sx_assert(w.solves == it, "number of trajectory solves"); int n = 6 + w.nA;
  for (int i = 0; i < it; i++) for (int t = 0; t < T; t++) { velocity(w, cur[t], w.qd[2 * i].segment(t * n, n)); cur[t] = diff(t ? cur[t - 1] : *w.o.ini_state_, integ(cur[t], w.h), w.dyn.dynamicsState(t).time()); V& a = cur[t].robotAcceleration().generalizedJointAccelerations(); for (int j = 0; j < n; j++) a[j < 6 ? j : 6 + w.act[j - 6]] = w.qd[2 * i + 1][t * n + j]; }
  for (int t = 0; t < T; t++) { auto& g = w.o.kinematicsSequence().kinematicsState(t); sameState(g, cur[t], "stored posture"); checkVel(g, cur[t], "stored velocity"); for (int j = 0; j < 6 + w.nJ; j++) sx_eq(g.robotAcceleration().generalizedJointAccelerations()[j], cur[t].robotAcceleration().generalizedJointAccelerations()[j], "stored acceleration"); }
  sx_assert(YAML::saved().size() == size_t(store), "the file is written exactly when asked for"); if (!store || YAML::saved().size() != 1) return; YAML::Node f = YAML::saved()[0]; sx_eq(f["time_step"].as<double>(), 0.25, "saved scalars"); auto eqv = [&](const V& a, const V& b, const char* l) { sx_assert(a.size() == b.size(), l); for (int i = 0; i < a.size() && i < b.size(); i++) sx_eq(a[i], b[i], l); };
  auto gen = [&](const KinematicsState& s) { V p(7 + w.nJ); auto& r = s.robotPosture(); p << r.basePosition(), r.baseOrientation().x(), r.baseOrientation().y(), r.baseOrientation().z(), r.baseOrientation().w(), r.jointPositions(); return p; }; eqv(f["initial_robot_configuration"]["generalized_joint_positions"].as<V>(), gen(*w.o.ini_state_), "saved initial configuration");
  for (int t = 0; t < T; t++) { YAML::Node d = f["dyn_state_" + std::to_string(t)]; sx_eq(d["time"].as<double>(), w.dyn.dynamicsState(t).time(), "saved durations"); eqv(d["generalized_joint_positions"].as<V>(), gen(cur[t]), "saved configurations"); eqv(d["generalized_joint_velocities"].as<V>(), cur[t].robotVelocity().generalizedJointVelocities(), "saved velocities"); eqv(d["generalized_joint_accelerations"].as<V>(), cur[t].robotAcceleration().generalizedJointAccelerations(), "saved accelerations"); }
}
extern "C" void e_unused() { alignas(KinematicsOptimizer) static unsigned char mem[sizeof(KinematicsOptimizer)]; for (auto& c : mem) c = 0x11; KinematicsOptimizer* o = new (mem) KinematicsOptimizer(); o->~KinematicsOptimizer(); sx_assert(true, "an optimizer that was never initialised can be destroyed"); }
