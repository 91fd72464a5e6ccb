exec(open("/verif/tools/seeds/mompre.py").read())
KO=CNT+KIN+[MS+"kinopt/KinematicsOptimizer",MS+"kinopt/KinematicsInterface"]
S=dict(id="kin-acceleration-step", property="P39", edits=[(MS+"kinopt/KinematicsOptimizer.cpp","vars_[total_qd_.id(dof_id,time_id-1)])/dyn_sequence.dynamicsState(time_id).time(); }","vars_[total_qd_.id(dof_id,time_id-1)])/dyn_sequence.dynamicsState(time_id-1).time(); }")],
 needs="time steps of different durations, as after a time optimization", what="joint accelerations of a step are computed with the duration of the step before",
 files=FILES, demo_sh=sh(KO), demo_cpp=HEAD+"#include <momentumopt/cntopt/ContactPlanFromFile.hpp>\n#include <momentumopt/kinopt/KinematicsOptimizer.hpp>"+END+'''
struct Robot : KinematicsInterface {
  void initialize(PlannerSetting&) {}
  V3 logarithmicMap(const Eigen::Vector4d q) { return 2 * V3(q[1], q[2], q[3]); }
  KinematicsState integratePosture(KinematicsState& s, double dt) { KinematicsState r = s; auto& v = s.robotVelocity().generalizedJointVelocities(); r.robotPosture().basePosition() += dt * v.head(3); r.robotPosture().jointPositions() += dt * v.tail(s.numJoints()); return r; }
  void displayPosture(const KinematicsState&, double) {}
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double h) { KinematicsState r = b; auto& v = r.robotVelocity().generalizedJointVelocities(); v.setZero(); v.head(3) = (b.robotPosture().basePosition() - a.robotPosture().basePosition()) / h; v.tail(a.numJoints()) = (b.robotPosture().jointPositions() - a.robotPosture().jointPositions()) / h; return r; }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double) { int n = 6 + s.numJoints(); KinematicsState r = s; r.centerOfMass() = s.robotPosture().basePosition(); r.centerOfMass().z() += s.robotPosture().jointPositions()[0]; Eigen::MatrixXd c = Eigen::MatrixXd::Zero(3, n), m = Eigen::MatrixXd::Zero(6, n); c.leftCols(3).setIdentity(); c(2, 6) = 1; m.topRows(3) = c; for (int i = 0; i < 3; i++) m(3 + i, 3 + i) = 1; centerOfMassJacobian(c); centroidalMomentumMatrix(m); centroidalMomentumMatrixVariation(0 * m); endeffectorJacobians(std::vector<Eigen::MatrixXd>(4, 0 * m)); constraintsMatrix(Eigen::MatrixXd(0, n)); constraintsVector(Eigen::VectorXd(0)); return r; }
};
int main() { std::cout.setstate(std::ios::failbit); const int T = 4; static PlannerSetting s; s.initialize("cfg_biped.yaml"); s.num_dofs_ = 1; s.num_timesteps_ = T; s.num_act_eefs_ = 0; s.num_act_dofs_ = 1; s.num_extended_act_dofs_ = 7; s.active_dofs_ = Eigen::VectorXi::Zero(1); s.extended_active_dofs_ = Eigen::VectorXi(7); for (int i = 0; i < 7; i++) s.extended_active_dofs_[i] = i; s.use_default_solver_setting_ = true; s.store_data_ = s.display_motion_ = false; s.kin_integration_step_ = 0.5; s.convergence_tolerance_ = -1; s.max_convergence_iters_ = 0; s.max_trajectory_iters_ = 1; s.floor_height_ = 0; s.kin_slacks_penalty_ = 1; s.lambda_regularization_ = 1e-3;
  s.min_joint_limits_ = Eigen::VectorXd::Constant(1, -5); s.max_joint_limits_ = Eigen::VectorXd::Constant(1, 5); s.default_joint_positions_ = Eigen::VectorXd::Constant(1, 0.2); s.w_kin_default_joints_ = Eigen::VectorXd::Constant(1, 0.5); s.w_kin_joint_vel_ = Eigen::VectorXd::Constant(7, 0.01); s.w_kin_joint_acc_ = Eigen::VectorXd::Constant(7, 0.01); for (V3* v : {&s.w_kin_com_, &s.w_kin_lmom_, &s.w_kin_amom_, &s.w_kin_lmomd_, &s.w_kin_amomd_, &s.w_kin_eff_pos_, &s.w_kin_eff_pos_nonact_}) *v = V3(1, 1, 1);
  static ContactPlanFromFile p; p.initialize(s); static Robot r; static KinematicsOptimizer o; o.initialize(s, &r); o.model_.getSetting().set(solver::SolverBoolParam_Verbose, false); DynamicsState ini; ini.centerOfMass() = V3(0, 0, 0.8); ini.linearMomentum().setZero(); ini.angularMomentum().setZero(); DynamicsSequence d; d.resize(T); for (int t = 0; t < T; t++) { auto& k = d.dynamicsState(t); k.time() = 0.1 * (1 + (t * 2) % 3); k.centerOfMass() = V3(0.1 * t, 0.05 * t * t, 0.8 - 0.02 * t); k.linearMomentum() = V3(1, 0.5 * t, -0.2); k.angularMomentum().setZero(); }
  for (int t = 0; t < T; t++) o.kinematicsSequence().kinematicsState(t).robotPosture().baseOrientation() = Q(1, 0, 0, 0); o.optimize(ini, &p, d, false); double big = 0;
  Eigen::VectorXd before = Eigen::VectorXd::Zero(7); for (int t = 0; t < T; t++) { auto& k = o.kinematicsSequence().kinematicsState(t); Eigen::VectorXd v = k.robotVelocity().generalizedJointVelocities(), a = k.robotAcceleration().generalizedJointAccelerations(); for (int j = 0; j < 7; j++) if (j < 3 || j > 5) { big = std::max(big, std::fabs(a[j])); if (std::fabs(a[j] - (v[j] - before[j]) / d.dynamicsState(t).time()) > 1e-3 * (1 + std::fabs(a[j]))) { std::printf("%d %d %g %g\\n", t, j, a[j], (v[j] - before[j]) / d.dynamicsState(t).time()); fail("acceleration is not the change of velocity over the duration of the step"); } } before = v; } std::printf("largest acceleration %g\\n", big); if (big < 1e-2) fail("nothing moved"); return 0; }
''')
