// Planner settings: what the file says is what the planner sees, under every mode; derived values; read/write access.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#include <momentumopt/setting/PlannerSetting.hpp>
#undef private
using namespace momentumopt; typedef Eigen::VectorXd V;
enum Mode { always, kin, first, second, timeopt };
struct D { const char* key; PlannerDoubleParam p; Mode m; }; struct I { const char* key; PlannerIntParam p; Mode m; int lo, hi; }; struct B { const char* key; PlannerBoolParam p; Mode m; }; struct VV { const char* key; PlannerVectorParam p; Mode m; int n; };
#define PD(x) PlannerDoubleParam_##x
#define PV(x) PlannerVectorParam_##x
#define PI(x) PlannerIntParam_##x
static const D doubles[] = {
 {"time_step", PD(TimeStep), always}, {"time_horizon", PD(TimeHorizon), always}, {"min_rel_height", PD(MinRelHeight), always}, {"gravity", PD(Gravity), always}, {"robot_mass", PD(RobotMass), always}, {"floor_height", PD(FloorHeight), always}, {"friction_coeff", PD(FrictionCoefficient), always}, {"w_trq_arm", PD(WeightArmTorque), always}, {"w_trq_leg", PD(WeightLegTorque), always},
 {"max_time_residual_tolerance", PD(MaxTimeResidualTolerance), timeopt}, {"min_time_residual_improvement", PD(MinTimeResidualImprovement), timeopt}, {"w_time", PD(WeightTimeRegularization), timeopt}, {"w_time_penalty", PD(WeightTimePenalty), timeopt},
 {"slacks_penalty", PD(KinSlacksPenalty), kin}, {"integration_step", PD(KinIntegrationStep), kin}, {"lambda_regularization", PD(LambdaRegularization), kin}, {"convergence_tolerance", PD(KinConvergenceTolerance), kin},
 {"swing_traj_via_z", PD(SwingTrajViaZ), first}, {"w_lin_mom_tracking", PD(WeightLinMomentumTracking), first}, {"w_ang_mom_tracking", PD(WeightAngMomentumTracking), first}, {"w_endeff_contact", PD(WeightEndEffContact), first}, {"w_endeff_tracking", PD(WeightEndEffTracking), first}, {"p_endeff_tracking", PD(PGainEndEffTracking), first}, {"p_com_tracking", PD(PGainComTracking), first}, {"w_joint_regularization", PD(WeightJointReg), first}, {"reg_orientation", PD(PGainOrientationTracking), first}, {"reg_joint_position", PD(PGainPositionTracking), first},
 {"swing_traj_via_z_second", PD(SwingTrajViaZ_Second), second}, {"w_lin_mom_tracking_second", PD(WeightLinMomentumTracking_Second), second}, {"w_ang_mom_tracking_second", PD(WeightAngMomentumTracking_Second), second}, {"w_endeff_contact_second", PD(WeightEndEffContact_Second), second}, {"w_endeff_tracking_second", PD(WeightEndEffTracking_Second), second}, {"p_endeff_tracking_second", PD(PGainEndEffTracking_Second), second}, {"p_com_tracking_second", PD(PGainComTracking_Second), second}, {"w_joint_regularization_second", PD(WeightJointReg_Second), second}, {"d_endeff_tracking_second", PD(DGainEndEffTracking_Second), second}, {"p_orient_tracking_second", PD(PGainBaseOrientationTracking_Second), second}, {"d_orient_tracking_second", PD(DGainBaseOrientationTracking_Second), second}, {"p_joint_regularization_second", PD(PGainJointRegularization_Second), second}, {"d_joint_regularization_second", PD(DGainJointRegularization_Second), second}};
static const I ints[] = {{"num_dofs", PI(NumDofs), kin, 1, 40}, {"kd_iterations", PI(KinDynIterations), kin, 0, 50}, {"num_subsamples", PI(NumSubsamples), kin, 0, 50}, {"max_trajectory_iters", PI(MaxKinTrajectoryIterations), kin, 0, 99}, {"max_convergence_iters", PI(MaxKinConvergenceIterations), kin, 0, 99}, {"n_act_eefs", PI(NumActiveEndeffectors), always, 0, 4}, {"max_time_iterations", PI(MaxNumTimeIterations), timeopt, 0, 99}};
static const B bools[] = {{"is_time_horizon_fixed", PlannerBoolParam_IsTimeHorizonFixed, timeopt}, {"display_motion", PlannerBoolParam_DisplayMotion, kin}, {"store_data", PlannerBoolParam_StoreData, always}, {"use_default_solver_setting", PlannerBoolParam_UseDefaultSolverSetting, always}};
static const VV vectors[] = {
 {"external_force", PV(ExternalForce), always, 3}, {"com_displacement", PV(CenterOfMassMotion), always, 3}, {"torque_range", PV(TorqueRange), always, 2}, {"max_eef_lengths", PV(MaxEndeffectorLengths), always, 4}, {"time_range", PV(TimeRange), timeopt, 2},
 {"w_com", PV(WeightCenterOfMass), always, 3}, {"w_amom", PV(WeightAngularMomentum), always, 3}, {"w_lmom", PV(WeightLinearMomentum), always, 3}, {"w_amomd", PV(WeightAngularMomentumRate), always, 3}, {"w_lmomd", PV(WeightLinearMomentumRate), always, 3}, {"w_com_via", PV(WeightCenterOfMassViapoint), always, 3}, {"w_frc_arm", PV(WeightArmForce), always, 3}, {"w_frc_leg", PV(WeightLegForce), always, 3}, {"w_dfrc_arm", PV(WeightArmForceRate), always, 3}, {"w_dfrc_leg", PV(WeightLegForceRate), always, 3}, {"w_amom_final", PV(WeightFinalAngularMomentum), always, 3}, {"w_lmom_final", PV(WeightFinalLinearMomentum), always, 3}, {"w_com_track", PV(WeightDynamicTrackingCenterOfMass), always, 3}, {"w_lmom_track", PV(WeightDynamicTrackingLinearMomentum), always, 3}, {"w_amom_track", PV(WeightDynamicTrackingAngularMomentum), always, 3},
 {"min_joint_limits", PV(MinJointAngles), kin, 2}, {"max_joint_limits", PV(MaxJointAngles), kin, 2}, {"default_joint_positions", PV(KinematicDefaultJointPositions), kin, 2}, {"w_kin_com", PV(WeightKinematicTrackingCenterOfMass), kin, 3}, {"w_kin_lmom", PV(WeightKinematicTrackingLinearMomentum), kin, 3}, {"w_kin_amom", PV(WeightKinematicTrackingAngularMomentum), kin, 3}, {"w_kin_lmomd", PV(WeightKinematicTrackingLinearMomentumRate), kin, 3}, {"w_kin_amomd", PV(WeightKinematicTrackingAngularMomentumRate), kin, 3}, {"w_kin_eff_pos", PV(WeightKinematicTrackingEndeffectorPosition), kin, 3}, {"w_kin_base_ori", PV(WeightKinematicTrackingBaseOrientation), kin, 3}, {"w_kin_joint_vel", PV(WeightJointVelocity), kin, 2}, {"w_kin_joint_acc", PV(WeightJointAcceleration), kin, 2}, {"w_kin_eff_pos_nonact", PV(WeightKinematicTrackingNonActiveEndeffectorPosition), kin, 3}, {"w_kin_default_joints", PV(WeightKinematicDefaultJointPositions), kin, 2}, {"p_mom_tracking_second", PV(PGainMomentumTracking_Second), second, 6}};
static const char* EFF[4] = {"rf", "lf", "rh", "lh"};
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real((p + std::to_string(i)).c_str()); return v; }
template <class A, class C> static void eqv(const A& a, const C& b, const char* l) { sx_assert(a.size() == b.size(), l); if (a.size() == b.size()) for (int i = 0; i < a.size(); i++) sx_eq(a[i], b[i], l); }
// a section of a file; fractions of the planned horizon are avoided by a step of 1/4
struct Setup { bool load, second_; int heur, cone, steps, com, jnt, base; std::vector<double> d; std::vector<int> i; std::vector<bool> b; std::vector<V> v; V cop[4], off[4]; std::vector<V> comV, jntV, baseV; std::vector<int> act; double extra;
  bool on(Mode m) const { return m == always || (m == kin && load) || (m == first && load && !second_) || (m == second && load && second_) || (m == timeopt && heur == 2); } };
static Setup describe(YAML::Node n, const std::string& t, bool load, bool sec, int heur) {
  Setup s; s.load = load; s.second_ = sec; s.heur = heur; int k = sx_choose((t + "flag").c_str(), 0, 5), kk = 0; s.cone = k == 4; s.com = k % 3; s.jnt = load ? 2 - s.com : 0; s.base = load ? s.com : 0; s.steps = 3 + s.com;
  static const char* H[5] = {"TrustRegion", "SoftConstraint", "TimeOptimization", "trustregion", ""}; n["load_kinematics"] = load; n["heuristic"] = H[heur]; n["friction_cone"] = s.cone ? "LinearCone" : "SocCone"; n["num_com_viapoints"] = s.com; n["use_second_order_inv_kin"] = sec;
  s.extra = k & 1 ? 0.125 : 0; for (auto& e : doubles) { double x = sx_real((t + e.key).c_str()); if (e.p == PD(TimeStep)) x = 0.25; if (e.p == PD(TimeHorizon)) x = 0.25 * s.steps + s.extra; s.d.push_back(x); n[e.key] = x; }
  for (auto& e : ints) { int x = e.p == PI(NumDofs) ? 3 : 2 + 3 * s.i.size() + k; s.i.push_back(x); n[e.key] = x; } for (auto& e : bools) { bool x = k == kk++; s.b.push_back(x); n[e.key] = x; } for (auto& e : vectors) { V x = sv(t + e.key, e.n); s.v.push_back(x); n[e.key] = x; }
  for (int e = 0; e < 4; e++) { s.cop[e] = sv(t + "cop" + EFF[e], 4); s.off[e] = sv(t + "off" + EFF[e], 3); n[std::string("cop_range_") + EFF[e]] = s.cop[e]; n[std::string("eff_offset_") + EFF[e]] = s.off[e]; }
  std::string sf = sec ? "_second" : ""; n["num_joint_viapoints" + sf] = s.jnt; n["num_base_viapoints" + sf] = s.base; auto add = [&](const std::string& key, int k, int sz, std::vector<V>& o) { for (int i = 0; i < k; i++) { o.push_back(sv(t + key + std::to_string(i) + "_", sz)); n[key]["via" + std::to_string(i)] = o.back(); } };
  add("com_viapoints", s.com, 4, s.comV); add("joint_viapoints" + sf, s.jnt, 4, s.jntV); add("base_viapoints" + sf, s.base, 4, s.baseV); s.act = s.com == 2 ? std::vector<int>{2, 0} : std::vector<int>{1}; V a(s.act.size()); for (size_t i = 0; i < s.act.size(); i++) a[i] = s.act[i]; n["active_dofs"] = a; return s;
}
static void checkSetting(const PlannerSetting& p, const Setup& s, bool firstLoad) {
  static const int HH[5] = {(int)Heuristic::TrustRegion, (int)Heuristic::SoftConstraint, (int)Heuristic::TimeOptimization, (int)Heuristic::SoftConstraint, (int)Heuristic::SoftConstraint}; sx_assert((int)p.heuristic() == HH[s.heur], "heuristic");
  for (size_t k = 0; k < s.d.size(); k++) if (s.on(doubles[k].m)) sx_eq(p.get(doubles[k].p), s.d[k], doubles[k].key); for (size_t k = 0; k < s.i.size(); k++) if (s.on(ints[k].m)) sx_assert(p.get(ints[k].p) == s.i[k], ints[k].key); for (size_t k = 0; k < s.b.size(); k++) if (s.on(bools[k].m)) sx_assert(p.get(bools[k].p) == s.b[k], bools[k].key); for (size_t k = 0; k < s.v.size(); k++) if (s.on(vectors[k].m)) eqv(p.get(vectors[k].p), s.v[k], vectors[k].key);
  sx_assert(p.get(PlannerBoolParam_LoadKinematics) == s.load, "load_kinematics"); sx_assert(p.get(PlannerBoolParam_IsFrictionConeLinear) == bool(s.cone), "friction_cone"); if (s.load) sx_assert(p.get(PlannerBoolParam_UseSecondOrderInverseKinematics) == s.second_, "use_second_order_inv_kin");
  for (int e = 0; e < 4; e++) { eqv(p.get(PlannerArrayParam_CenterOfPressureRange)[e], s.cop[e], "centre of pressure range of the end effector"); eqv(p.get(PlannerArrayParam_EndeffectorOffset)[e], s.off[e], "offset of the end effector"); }
  sx_eq(p.get(PD(MassTimesGravity)), s.d[4] * s.d[3], "mass times gravity"); sx_eq(p.get(PD(RobotWeight)), s.d[4] * s.d[3], "mass times gravity"); eqv(p.get(PV(GravityVector)), Eigen::Vector3d(0, 0, -s.d[3]), "gravity points down"); sx_assert(p.get(PI(NumTimesteps)) == s.steps, "number of whole time steps in the horizon");
  auto vias = [&](PlannerCVectorParam q, const std::vector<V>& w, const char* l) { sx_assert(p.get(q).size() == w.size(), l); for (size_t i = 0; i < w.size() && i < p.get(q).size(); i++) eqv(p.get(q)[i], w[i], l); }; vias(PlannerCVectorParam_Viapoints, s.comV, "centre of mass via points"); sx_assert(p.get(PI(NumViapoints)) == s.com, "number of via points");
  if (s.load) { vias(s.second_ ? PlannerCVectorParam_JointViapoints_Second : PlannerCVectorParam_JointViapoints, s.jntV, "joint via points"); vias(s.second_ ? PlannerCVectorParam_BaseViapoints_Second : PlannerCVectorParam_BaseViapoints, s.baseV, "base via points"); sx_assert(p.get(s.second_ ? PI(NumJointViapoints_Second) : PI(NumJointViapoints)) == s.jnt, "number of via points"); sx_assert(p.get(s.second_ ? PI(NumBaseViapoints_Second) : PI(NumBaseViapoints)) == s.base, "number of via points");
    int na = s.act.size(); sx_assert(p.get(PI(NumActiveDofs)) == na && p.get(PI(NumExtendedActiveDofs)) == na + 6, "active degrees of freedom"); auto a = p.get(PlannerIntVectorParam_ActiveDofs); auto x = p.get(PlannerIntVectorParam_ExtendedActiveDofs); sx_assert(a.size() == na && x.size() == na + 6, "active degrees of freedom"); for (int i = 0; i < na && i < a.size(); i++) sx_assert(a[i] == s.act[i], "active degrees of freedom"); for (int i = 0; i < na + 6 && i < x.size(); i++) sx_assert(x[i] == (i < 6 ? i : 6 + s.act[i - 6]), "the base comes first, then the active joints"); }
  else if (firstLoad) sx_assert(p.get(PI(NumActiveDofs)) == 0 && p.get(PI(NumExtendedActiveDofs)) == 0 && p.get(PI(NumDofs)) == 0, "no joints without kinematics");
}
static void loadCase(bool load, bool sec) { int heur = sx_choose("heuristic", 0, 4); bool other = heur & 1; YAML::Node n = YAML::file("some_cfg.yaml")[other ? "mine" : "planner_variables"]; Setup s = describe(n, "", load, sec, heur); PlannerSetting p; if (other) p.initialize("some_cfg.yaml", "mine"); else p.initialize("some_cfg.yaml"); checkSetting(p, s, true); sx_assert(p.get(PlannerStringParam_ConfigFile) == "some_cfg.yaml", "configuration file name"); sx_assert(p.get(PlannerStringParam_SaveKinematicsFile) == "some_cfg_kin_results.yaml", "result file beside the configuration"); sx_assert(p.get(PlannerStringParam_DefaultSolverSettingFile) == "default_solver_setting.yaml", "default solver setting"); }
extern "C" void e_load_dyn() { loadCase(false, false); }
extern "C" void e_load_kin1() { loadCase(true, false); }
extern "C" void e_load_kin2() { loadCase(true, true); }
extern "C" void e_reload() {   // loading another file replaces everything it states
  YAML::Node a = YAML::file("a.yaml")["planner_variables"], b = YAML::file("b.yaml")["planner_variables"]; int m1 = sx_choose("m1", 0, 2), m2 = sx_choose("m2", 0, 2); Setup s = describe(a, "a_", m1 > 0, m1 == 2, 2), t = describe(b, "b_", m2 > 0, m2 == 2, sx_choose("heuristic", 0, 2)); PlannerSetting p; p.initialize("a.yaml"); p.initialize("b.yaml"); checkSetting(p, t, false); sx_assert(p.get(PlannerStringParam_ConfigFile) == "b.yaml", "configuration file name"); (void)s;
}
extern "C" void e_access() {   // writing one parameter changes it, for every reader, and no other
  PlannerSetting p; const PlannerSetting& c = p; for (auto& e : vectors) if (e.n == 2 && e.m == kin) { } for (V* v : {&p.default_joint_positions_, &p.w_kin_default_joints_, &p.w_kin_joint_vel_, &p.w_kin_joint_acc_, &p.min_joint_limits_, &p.max_joint_limits_, &p.p_mom_tracking_second_}) v->setZero(2);
  std::vector<double> d; int k = 0; auto fresh = [&](const char* n) { return sx_real((std::string("new_") + n).c_str()); };
  for (auto& e : doubles) { d.push_back(fresh(e.key)); p.get(e.p) = d.back(); } double mg = fresh("mg"); p.get(PD(MassTimesGravity)) = mg; std::vector<V> v; for (auto& e : vectors) { v.push_back(sv(std::string("new_") + e.key, p.get(e.p).size())); p.get(e.p) = v.back(); } V g = sv("new_gravity", 3); p.get(PV(GravityVector)) = g;
  static const PlannerIntParam ip[15] = {PI(NumDofs), PI(NumTimesteps), PI(NumViapoints), PI(NumJointViapoints), PI(NumBaseViapoints), PI(NumJointViapoints_Second), PI(NumBaseViapoints_Second), PI(NumActiveDofs), PI(MaxNumTimeIterations), PI(NumExtendedActiveDofs), PI(NumActiveEndeffectors), PI(MaxKinTrajectoryIterations), PI(MaxKinConvergenceIterations), PI(NumSubsamples), PI(KinDynIterations)}; int iv[15]; for (int i = 0; i < 15; i++) { iv[i] = sx_int(nm("int", i).c_str(), -9, 99); p.get(ip[i]) = iv[i]; }
  static const PlannerBoolParam bp[7] = {PlannerBoolParam_IsTimeHorizonFixed, PlannerBoolParam_IsFrictionConeLinear, PlannerBoolParam_DisplayMotion, PlannerBoolParam_LoadKinematics, PlannerBoolParam_StoreData, PlannerBoolParam_UseDefaultSolverSetting, PlannerBoolParam_UseSecondOrderInverseKinematics}; bool bv[7]; for (int i = 0; i < 7; i++) { bv[i] = sx_bool(nm("bool", i).c_str()); p.get(bp[i]) = bv[i]; }
  static const PlannerCVectorParam cp[5] = {PlannerCVectorParam_Viapoints, PlannerCVectorParam_JointViapoints, PlannerCVectorParam_BaseViapoints, PlannerCVectorParam_JointViapoints_Second, PlannerCVectorParam_BaseViapoints_Second}; V cv[5]; for (int i = 0; i < 5; i++) { cv[i] = sv(nm("via", i), 2); p.get(cp[i]).assign(i + 1, cv[i]); } V cop = sv("ncop", 4), off = sv("noff", 3); p.get(PlannerArrayParam_CenterOfPressureRange)[1] = cop; p.get(PlannerArrayParam_EndeffectorOffset)[1] = off;
  p.get(PlannerStringParam_ConfigFile) = "c"; p.get(PlannerStringParam_SaveDynamicsFile) = "d"; p.get(PlannerStringParam_SaveKinematicsFile) = "k"; p.get(PlannerStringParam_DefaultSolverSettingFile) = "s"; p.active_dofs_.setZero(2); p.extended_active_dofs_.setZero(2); p.get(PlannerIntVectorParam_ActiveDofs)[1] = 5; p.get(PlannerIntVectorParam_ExtendedActiveDofs)[1] = 7; p.heuristic() = Heuristic::TimeOptimization;
  for (auto& e : doubles) { sx_eq(c.get(e.p), d[k], e.key); sx_eq(p.get(e.p), d[k++], e.key); } sx_eq(c.get(PD(RobotWeight)), mg, "weight"); sx_eq(c.get(PD(MassTimesGravity)), mg, "weight"); k = 0; for (auto& e : vectors) { eqv(c.get(e.p), v[k], e.key); eqv(p.get(e.p), v[k++], e.key); } eqv(c.get(PV(GravityVector)), g, "gravity"); for (int i = 0; i < 15; i++) { sx_assert(c.get(ip[i]) == iv[i], "integer parameter"); sx_assert(p.get(ip[i]) == iv[i], "integer parameter"); } for (int i = 0; i < 7; i++) { sx_assert(c.get(bp[i]) == bv[i], "boolean parameter"); sx_assert(p.get(bp[i]) == bv[i], "boolean parameter"); }
  for (int i = 0; i < 5; i++) { sx_assert((int)c.get(cp[i]).size() == i + 1, "via points"); eqv(c.get(cp[i])[i], cv[i], "via points"); } eqv(c.get(PlannerArrayParam_CenterOfPressureRange)[1], cop, "centre of pressure range"); eqv(c.get(PlannerArrayParam_EndeffectorOffset)[1], off, "offset");
  sx_assert(c.get(PlannerStringParam_ConfigFile) == "c" && c.get(PlannerStringParam_SaveDynamicsFile) == "d" && c.get(PlannerStringParam_SaveKinematicsFile) == "k" && c.get(PlannerStringParam_DefaultSolverSettingFile) == "s", "file names"); sx_assert(c.get(PlannerIntVectorParam_ActiveDofs)[1] == 5 && c.get(PlannerIntVectorParam_ExtendedActiveDofs)[1] == 7 && c.heuristic() == Heuristic::TimeOptimization, "joint lists and heuristic");
}
extern "C" void e_missing() {   // a file without some required key: nothing after it is read, the caller is not stopped
  static const char* drop[3] = {"gravity", "w_com", "store_data"}; int k = sx_choose("drop", 0, 2); YAML::Node n = YAML::file("a.yaml")["planner_variables"]; Setup s = describe(n, "", false, false, 1); for (auto& q : n.d->kids) if (q.first == drop[k]) q.second = std::make_shared<YAML::Data>(); PlannerSetting p; p.initialize("a.yaml"); sx_eq(p.get(PD(TimeStep)), 0.25, "values before the missing one are loaded"); if (k) sx_eq(p.get(PD(RobotMass)), s.d[4], "values before the missing one are loaded"); int thrown = 0; try { ((const PlannerSetting&)p).get((PlannerDoubleParam)999); } catch (std::runtime_error&) { thrown++; } try { ((const PlannerSetting&)p).get((PlannerVectorParam)999); } catch (std::runtime_error&) { thrown++; } try { p.get((PlannerIntParam)999); } catch (std::runtime_error&) { thrown++; } try { p.get((PlannerBoolParam)999); } catch (std::runtime_error&) { thrown++; } sx_assert(thrown == 4, "unknown parameters are refused");
}
