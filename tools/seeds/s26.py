exec(open("/verif/tools/seeds/mompre.py").read())
SRC=[MS+x for x in ["dynopt/DynamicsState","dynopt/DynamicsFeedback","setting/PlannerSetting"]]+["solver_lqr/src/solver_lqr/"+x for x in "SolverLqr ForwardPass BackwardPass FiniteDifferences OcpDescription SolverLqrSetting LqrInfoPrinter".split()]
S=dict(id="feedback-lever-arm", property="P31", edits=[(MS+"dynopt/DynamicsFeedback.cpp","                                              (state.stateVector().segment<3>(0)+dstate.stateVector().segment<3>(0))).cross(","                                              (state.stateVector().segment<3>(0)+dt*dstate.stateVector().segment<3>(0))).cross(")],
 needs="a centre of mass that moves during the step", what="the lever arm of the contact forces in the feedback dynamics uses the centre-of-mass change scaled by the time step once more",
 files=FILES, demo_sh=sh(SRC), demo_cpp=HEAD+"#include <momentumopt/dynopt/DynamicsFeedback.hpp>"+END+'''
int main() { PlannerSetting s; s.num_act_eefs_ = 2; s.robot_mass_ = 2; s.gravity_vector_ = V3(0, 0, -9.81); s.mass_times_gravity_ = 2 * 9.81; solverlqr::SolverLqrSetting l; l.time_dimension_ = 2; l.state_dimension_ = 9; l.control_dimension_ = 6; l.time_step_ = 0.1; YAML::Node u; for (const char* k : {"control_cost", "com_tracking", "lmom_tracking", "amom_tracking", "com_final_tracking", "lmom_final_tracking", "amom_final_tracking"}) for (int i = 0; i < 3; i++) u[k].push_back(1.0); l.user_parameters_ = u;
  DynamicsFeedback f; f.initialize(l); f.setPlannerSetting(s); DynamicsSequence d; d.resize(2); DynamicsState ini; ini.centerOfMass() = V3(0, 0, 1); for (int t = 0; t < 2; t++) { d.dynamicsState(t).time() = 0.1; for (int e = 0; e < 2; e++) { d.dynamicsState(t).endeffectorActivation(e) = true; d.dynamicsState(t).endeffectorPosition(e) = V3(0.1, e ? 0.2 : -0.2, 0); d.dynamicsState(t).endeffectorForce(e) = V3(0, 0, 0.5); } } f.setStatesAndControls(ini, d);
  for (double v : {0.0, 1.5}) { solverlqr::StateBase x(9); x.stateVector() << 0, 0, 1, v, -v, 0.3 * v, 0, 0, 0; solverlqr::ControlBase c(9, 6); c.feedforward() << 1, 2, 9, -1, 3, 10; V3 g = s.gravity_vector_ * 2 * 0.1, F0(1, 2, 9), F1(-1, 3, 10); V3 dl = g + 0.1 * (F0 + F1), l1 = V3(v, -v, 0.3 * v) + dl, dc = 0.1 / 2 * l1, com = V3(0, 0, 1) + dc, da = 0.1 * ((V3(0.1, -0.2, 0) - com).cross(F0) + (V3(0.1, 0.2, 0) - com).cross(F1)); Eigen::VectorXd r = f.dynamics(x, c, 0).stateVector(); if ((r.segment<3>(0) - dc).norm() > 1e-9) fail("centre of mass"); if ((r.segment<3>(3) - dl).norm() > 1e-9) fail("linear momentum"); if ((r.segment<3>(6) - da).norm() > 1e-9) fail("angular momentum"); } return 0; }
''')
