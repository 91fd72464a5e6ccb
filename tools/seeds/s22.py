exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="swing-time-of-first-step", property="P24", edits=[(MS+"cntopt/ContactPlanInterface.cpp","      mapped_time += dyn_sequence.dynamicsState(time_id).time();","      mapped_time += dyn_sequence.dynamicsState(0).time();")],
 needs="a plan whose steps do not all have the same duration (time optimisation)", what="swing trajectories are timed as if every step lasted as long as the first one",
 files=FILES, demo_sh=sh(CNT), demo_cpp=HEAD+"#include <momentumopt/cntopt/ContactPlanFromFile.hpp>"+END+'''
int main() { PlannerSetting s; s.num_timesteps_ = 9; s.time_step_ = 0.1; s.load_kinematics_ = true; s.com_displacement_ = V3::Zero(); ContactPlanFromFile p; p.initialize(s); DynamicsState ini; ini.endeffectorActivation(0) = true;
  auto add = [&](double a, double b, V3 pos) { ContactState c; c.time_ini_ = a; c.time_end_ = b; c.position_ = pos; c.orientation_ = Q(1, 0, 0, 0); c.selected_as_active_ = true; p.contactSequence().endeffectorContacts(0).push_back(c); }; add(0, 0.25, V3(0, 0, 0)); add(0.75, 10, V3(0.4, 0, 0));
  ViapointState v; v.viapoint_id_ = 0; v.position_ = V3(0.2, 0, 0.1); p.viapointSequence().endeffectorViapoints(0).push_back(v);
  DynamicsSequence d; d.resize(9); double dur[9] = {0.1, 0.1, 0.3, 0.1, 0.2, 0.1, 0.15, 0.1, 0.1}; for (int t = 0; t < 9; t++) d.dynamicsState(t).time() = dur[t]; p.fillDynamicsSequence(ini, d); p.updateEndeffectorTrajectories(ini, d);
  TrajectoryGenerator g; int first = 0, last = 0; for (int t = 0; t < 9; t++) if (!d.dynamicsState(t).endeffectorActivation(0)) { if (!first) first = t; last = t; } double T[10]; T[0] = 0; for (int t = 0; t < 9; t++) T[t + 1] = T[t] + dur[t]; g.initialize(T[first + 1], V3(0, 0, 0), T[last + 1], V3(0.4, 0, 0), V3(0.2, 0, 0.1));
  for (int t = first; t <= last; t++) { g.update(T[t + 1]); if ((g.desPos() - d.dynamicsState(t).endeffectorPosition(0)).norm() > 1e-6) fail("swing position"); } return 0; }
''')
