exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="slots-per-contact", property="P23", edits=[(MS+"cntopt/ContactPlanInterface.cpp","""        if (contact_sequence_.endeffectorContacts(eff_id)[cnt_id].selectedAsActive()) {
""","""        if (contact_sequence_.endeffectorContacts(eff_id)[cnt_id].selectedAsActive()) {
          if (cnt_id>1 && counter>0) { counter--; }
""")],
 needs="an end-effector with three or more contacts", what="from the third contact on, the first step of a contact shares its force variable with the last step of the previous contact",
 files=FILES, demo_sh=sh(CNT), demo_cpp=HEAD+"#include <momentumopt/cntopt/ContactPlanFromFile.hpp>"+END+'''
int main() { PlannerSetting s; s.num_timesteps_ = 12; s.time_step_ = 0.1; s.load_kinematics_ = false; ContactPlanFromFile p; p.initialize(s); DynamicsState ini; auto add = [&](double a, double b) { ContactState c; c.time_ini_ = a; c.time_end_ = b; c.orientation_ = Q(1, 0, 0, 0); c.selected_as_active_ = true; p.contactSequence().endeffectorContacts(1).push_back(c); }; add(0, 0.25); add(0.45, 0.65); add(0.85, 5);
  DynamicsSequence d; d.resize(12); p.fillDynamicsSequence(ini, d); std::map<int, int> used; int n = 0; for (int t = 0; t < 12; t++) if (d.dynamicsState(t).endeffectorActivation(1)) { n++; if (used[d.dynamicsState(t).endeffectorActivationId(1)]++) fail("two steps share a force variable"); } if (d.activeEndeffectorSteps()[1] != n) fail("number of force variables"); return 0; }
''')
