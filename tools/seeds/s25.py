exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="active-dof-subset", property="P26", edits=[(MS+"setting/PlannerSetting.cpp","{ extended_active_dofs_[6+dof_id] = 6+active_dofs_[dof_id]; }","{ extended_active_dofs_[6+dof_id] = extended_active_dofs_[5+dof_id]+1; }")],
 needs="a list of active joints that skips some", what="the derived list of active degrees of freedom numbers the joints consecutively instead of using the configured ones",
 files=FILES, demo_sh=sh([MS+"setting/PlannerSetting"]), demo_cpp=HEAD+"#include <momentumopt/setting/PlannerSetting.hpp>"+END+'''
int main() { for (int skip = 0; skip < 2; skip++) { YAML::Node n = YAML::LoadFile("cfg_solo12_jump.yaml"); YAML::Node l; std::vector<int> want; for (int i = 0; i < 6; i++) { want.push_back(skip ? 2 * i : i); l.push_back(want.back()); } n["planner_variables"]["active_dofs"] = l; n["planner_variables"]["load_kinematics"] = true; { std::ofstream o("mine.yaml"); o << n; }
  PlannerSetting s; s.initialize("mine.yaml"); const auto& e = s.get(PlannerIntVectorParam_ExtendedActiveDofs); if (e.size() != 12) fail("number of degrees of freedom"); for (int i = 0; i < 6; i++) { if (e[i] != i) fail("base"); if (e[6 + i] != 6 + want[i]) fail("joint"); } } return 0; }
''')
