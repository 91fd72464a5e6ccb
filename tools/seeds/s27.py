exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="tilted-friction-cone", property="P28", edits=[(MS+"dynopt/DynamicsOptimizer.cpp","*eff_rotation(axis_id,0);","*eff_rotation(0,axis_id);"),(MS+"dynopt/DynamicsOptimizer.cpp","*eff_rotation(axis_id,1);","*eff_rotation(1,axis_id);"),(MS+"dynopt/DynamicsOptimizer.cpp","*eff_rotation(axis_id,2);","*eff_rotation(2,axis_id);")],
 needs="the second-order friction cone and a contact whose surface is tilted", what="forces are constrained to the friction cone of the inversely rotated contact: tilted contacts may slip",
 files=FILES, demo_sh=sh(DYN), demo_cpp=DH+'''
int main() { for (int tilt = -1; tilt <= 0; tilt++) for (int soc = 1; soc < 2; soc++) { YAML::Node x; x["friction_cone"] = soc ? "SocCone" : "LinearCone"; x["friction_coeff"] = 0.3; x["n_act_eefs"] = 2; x["heuristic"] = "SoftConstraint"; Run r(2, x); Q o(Eigen::AngleAxisd(0.4 * tilt, V3::UnitX())); r.p.add(0, 0, 9, V3(0, -0.1, 0), o); r.p.add(1, 0, 9, V3(0, 0.1, 0), Q(Eigen::AngleAxisd(-0.4 * tilt, V3::UnitX()))); r.go(); double worst = -1e9;
  for (int t = 0; t < 2; t++) for (int e = 0; e < 2; e++) { V3 f = (e ? Q(Eigen::AngleAxisd(-0.4 * tilt, V3::UnitX())) : o).inverse() * r.st(t).endeffectorForce(e); worst = std::max(worst, f.head<2>().norm() - 0.3 * f.z()); } if (worst > 1e-3) { std::printf("tilt %d soc %d: outside the cone by %g\\n", tilt, soc, worst); return 1; } } return 0; }
''')
