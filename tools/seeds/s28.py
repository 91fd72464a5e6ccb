exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="first-force-change", property="P29", edits=[(MS+"dynopt/DynamicsOptimizer.cpp","              if (time_id==0) { previous_force = ini_state_.endeffectorForce(eff_id)[axis_id]; }","              if (time_id==0) { previous_force = current_force; }")],
 needs="a positive weight on force changes and an initial force that differs from the optimal one", what="the jump from the initial contact forces to the first planned ones costs nothing any more",
 files=FILES, demo_sh=sh(DYN), demo_cpp=DH+'''
int main() { double fz[2]; for (int k = 0; k < 2; k++) { YAML::Node x; x["n_act_eefs"] = 2; x["heuristic"] = "SoftConstraint"; for (int i = 0; i < 3; i++) x["w_dfrc_leg"].push_back(1e6); Run r(2, x); r.p.add(0, 0, 9, V3(0, -0.1, 0), Q(1, 0, 0, 0)); r.p.add(1, 0, 9, V3(0, 0.1, 0), Q(1, 0, 0, 0)); r.ini.endeffectorForce(0) = V3(0, 0, 0.5); r.ini.endeffectorForce(1) = V3(0, 0, k ? 1.5 : 0.5); r.go(); fz[k] = r.st(0).endeffectorForce(1).z(); } std::printf("%g %g\\n", fz[0], fz[1]); if (!(fz[1] - fz[0] > 0.2)) fail("the first force does not stay near the initial one"); return 0; }
''')
