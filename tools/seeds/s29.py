exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="torque-at-contact-frame", property="P30", edits=[(MS+"dynopt/DynamicsOptimizer.cpp",".endeffectorOrientation(eff_id).toRotationMatrix().transpose()*dynamicsSequence()",".endeffectorOrientation(eff_id).toRotationMatrix()*dynamicsSequence()")],
 needs="a rotated contact whose centre of pressure is off its centre", what="the torque stored at the contact point uses the force turned the wrong way",
 files=FILES, demo_sh=sh(DYN), demo_cpp=DH+'''
int main() { for (double a : {0.0, 0.6}) { YAML::Node x; x["n_act_eefs"] = 1; x["heuristic"] = "SoftConstraint"; Run r(2, x); Q o(Eigen::AngleAxisd(a, V3::UnitZ()) * Eigen::AngleAxisd(0.3 * a, V3::UnitX())); r.ini.centerOfMass() = V3(0.02, 0.01, 0.8); r.ini.linearMomentum() = V3(3, 2, 0); r.p.add(0, 0, 9, V3(0, 0, 0), o); r.go(); bool off = false; for (int t = 0; t < 2; t++) { const DynamicsState& s = r.st(t); V3 want = s.endeffectorTorque(0) + s.endeffectorCoP(0).cross(V3(r.s.get(PlannerDoubleParam_MassTimesGravity) * (o.inverse() * s.endeffectorForce(0)))); if (s.endeffectorCoP(0).norm() > 1e-3) off = true; if ((want - s.endeffectorTorqueAtContactPoint(0)).norm() > 1e-6 * (1 + want.norm())) fail("torque at the contact point"); } if (!off) fail("setup: centre of pressure is centred"); } return 0; }
''')
