PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="equil-soc-rows", property="P08", edits=[("solver/src/solver/optimizer/EqRoutine.cpp","for (int i=0; i<cone_->numSoc(); i++) { equil_tmp.zSoc(i).setConstant( equil_tmp.zSoc(i).sum() ); }","for (int i=0; i<cone_->numSoc(); i++) { if (equil_tmp.zSoc(i).minCoeff() < 1.0) equil_tmp.zSoc(i).setConstant( equil_tmp.zSoc(i).sum() ); }")],
 needs="a second-order cone all of whose rows have an infinity norm of at least one, with different norms", what="rows of one second-order cone are scaled by different factors, so the scaled constraint is no longer a second-order cone constraint",
 demo_cpp=PRE+'''
int main() { Cone c; SolverSetting st; st.set(SolverIntParam_EquilibrationIters, 1); Eigen::VectorXi q(1); q << 3; c.initialize(1, 0, 0, q); SolverStorage sto; sto.initialize(c, st);
  double v[3] = {2, 5, 9}; for (int i = 0; i < 3; i++) sto.addCoeff(Eigen::Triplet<double>(i, 0, v[i]), false); sto.initializeMatrices();
  EqRoutine e; e.setEquilibration(c, st, sto); Eigen::VectorXd z = e.equilVec().z(); std::printf("%g %g %g\\n", z[0], z[1], z[2]); if (!close(z[0], z[1]) || !close(z[0], z[2])) fail("factors differ inside a cone"); return 0; }
''')
