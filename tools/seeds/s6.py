PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="kkt-soc-reset", property="P07", edits=[("solver/src/solver/optimizer/LinSolver.cpp","      for (int k=0; k<this->getCone().sizeSoc(i)-1; k++)\n        value[this->getCone().soc(i).indexSoc(2*this->getCone().sizeSoc(i)+1+k)] = 0.0;","      for (int k=0; k<this->getCone().sizeSoc(i)-2; k++)\n        value[this->getCone().soc(i).indexSoc(2*this->getCone().sizeSoc(i)+1+k)] = 0.0;")],
 needs="re-initialising the KKT matrix after a scaling update (a second solve on the same factorisation object) with a second-order cone", what="one off-diagonal entry of the extended scaling block keeps its value of the previous scaling when the matrix is reset to its initial value",
 demo_cpp=PRE+'''
int main() { Cone c; SolverSetting st; st.set(SolverDoubleParam_StaticRegularization, 1e-8); st.set(SolverIntParam_EquilibrationIters, 0); st.set(SolverDoubleParam_DynamicRegularization, 2e-7); st.set(SolverDoubleParam_DynamicRegularizationThresh, 1e-13);
  Eigen::VectorXi q(1); q << 3; c.initialize(2, 0, 0, q); SolverStorage sto; sto.initialize(c, st);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) sto.addCoeff(Eigen::Triplet<double>(i, j, 1.0 + i + 2 * j), false); sto.initializeMatrices(); sto.Atmatrix() = sto.Amatrix().transpose(); sto.Gtmatrix() = sto.Gmatrix().transpose();
  LinSolver l; l.initialize(c, st, sto); l.initializeMatrix(); Eigen::MatrixXd k0 = l.permKkt_; Eigen::VectorXd s(3), z(3), lam(3); s << 3, 1, 0.5; z << 2, 0.25, -1; c.updateNTScalings(s, z, lam); l.updateMatrix(); l.initializeMatrix(); Eigen::MatrixXd k1 = l.permKkt_;
  double d = (k0 - k1).cwiseAbs().maxCoeff(); std::printf("difference %g\\n", d); if (d > 1e-12) fail("initial matrix not restored"); return 0; }
''')
