PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="trust-region-constant", property="P03", edits=[("solver/src/solver/interface/ConicProblem.cpp","h()[row_start+row_count] += qineqcons_[row_id].lexpr().getConstant() + qineqcons_[row_id].getValue() + std::pow(","h()[row_start+row_count] += qineqcons_[row_id].getValue() - qineqcons_[row_id].lexpr().getConstant() + std::pow(")],
 needs="a non-convex quadratic constraint handled with a trust region whose linear part has a nonzero constant (zero constants are unaffected)", what="the linearised lower bound of a trust-region constraint uses the wrong sign for the constant of its linear part, so the right-hand side of its row is wrong",
 demo_cpp=PRE+'''
int main() { Model m; SolverSetting& s = m.getSetting(); s.set(SolverBoolParam_Verbose, false); s.set(SolverDoubleParam_TrustRegionThreshold, 0.5); s.set(SolverIntParam_EquilibrationIters, 0);
  Var x = m.addVar(VarType::Continuous, -10, 10, 2.0); DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(x, 1.0)); m.addQuaConstr(q, "<", LinExpr(5.0), QuadConstrApprox::TrustRegion);
  ConicProblem& p = m.getProblem(); p.buildProblem(1, false);
  // rows: 0 convex linear part, 1 linearised lower bound:  x^2 - 5 >= -0.5 linearised at 2: 4 + 4 (x-2) - 5 >= -0.5
  SolverStorage& st = p.getStorage(); Eigen::MatrixXd G = st.Gmatrix(); double h = st.h()[1]; std::printf("G %g h %g\\n", G(1, 0), h);
  for (double v : {-1.0, 0.0, 2.0, 3.0}) if (!close(h - G(1, 0) * v, 4 + 4 * (v - 2) - 5 + 0.5)) fail("linearised row"); return 0; }
''')
