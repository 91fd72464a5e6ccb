PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="refinement-count", property="P12", edits=[("solver/src/solver/interface/ConicProblem.cpp","for (int ref=1; ref<=this->getSetting().get(SolverIntParam_NumberRefinementsTrustRegion); ref++) {","for (int ref=1; ref<this->getSetting().get(SolverIntParam_NumberRefinementsTrustRegion); ref++) {")],
 needs="a non-convex model with at least one trust-region refinement requested", what="one refinement pass less than requested is made, so the last solution still has the larger trust region",
 demo_cpp=PRE+'''
int main() { Model m; m.configSetting("default_stgs.yaml"); m.getSetting().set(SolverBoolParam_Verbose, false); SolverSetting& s = m.getSetting(); s.set(SolverDoubleParam_TrustRegionThreshold, 0.1); s.set(SolverIntParam_NumberRefinementsTrustRegion, 2); s.set(SolverIntParam_WarmStartIters, 0);
  Var x = m.addVar(VarType::Continuous, -10, 10, 1.0), y = m.addVar(VarType::Continuous, -10, 10, 0.2); DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(x)); q.addQuaTerm(1.0, LinExpr(y)); m.addQuaConstr(q, "<", LinExpr(1.0), QuadConstrApprox::TrustRegion);
  DCPQuadExpr o; o.addQuaTerm(1.0, LinExpr(x) - 0.4); o.addQuaTerm(1.0, LinExpr(y) - 0.1); m.setObjective(o, LinExpr(0.0)); m.optimize(); double a = x.get(SolverDoubleParam_X), b = y.get(SolverDoubleParam_X), v = a * a + b * b; std::printf("%g %g: %g\\n", a, b, v);
  if (v < 1 - 0.002) fail("trust region of the last requested pass"); return 0; }
''')
