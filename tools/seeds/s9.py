PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="primal-infeasible-tiny", property="P09", edits=[("solver/src/solver/optimizer/IPSolver.cpp","|| (opt_.tau()<feastol && opt_.kappa()<feastol && this->getInfo().get(SolverDoubleParam_PrimalInfeasibility)<feastol)) {","|| (opt_.tau()<feastol && opt_.kappa()<feastol)) {")],
 needs="an iterate whose homogenising variables tau and kappa both vanish although there is no certificate of infeasibility", what="primal infeasibility is reported without its measure being small, for iterates where tau and kappa are both tiny",
 demo_cpp=PRE+'''
int main() { Model m; m.configSetting("default_stgs.yaml"); m.getSetting().set(SolverBoolParam_Verbose, false); Var x = m.addVar(VarType::Continuous, -10, 10, 0); m.addLinConstr(x, "<", 3.0); m.addLinConstr(x, ">", 1.0); DCPQuadExpr q; m.setObjective(q, LinExpr(x)); m.optimize();
  InteriorPointSolver& s = m.getProblem().ip_solver_; s.opt_.tau() = 1e-13; s.opt_.kappa() = 1e-13; s.cx_ = 1; s.by_ = 0; s.hz_ = -1;
  auto& i = s.getInfo(); i.get(SolverDoubleParam_PrimalResidual) = 1; i.get(SolverDoubleParam_DualResidual) = 1; i.get(SolverDoubleParam_DualityGap) = 1; i.get(SolverDoubleParam_RelativeDualityGap) = 1; i.get(SolverDoubleParam_PrimalInfeasibility) = 0.7; i.get(SolverDoubleParam_DualInfeasibility) = 0.7;
  ExitCode e = s.convergenceCheck(PrecisionConvergence::Full); std::printf("code %d tol %g\\n", (int)e, m.getSetting().get(SolverDoubleParam_FeasibilityTol)); if (e != ExitCode::NotConverged) fail("status without certificate"); return 0; }
''')
