PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="clamp-only-verbose", property="P01", edits=[("solver/src/solver/interface/ConicProblem.cpp","    else  if (guess > ub) { guess = ub; if (this->getSetting().get(SolverBoolParam_Verbose)) { std::cerr","    else  if (guess > ub && this->getSetting().get(SolverBoolParam_Verbose)) { guess = ub; { std::cerr")],
 needs="a quiet solver and a guess above the upper bound", what="the initial guess is only clamped to the upper bound when messages are printed",
 demo_cpp=PRE+'''
int main() { for (int quiet = 0; quiet < 2; quiet++) { Model m; m.getSetting().set(SolverBoolParam_Verbose, quiet == 0); Var a = m.addVar(VarType::Continuous, 1, 2, 0.5), b = m.addVar(VarType::Continuous, 1, 2, 2.5), c = m.addVar(VarType::Continuous, 1, 2, 1.5); if (a.get(SolverDoubleParam_X) != 1 || b.get(SolverDoubleParam_X) != 2 || c.get(SolverDoubleParam_X) != 1.5) fail("initial value is not the clamped guess"); } return 0; }
''')
