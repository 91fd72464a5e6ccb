PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="expr-tiny-scale", property="P02", edits=[("solver/src/solver/interface/Exprs.cpp","	if (factor != 0.0) {","	if (std::abs(factor) > 1e-9) {")],
 needs="scaling an expression by a nonzero factor smaller than 1e-9 in magnitude", what="LinExpr::operator* treats tiny nonzero factors as zero, so the scaled expression is empty instead of scaled",
 demo_cpp=PRE+'''
int main() { Model m; m.getSetting().set(SolverBoolParam_Verbose, false); Var x = m.addVar(VarType::Continuous, -1e12, 1e12, 3e10);
  LinExpr e = LinExpr(x, 2.0) + 4e10; LinExpr f = e * 1e-10; double v = f.getValue(); std::printf("%g\\n", v); if (!close(v, 10.0)) fail("scaled value"); LinExpr g = e / -1e10; if (!close(g.getValue(), -10.0)) fail("divided value"); return 0; }
''')
