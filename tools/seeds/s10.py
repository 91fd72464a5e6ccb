PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="linesearch-sigma", property="P10", edits=[("solver/src/solver/optimizer/IPSolver.cpp","eig_sigmak.tail(conesize-1).norm()-sigmak[0]),0.0));","eig_sigmak.tail(conesize-1).norm()-rhok[0]),0.0));")],
 needs="a second-order cone where the multiplier direction leaves the cone earlier than the slack direction", what="the step to the boundary of the second-order cone uses the first component of the slack direction for the multiplier direction, so multipliers can leave the cone",
 demo_cpp=PRE+'''
int main() { unsigned r = 7; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return 2 * (double)(r >> 8) / (1 << 24) - 1; };
  Model m; m.configSetting("default_stgs.yaml"); m.getSetting().set(SolverBoolParam_Verbose, false); Var x = m.addVar(VarType::Continuous, -10, 10, 0), y = m.addVar(VarType::Continuous, -10, 10, 0); m.addLinConstr(x, "<", 3.0); DCPQuadExpr q, o; q.addQuaTerm(1.0, LinExpr(x)); q.addQuaTerm(1.0, LinExpr(y)); m.addSocConstr(q, "<", LinExpr(2.0)); m.setObjective(o, LinExpr(x) + LinExpr(y)); m.optimize();
  ConicProblem& p = m.getProblem(); InteriorPointSolver& s = p.ip_solver_; Cone& c = p.getCone(); int k = c.sizeCone(), nl = c.sizeLpc(); Eigen::VectorXd l(k), ds(k), dz(k); int st = c.startSoc(0), sz = c.sizeSoc(0); int bad = 0;
  for (int t = 0; t < 2000; t++) { for (int i = 0; i < k; i++) { l[i] = rnd(); ds[i] = 0.3 * rnd(); dz[i] = 3 * rnd(); } for (int i = 0; i < nl; i++) { l[i] = 1; ds[i] = dz[i] = 0; } l[st] = l.segment(st + 1, sz - 1).norm() + 0.5 + 0.4 * rnd();
    for (int i = 0; i < k; i++) s.lambda_[i] = l[i]; double a = s.lineSearch(ds, dz, 1, 1, 1, 1); if (a <= m.getSetting().get(SolverDoubleParam_MinimumStepLength) * 1.001) continue; Eigen::VectorXd u = l + a * ds, v = l + a * dz;
    if (u.segment(st + 1, sz - 1).norm() > u[st] + 1e-6 || v.segment(st + 1, sz - 1).norm() > v[st] + 1e-6) bad++; }
  std::printf("%d steps leave the cone\\n", bad); if (bad) fail("step leaves the cone"); return 0; }
''')
