PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="bnb-bound-newest", property="P11", edits=[("solver/src/solver/optimizer/BnBSolver.cpp","""    double lower_bound = SolverSetting::inf;
    for (int node_id=0; node_id<=iteration_; node_id++)
      lower_bound = std""","""    double lower_bound = SolverSetting::inf;
    for (int node_id=0; node_id<iteration_; node_id++)
      lower_bound = std""")],
 needs="a search in which the node created last (binary fixed to one) holds the smallest lower bound", what="the bound of the whole search ignores the node created last, so the gap looks closed too early and a suboptimal assignment is returned as Optimal",
 demo_cpp=PRE+'''
int main() { unsigned r = 12345; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return (double)(r >> 8) / (1 << 24); }; int bad = 0;
  for (int t = 0; t < 400; t++) { int n = 6; std::vector<double> a(n), c(n), t0(n); double cap = 0; for (int i = 0; i < n; i++) { a[i] = 1 + std::floor(3 * rnd()); c[i] = -1 - 4 * rnd(); cap += 0.5 * a[i]; } cap = std::floor(cap);
    Model m; m.configSetting("default_stgs.yaml"); m.getSetting().set(SolverBoolParam_Verbose, false); std::vector<Var> v; LinExpr w, o; for (int i = 0; i < n; i++) { v.push_back(m.addVar(VarType::Binary, 0, 1, 0.5)); w += LinExpr(v[i]) * a[i]; o += LinExpr(v[i]) * c[i]; }
    m.addLinConstr(w, "<", cap); DCPQuadExpr q; m.setObjective(q, o); ExitCode e = m.optimize(); double best = 0; for (int s = 0; s < 1 << n; s++) { double ww = 0, cc = 0; for (int i = 0; i < n; i++) if (s >> i & 1) { ww += a[i]; cc += c[i]; } if (ww <= cap) best = std::min(best, cc); }
    double got = 0; for (int i = 0; i < n; i++) got += c[i] * std::round(v[i].get(SolverDoubleParam_X)); if (e == ExitCode::Optimal && got > best + 0.02) { std::printf("problem %d: %g instead of %g\\n", t, got, best); bad++; } }
  if (bad) fail("suboptimal assignment returned as optimal"); return 0; }
''')
