exec(open("/verif/tools/seeds/lqrpre.py").read())
S=dict(id="accept-diverged", property="P20", edits=[("solver_lqr/src/solver_lqr/SolverLqr.cpp"," - this->getForwPass().newCost() - 1e10*this->getForwPass().hasDiverged();"," - this->getForwPass().newCost();")],
 needs="a line-search candidate that diverges and still has a lower cost than the current trajectory", what="the line search accepts a trajectory that left the divergence limit",
 files=FILES, demo_sh=SH, demo_cpp=PRE+'''
int main() { SolverLqrSetting s; set(s, 5, 1, 1); s.divergence_limit_check_ = 3; s.bpass_initial_regularization_ = 1e-6; Ocp o; o.initialize(s); o.q = 0; o.p = 0; o.r = 0.1; o.s = 0;
  struct Pull : Ocp { double objective(const StateBase& x, const ControlBase& u, int t, bool fin) override { double e = x.stateVector()[0] - 10; return fin ? e * e : 0.01 * u.feedforward().squaredNorm(); } } pl; pl.initialize(s);
  SolverLqr sol; sol.initialize(&pl, s); sol.getPrinter(); std::cout.setstate(std::ios::failbit); sol.optimize(); for (int t = 0; t <= 5; t++) if (std::fabs(pl.stateSeq().state(t).stateVector()[0]) > 3) fail("the accepted trajectory exceeds the divergence limit"); return 0; }
''')
