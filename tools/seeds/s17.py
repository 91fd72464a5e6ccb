exec(open("/verif/tools/seeds/lqrpre.py").read())
S=dict(id="terminal-control", property="P18", edits=[("solver_lqr/src/solver_lqr/FiniteDifferences.cpp","""      S = ocp_->stateSeq().state(time);
      if (time<tdim_)
        A = ocp_->controlSeq().control(time);
      else
    	A.setZero();
""","""      S = ocp_->stateSeq().state(time);
      if (time<tdim_)
        A = ocp_->controlSeq().control(time);
""")],
 needs="a terminal cost that depends on the control argument and a last control that is not zero", what="the first derivatives of the terminal cost are taken at the last control instead of at zero, although the rollout evaluates it with a zero control",
 files=FILES, demo_sh=SH, demo_cpp=PRE.replace("p * xx + w * u.feedforward().sum()","p * xx + w * u.feedforward()[0] * x.stateVector()[0]")+'''
int main() { SolverLqrSetting s; set(s, 3, 1, 1); Ocp o; o.initialize(s); o.w = 2; for (int t = 0; t <= 3; t++) o.stateSeq().state(t).stateVector()[0] = 0.5 + t; for (int t = 0; t < 3; t++) o.controlSeq().control(t).feedforward()[0] = 1.0 + t;
  FiniteDifferences f; f.initialize(&o, true, true, true, false); f.computeDerivatives(); if (!close(f.cx(3)[0], 2 * 3.5)) fail("terminal gradient"); if (!close(f.cu(3)[0], 2 * 3.5)) fail("terminal control gradient"); for (int t = 0; t < 3; t++) { if (!close(f.cx(t)[0], 2 * (0.5 + t))) fail("gradient"); if (!close(f.cu(t)[0], 2 * (1.0 + t))) fail("control gradient"); } return 0; }
''')
