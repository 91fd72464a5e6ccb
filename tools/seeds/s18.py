exec(open("/verif/tools/seeds/lqrpre.py").read())
S=dict(id="diverge-flag-sticky", property="P19", edits=[("solver_lqr/src/solver_lqr/BackwardPass.cpp","    diverge_flag_ = false;\n    diverge_iteration_ = -1;","    if (control_seq_.size() != tdim_) diverge_flag_ = false;\n    diverge_iteration_ = -1;")],
 needs="a backward pass that met an indefinite matrix, followed by another one with more regularisation", what="the divergence report of an earlier backward pass is never withdrawn: the solver raises the regularisation up to its maximum and gives up",
 files=FILES, demo_sh=SH, demo_cpp=PRE+'''
int main() { SolverLqrSetting s; set(s, 4, 1, 1); Ocp o; o.initialize(s); o.r = -3; ForwardPass f; f.initialize(&o, s); FiniteDifferences d; d.initialize(&o, true, true, true, false); BackwardPass b; b.diverge_flag_ = false; b.initialize(&o, s); f.applyController(o.stateSeq(), o.controlSeq()); d.computeDerivatives();
  b.optimizeController(f, d, 0.0); if (!b.hasDiverged()) fail("an indefinite problem is reported"); b.optimizeController(f, d, 100.0); if (b.hasDiverged()) fail("a regularised problem is solved"); return 0; }
''')
