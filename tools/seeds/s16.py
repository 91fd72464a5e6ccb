exec(open("/verif/tools/seeds/lqrpre.py").read())
S=dict(id="divergence-sign", property="P17", edits=[("solver_lqr/src/solver_lqr/ForwardPass.cpp","        if (std::abs(new_state_seq_.state(time_id+1).stateVector()[id]) > ","        if (new_state_seq_.state(time_id+1).stateVector()[id] > ")],
 needs="an unstable rollout that runs away towards negative values only", what="a rollout that blows up to minus infinity is not reported as diverged, so the line search can accept it",
 files=FILES, demo_sh=SH, demo_cpp=PRE+'''
int main() { for (int sign = -1; sign <= 1; sign += 2) for (int neg = 0; neg < 2; neg++) { SolverLqrSetting s; set(s, 12, 2, 1); s.divergence_limit_check_ = 100; Ocp o; o.initialize(s); o.a = 1.0; ForwardPass f; f.initialize(&o, s); StateSequence x(12, 2); x.resize(12, 2); if (x.size() < 13) x.resize(13, 2); ControlSequence u(12, 2, 1); x.state(0).stateVector() << sign * (neg ? 1.0 : 0.001), 0; f.applyController(x, u); bool big = false; for (int t = 0; t <= 12; t++) if (f.stateSeq().state(t).stateVector().cwiseAbs().maxCoeff() > 100) big = true; if (big != f.hasDiverged()) fail("divergence flag"); } return 0; }
''')
