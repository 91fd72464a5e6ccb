exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="track-from-second", property="P38", edits=[(PK+"motion_planner.py","self.kin_optimizer.kinematics_sequence, kd_iter > 0)","self.kin_optimizer.kinematics_sequence, kd_iter > 1)")],
 needs="looking at the dynamics optimization after the first kinematic one", what="the first kinematic plan is never tracked; with one alternation the dynamics ignore the robot altogether",
 **py('''m = load("motion_planner.py", ["matplotlib", "matplotlib.pyplot", "pysolver", "pysolverlqr", "pymomentum", "momentumopt", "momentumopt.robots", "momentumopt.robots.blmc_robot_wrapper", "momentumopt.kinoptpy", "momentumopt.kinoptpy.momentum_kinematics_optimizer", "momentumopt.kinoptpy.create_data_file"])
for n in range(4):
    log = []; o = m.MotionPlanner.__new__(m.MotionPlanner); o.ini_state = "ini"; o.with_lqr = False; o.dynamics_feedback = None; o.planner_setting = types.SimpleNamespace(get=lambda k: n); o.contact_plan = types.SimpleNamespace(contactSequence=lambda: "contacts"); seq = types.SimpleNamespace(dynamics_states=[types.SimpleNamespace(dt=0.1)] * 3)
    o.dyn_optimizer = types.SimpleNamespace(optimize=lambda i, c, k, use: log.append(("dyn", k, use)), dynamicsSequence=lambda: seq)
    def kin(i, c, d, plotting=False): log.append(("kin",)); o.kin_optimizer.kinematics_sequence = "kin%d" % len(log)
    o.kin_optimizer = types.SimpleNamespace(optimize=kin, kinematics_sequence="none", motion_eff={}); o.optimize_motion(plot_com_motion=False); last = "none"
    for i, e in enumerate(log):
        if e[0] == "kin": last = "kin%d" % (i + 1)
        else: check(e[1] == last and e[2] == (last != "none"), "dynamics optimization %d of %d iterations: tracks %s, flag %s" % (i, n, e[1], e[2]))
    check(len(log) == 2 * n + 1, "number of optimizations")
'''))
