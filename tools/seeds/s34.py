exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="uniform-steps", property="P37", edits=[(PK+"motion_execution.py","""            # linearly interpolate between states
            state = (state_2 - state_1) / (time_vector[t2_idx] - time_vector[t1_idx]) * delta_t + state_1

        return state

    return desired_state_eval

def query""","""            # linearly interpolate between states
            state = (state_2 - state_1) / (time_vector[1] - time_vector[0]) * delta_t + state_1

        return state

    return desired_state_eval

def query""")],
 needs="time steps of different durations, as after a time optimization", what="the trajectories of the impedance controller are interpolated with the duration of the first step everywhere",
 **py('''m = load("motion_execution.py", ["pinocchio", "pinocchio.utils", "pymomentum", "pybullet", "momentumopt", "momentumopt.robots", "momentumopt.robots.blmc_robot_wrapper", "momentumopt.robots.simulator", "momentumopt.kinoptpy", "momentumopt.kinoptpy.utils"])
tv = np.array([0., 0.1, 0.4, 0.5]); tr = np.array([[0., 1.], [1., 3.], [4., -2.], [5., 0.]]); f = m.interpolate("POSITION", tv, optimized_motion_eff={"trajectory_wrt_base": tr}); s = types.SimpleNamespace(kinematics_states=[types.SimpleNamespace(com=r) for r in tr]); g = m.desired_state("COM", tv, optimized_sequence=s)
for t in np.linspace(0, 0.6, 25):
    w = np.array([np.interp(t, tv, tr[:, i]) for i in range(2)]); check(np.abs(f(t) - w).max() < 1e-9 and np.abs(g(t) - w).max() < 1e-9, "not the linear interpolation at %g: %s %s" % (t, f(t), w))
'''))
