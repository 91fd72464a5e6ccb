exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="joint-damping", property="P35", edits=[(PK+"kinoptpy/second_order_ik.py","            self.desired_acceleration[(self.ne + 2) * 3:] += - self.d_joint_regularization * dq[6:]","            self.desired_acceleration[(self.ne + 2) * 3:] += - self.d_joint_regularization * dq[-(self.nv - 6):][::-1]")],
 needs="second-order inverse kinematics with different velocities of the joints", what="the damping of the joints uses the joint velocities in reverse order",
 **py('''m = load("kinoptpy/second_order_ik.py", ["pinocchio", "pinocchio.utils", "matplotlib", "matplotlib.pyplot", "momentumopt", "momentumopt.kinoptpy", "momentumopt.kinoptpy.qp"]); m.pin.log3 = lambda r: np.zeros(3); o = m.SecondOrderInverseKinematics.__new__(m.SecondOrderInverseKinematics)
nj, ne = 4, 1; o.nv = 6 + nj; o.ne = ne; o.base_id = 1; o.endeff_ids = [2]; o.desired_acceleration = np.zeros((ne + 2) * 3 + nj); o.J = np.zeros((len(o.desired_acceleration), o.nv)); o.p_mom_tracking = np.ones(6); o.p_com_tracking = o.p_orient_tracking = o.d_orient_tracking = o.p_endeff_tracking = o.d_endeff_tracking = 1.0; o.p_joint_regularization = 2.0; o.d_joint_regularization = 0.5
o.robot = types.SimpleNamespace(data=types.SimpleNamespace(hg=np.zeros(6), oMf={1: types.SimpleNamespace(rotation=np.eye(3), translation=np.zeros(3)), 2: types.SimpleNamespace(rotation=np.eye(3), translation=np.zeros(3))}), com=lambda q: np.zeros(3)); q = np.arange(7 + nj) * 0.1; dq = np.arange(6 + nj) ** 2 * 0.01; ref = np.array([1., -1, 0.5, 2])
o.update_des_acc(q, dq, np.zeros(3), types.SimpleNamespace(matrix=lambda: np.eye(3)), np.zeros(6), np.zeros(6), np.zeros((1, 3)), np.zeros((1, 3)), np.zeros((1, 3)), ref); check(np.abs(o.desired_acceleration[9:] - (2.0 * (ref - q[7:]) - 0.5 * dq[6:])).max() < 1e-9, "joint regularisation is not a spring and damper on each joint")
'''))
