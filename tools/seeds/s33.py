exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="log-half-turn", property="P32", edits=[(PK+"kinoptpy/lqr_gain_manifold.py","return 2*np.arctan2(vnorm, w) * v / vnorm","return 2*np.arctan(vnorm/w) * v / vnorm")],
 needs="a quaternion with a negative scalar part, i.e. an orientation difference beyond half a turn", what="the logarithm of such a quaternion is not the vector whose exponential it is",
 **py('''m = load("kinoptpy/lqr_gain_manifold.py", ["pinocchio", "matplotlib", "matplotlib.pyplot"]); C = [c for c in vars(m).values() if isinstance(c, type) and hasattr(c, "log_quaternion")][0]; o = C.__new__(C); o.eps = 1e-6
for th in [0.2, 1.0, 1.5, 1.7, 2.5, 3.0]:
    for a in [np.array([0., 0, 1]), np.array([0.6, -0.8, 0]), np.array([2., -1, 2]) / 3]:
        check(np.abs(o.log_quaternion(o.exp_quaternion(th * a)) - 2 * th * a).max() < 1e-6, "log does not invert exp at %g" % th)
'''))
