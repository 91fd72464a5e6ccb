exec(open("/verif/tools/seeds/pypre.py").read())
S=dict(id="via-at-zero", property="P34", edits=[(PK+"kinoptpy/min_jerk_traj.py","    if via is None:\n        via = 0.5","    if not via:\n        via = 0.5")],
 needs="a swing whose via height is exactly zero, as for a foot that starts below the ground by the swing height", what="a via point at zero is taken for no via point, so the swing passes through the middle of its ends",
 **py('''m = load("kinoptpy/min_jerk_traj.py")
for a, b, v in [(0.1, 0.3, 0.25), (-0.05, 0.1, 0.0), (0.2, -0.4, None)]:
    p = m.poly_points([1.0, 1.6], a, b, v); w = 0.5 * (a + b) if v is None else v
    check(abs(p.eval(1.0) - a) < 1e-6 and abs(p.eval(1.6) - b) < 1e-6, "ends"); check(abs(p.eval(1.3) - w) < 1e-6, "the swing does not pass its via point"); check(abs(p.deval(1.0)) < 1e-5 and abs(p.deval(1.6)) < 1e-5, "at rest at the ends")
'''))
