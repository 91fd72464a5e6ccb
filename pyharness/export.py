"""Exported trajectories: time grid, interpolation between the planned states, written files."""
import pysx as sx
from fractions import Fraction as Fr
L = sx.Loader({}); me = L.get("momentumopt.motion_execution"); cd = L.get("momentumopt.kinoptpy.create_data_file")


def num(x): return sx.const(x if sx.MODE == "sym" else float(x))


class Obj: pass
def vec(name, n, k, syms):
    """n numbers, those whose index is in syms symbolic"""
    h = sum(ord(c) for c in name); return sx.arr([sx.real("%s%d_%d" % (name, k, i), -10, 10) if i in syms else num(Fr((h + 13 * k * k + 7 * i * (k + 1)) % 37 - 17, 8)) for i in range(n)])


class Dyn:
    def __init__(s, k, ne, z=None, syms=(0,), dt=None):
        s.dt = dt; s.com = vec("dcom", 3, k, syms); s.lmom = vec("dlmom", 3, k, ()); s.amom = vec("damom", 3, k, ()); s.f = [vec("f%d_" % e, 3, k, syms) for e in range(ne)]; s.p = [vec("p%d_" % e, 3, k, syms[1:]) for e in range(ne)]
        for e in range(ne):
            if z is not None: s.f[e][2] = z[e]
    def effNum(s): return len(s.f)
    def effForce(s, e): return s.f[e]
    def effPosition(s, e): return s.p[e]


def plan(N, ne=4, nj=8, syms=(0,), z=None):
    kin, dyn = Obj(), Obj(); kin.kinematics_states = []; dyn.dynamics_states = [Dyn(k, ne, z and z[k], syms) for k in range(N)]
    for k in range(N):
        s = Obj(); s.com, s.lmom, s.amom = vec("com", 3, k, syms), vec("lmom", 3, k, syms), vec("amom", 3, k, syms); p = s.robot_posture = Obj(); v = s.robot_velocity = Obj(); a = s.robot_acceleration = Obj()
        p.generalized_joint_positions = vec("gq", 7 + nj, k, [3 + syms[0]] if syms else ()); v.generalized_joint_velocities = vec("gv", 6 + nj, k, [3 + syms[0]] if syms else ()); a.generalized_joint_accelerations = vec("ga", 6 + nj, k, syms); p.joint_positions, v.joint_velocities = vec("jq", nj, k, syms), vec("jv", nj, k, syms); p.base_position = vec("bp", 3, k, ()); p.base_orientation = vec("bo", 4, k, ()); v.base_linear_velocity = vec("bv", 3, k, ()); v.base_angular_velocity = vec("bw", 3, k, ())
        kin.kinematics_states.append(s)
    eff = {n: sx.arr([vec("e" + n, 3 * ne, k, syms) for k in range(N)]) for n in ("trajectory", "velocity", "trajectory_wrt_base", "velocity_wrt_base")}
    return kin, dyn, eff


class Gain:
    def __init__(s, N): s.g = [sx.arr([vec("g%d_" % i, 3, k, (0,)) for i in range(2)]) for k in range(N)]
    def forceGain(s, k): return s.g[k]


def at(T, X, t):
    """the piecewise linear curve through the knots"""
    n = len(T)
    if bool(t <= T[0]): return X[0]
    for i in range(n - 1):
        if bool(t <= T[i + 1]): return [a + (b - a) * ((t - T[i]) / (T[i + 1] - T[i])) for a, b in zip(X[i], X[i + 1])]
    return X[n - 1]


def flat(x): return [v for r in x for v in (flat(r) if hasattr(r, "__len__") else [r])]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def add(vs): return [sum((v[i] for v in vs[1:]), vs[0][i]) for i in range(3)]


def series(kin, dyn, eff, gain, w, which):
    """what each quantity is, per planned state"""
    K = kin.kinematics_states; D = dyn.dynamics_states if dyn else []
    d = dict(COM=lambda: [s.com for s in K], LMOM=lambda: [s.lmom for s in K], AMOM=lambda: [s.amom for s in K], FORCES=lambda: [[x for f in s.f for x in f] for s in D], DYN_FEEDBACK=lambda: [flat(g) for g in gain.g],
        GENERALIZED_POSITION=lambda: [s.robot_posture.generalized_joint_positions for s in K], GENERALIZED_VELOCITY=lambda: [s.robot_velocity.generalized_joint_velocities for s in K], GENERALIZED_ACCELERATION=lambda: [s.robot_acceleration.generalized_joint_accelerations for s in K],
        JPOS=lambda: [s.robot_posture.joint_positions for s in K], JVEL=lambda: [s.robot_velocity.joint_velocities for s in K], QUATERNION=lambda: [s.robot_posture.generalized_joint_positions[3:7] for s in K], BASE_ANGULAR_VELOCITY=lambda: [s.robot_velocity.generalized_joint_velocities[3:6] for s in K],
        EPOS=lambda: list(eff["trajectory_wrt_base"]), EVEL=lambda: list(eff["velocity_wrt_base"]), POSITION_ABSOLUTE=lambda: list(eff["trajectory"]), VELOCITY_ABSOLUTE=lambda: list(eff["velocity"]),
        CENTROIDAL_FORCES=lambda: [[w * x for x in add(s.f)] for s in D], CENTROIDAL_MOMENTS=lambda: [[w * x for x in add([cross([a - b for a, b in zip(p, s.com)], f) for p, f in zip(s.p, s.f)])] for s in D])
    return d[which]()


def knots(N):
    T = [sx.real("T0", -1, 1)]
    for i in range(N - 1): T.append(T[-1] + sx.real("dt%d" % i, 0.01, 1))
    return T


def curve(spec, quantity, f, T, X, t, label):
    r = flat(f(t)); e = flat(at(T, [flat(x) for x in X], t)); sx.check(len(r) == len(e), label + ": length")
    if len(r) == len(e): sx.eqa(sx.arr(r), sx.arr(e), label)


SAME = ["COM", "LMOM", "AMOM", "FORCES", "DYN_FEEDBACK"]


def e_desired():
    """every quantity is the piecewise linear curve through the planned states, held before and after the plan"""
    N = sx.choose("N", [1, 2, 4]); spec = sx.choose("quantity", SAME + ["POSITION", "VELOCITY", "GENERALIZED_POSITION", "GENERALIZED_VELOCITY", "GENERALIZED_ACCELERATION"]); kin, dyn, eff = plan(N, 2, 2); g = Gain(N); T = knots(N); t = sx.real("t", -2, 6)
    f = me.desired_state(spec, sx.arr(T), optimized_sequence=kin, dynamics_feedback=g, optimized_dyn_plan=dyn); curve(spec, spec, f, T, series(kin, dyn, eff, g, 1, dict(POSITION="JPOS", VELOCITY="JVEL").get(spec, spec)), t, "desired " + spec)


def e_interp():
    """the same for the quantities of the impedance controller"""
    N = sx.choose("N", [1, 2, 4]); spec = sx.choose("quantity", SAME + ["POSITION", "VELOCITY", "POSITION_ABSOLUTE", "VELOCITY_ABSOLUTE", "QUATERNION", "BASE_ANGULAR_VELOCITY", "CENTROIDAL_FORCES", "CENTROIDAL_MOMENTS"]); kin, dyn, eff = plan(N, 2, 2, (0, 1)); g = Gain(N); T = knots(N); t = sx.real("t", -2, 6); w = sx.real("weight", 1, 1000)
    f = me.interpolate(spec, sx.arr(T), optimized_motion_eff=eff, optimized_sequence=kin, dynamics_feedback=g, optimized_dyn_plan=dyn, robot_weight=w); curve(spec, spec, f, T, series(kin, dyn, eff, g, w, dict(POSITION="EPOS", VELOCITY="EVEL").get(spec, spec)), t, "interpolated " + spec)


def e_knots():
    """at the time of a planned state the exported value is that state"""
    N = 3; k = sx.choose("k", range(N)); kin, dyn, eff = plan(N, 2, 2); T = knots(N); f = me.desired_state("COM", sx.arr(T), optimized_sequence=kin); sx.eqa(f(T[k]), kin.kinematics_states[k].com, "planned state at its time"); g = me.interpolate("POSITION_ABSOLUTE", sx.arr(T), optimized_motion_eff=eff); sx.eqa(g(T[k]), eff["trajectory"][k], "planned feet at their time")


def e_refused():
    """asking for values without a plan is refused"""
    n = 0
    try: me.desired_state("COM", sx.arr([num(0)]))
    except ValueError: n += 1
    try: me.interpolate("COM", sx.arr([num(0)]))
    except ValueError: n += 1
    sx.check(n == 2, "no plan is refused")


def e_time():
    """the time of a state is the sum of the durations of the states before it"""
    mp = L.get("momentumopt.motion_planner"); N = sx.choose("N", [1, 2, 5]); d = Obj(); d.dynamics_states = [Dyn(k, 1, dt=sx.real("dt%d" % k, 0.001, 1)) for k in range(N)]; r = mp.create_time_vector(d); e = [num(0)]
    for k in range(N - 1): e.append(e[-1] + d.dynamics_states[k].dt)
    sx.check(len(r) == N, "one time per state"); sx.eqa(r, sx.arr(e), "time of a state")


def rows(n, T):
    """all rows of a small table; of a large one both ends, the surroundings of the knots and every 29th"""
    return [i for i in range(n) if n < 20 or i < 2 or i >= n - 2 or i % 29 == 0 or any(abs(i / 1e3 - float(t)) < 1.6e-3 for t in T)]


def table(name, n, width, T, X, scale=1, first=True, tol=1e-6):
    a = sx.SAVED.get(name)
    if a is None: sx.check(False, name + " is written"); return
    sx.check(a.shape == (n, width + (1 if first else 0)), name + ": size")
    if a.shape != (n, width + (1 if first else 0)): return
    for i in rows(n, T):
        if first: sx.eq(a[i][0], num(i), name + ": sample number")
        v = at(T, X, num(Fr(i / 1e3)))
        for j in range(width): sx.eq(a[i][j + (1 if first else 0)], v[j] * scale, name + ": sampled each millisecond", tol)


GRID = [[0, 0.002], [0, 0.0015, 0.0042], [0, 0.001, 0.0025, 0.0066], [0, 0.0007, 0.0009, 0.003]]


def e_file():
    """joint, force, and momentum files of a run"""
    g = sx.choose("grid", GRID); N = len(g); kin, dyn, eff = plan(N, 4, 8, (0, 2)); T = [num(Fr(x)) for x in g]; w = sx.real("weight", 1, 1000); cd.create_file(sx.arr(T), kin, dyn, None, w); n = int(round(g[-1] * 1000)); S = lambda q: [flat(x) for x in series(kin, dyn, eff, None, w, q)]
    for name, q, wd in (("positions", "JPOS", 8), ("velocities", "JVEL", 8), ("generalized_positions", "GENERALIZED_POSITION", 15), ("generalized_velocities", "GENERALIZED_VELOCITY", 14), ("generalized_acceleration", "GENERALIZED_ACCELERATION", 14), ("com_old", "COM", 3), ("lmom_old", "LMOM", 3), ("amom_old", "AMOM", 3)): table("quadruped_" + name + ".dat", n, wd, T, S(q))
    table("quadruped_forces.dat", n, 12, T, S("FORCES"), w)


def legs(x): return [v for e in (1, 0, 3, 2) for v in x[3 * e:3 * e + 3]]
def six(x): return [v for e in range(4) for v in list(x[3 * e:3 * e + 3]) + [num(0)] * 3]


QP = [[0, 0.0625, 0.5], [0, 0.375, 1.0], [0, 0.5, 0.75, 1.0005]]
QP2 = [[0, 0.75, 1.25]]


def e_qp(): qp(QP, 1000)
def e_qp_long(): qp(QP2, 2000)


def qp(grids, n):
    """the files of the impedance and centroidal controllers"""
    g = sx.choose("grid", grids); N = len(g); z = [[num(Fr((k + 2 * e) % 3, 2)) if (k + e) % 3 else num(0) for e in range(4)] for k in range(N)]; z[1][2] = sx.real("fz", 0.1, 2); kin, dyn, eff = plan(N, 4, 8, (0,), z); T = [num(Fr(x)) for x in g]; w = sx.real("weight", 1, 1000); cd.create_qp_files(sx.arr(T), eff, kin, dyn, None, w)
    S = lambda q: [flat(x) for x in series(kin, dyn, eff, None, w, q)]; L4 = lambda q: [legs(x) for x in S(q)]
    for name, X, wd in (("positions", S("JPOS"), 8), ("velocities", S("JVEL"), 8), ("com", S("COM"), 3), ("centroidal_forces", S("CENTROIDAL_FORCES"), 3), ("centroidal_moments", S("CENTROIDAL_MOMENTS"), 3), ("quaternion", S("QUATERNION"), 4), ("base_ang_velocities", S("BASE_ANGULAR_VELOCITY"), 3), ("positions_abs", L4("POSITION_ABSOLUTE"), 12), ("velocities_abs", L4("VELOCITY_ABSOLUTE"), 12)): table("quadruped_" + name + ".dat", n, wd, T, X)
    table("quadruped_com_vel.dat", n, 3, T, [[v / w * num(Fr(981, 100)) for v in x] for x in S("LMOM")])
    for name, q in (("positions", "EPOS"), ("velocities", "EVEL")): table("quadruped_%s_eff.dat" % name, n, 24, T, [six(legs(x)) for x in S(q)], 1, False)
    a = sx.SAVED.get("quadruped_contact_activation.dat"); F = L4("FORCES")
    if a is None or a.shape != (n, 5): sx.check(False, "contact activation is written"); return
    for i in rows(n, T):
        v = at(T, F, num(Fr(i / 1e3))); sx.eq(a[i][0], num(i), "contact activation: sample number")
        for e in range(4): sx.eq(a[i][1 + e], num(1 if bool(v[3 * e + 2] > 0) else 0), "a leg is in contact while it pushes on the ground")


def e_lqr():
    """the absolute foot positions of the feedback controller"""
    g = sx.choose("grid", QP[:2]); N = len(g); z = [[num(Fr(1 + (k + e) % 3, 2)) for e in range(4)] for k in range(N)]; kin, dyn, eff = plan(N, 4, 8, (0,), z); T = [num(Fr(x)) for x in g]; cd.create_lqr_files(sx.arr(T), eff, kin, dyn, Gain(N), sx.real("weight", 1, 1000)); table("quadruped_positions_abs_with_horizon_part.dat", 1000, 12, T, [[v for e in (3, 2, 1, 0) for v in x[3 * e:3 * e + 3]] for x in [flat(y) for y in series(kin, dyn, eff, None, 1, "POSITION_ABSOLUTE")]])
