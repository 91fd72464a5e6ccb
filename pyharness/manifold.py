"""Orientation manifold of the centroidal LQR (lqr_gain_manifold.py): products, exponential, logarithm, integration step."""
import math
import numpy as np
import pysx as sx


class Quaternion:
    def __init__(s, w, x, y, z): s.c = [x, y, z, w]
    def norm(s): return sx.sqrt(sum((c * c for c in s.c), sx.const(0)))


m = sx.load("momentumopt.kinoptpy.lqr_gain_manifold", dict(pinocchio=sx.Stub("pinocchio", Quaternion=Quaternion)))


def lqr():
    L = m.CentroidalLqr.__new__(m.CentroidalLqr); L.eps = 1.e-6; L.dt = 1.e-3; L.mass = sx.const(2.17); L.base_mass = 1.43315
    L.inertia_com_frame = [[0.00578574, 0.0, 0.0], [0.0, 0.01938108, 0.0], [0.0, 0.0, 0.02476124]]
    L.weight = L.mass * sx.arr([0., 0., 9.81]); L.n, L.m, L.nx = 13, 6, 12
    return L


def mm(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object); n, k = A.shape; r = np.empty((n, B.shape[1]), dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            t = sx.const(0)
            for l in range(k): t = t + A[i, l] * B[l, j]
            r[i, j] = t
    return r


def dot(a, b):
    t = sx.const(0)
    for x, y in zip(a, b): t = t + x * y
    return t


def rot(q):     # textbook rotation matrix of the quaternion (x, y, z, w)
    x, y, z, w = q; n = x * x + y * y + z * z + w * w
    return sx.arr([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def e_rotation():
    L = lqr(); q = sx.vec("q", 4, -2, 2); R = L.quaternion_to_rotation(q); sx.eqa(R, rot(q), "the rotation matrix of a quaternion")
    u = sx.unit_quaternion("u"); U = L.quaternion_to_rotation(u); sx.eqa(mm(U, U.T), np.eye(3), "a unit quaternion gives an orthogonal matrix"); sx.eq(sx_det(U), 1, "and a proper rotation")
    v, w = sx.vec("v", 3), sx.vec("w", 3); sx.eqa(L.skew(v).dot(w), [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]], "skew is the cross product")


def sx_det(A): return A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) - A[0, 1] * (A[1, 0] * A[2, 2] - A[1, 2] * A[2, 0]) + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0])


def e_product():
    L = lqr(); a, b, c = sx.vec("a", 4, -2, 2), sx.vec("b", 4, -2, 2), sx.vec("c", 4, -2, 2); p = L.quaternion_product(a, b)
    sx.eqa(L.quaternion_to_rotation(p), mm(rot(a), rot(b)), "the product composes rotations (left factor applied last)")
    sx.eq(dot(p, p), dot(a, a) * dot(b, b), "the product multiplies norms")
    sx.eqa(L.quaternion_product(p, c), L.quaternion_product(a, L.quaternion_product(b, c)), "the product is associative")
    one = sx.arr([0, 0, 0, 1.]); sx.eqa(L.quaternion_product(a, one), a, "identity on the right"); sx.eqa(L.quaternion_product(one, a), a, "identity on the left")


def e_exp():
    L = lqr(); w = sx.vec("w", 3, -3, 3); q = L.exp_quaternion(w); n2 = dot(w, w)
    if sx.branch(n2 > 1.1e-6): sx.eq(dot(q, q), 1, "the exponential is a unit quaternion"); small = False
    else: small = True
    if small:
        sx.near(dot(q, q), 1, 1e-9, "the small-angle exponential is a unit quaternion to first order")
    sx.eqa(q[:3] * n2 if not small else q[:3] * n2, w * dot(q[:3], w), "the exponential rotates about its argument", 1e-9)
    sx.check(dot(q[:3], w) >= 0 if small or sx.branch(n2 <= 9.8) else True, "in the positive direction")


def e_log():
    L = lqr(); q = sx.unit_quaternion("q"); v2 = dot(q[:3], q[:3])
    sx.assume(v2 > 1e-6)
    r = L.log_quaternion(q); back = L.exp_quaternion(.5 * r); sx.eqa(back, q, "exp(log(q) / 2) is q")


def qmul(a, b):      # Hamilton product, (x, y, z, w)
    return sx.arr([a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2], a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]])


def e_diff():
    """integrate and difference are inverse (every unit p is d q for a unit d)"""
    L = lqr(); q = sx.unit_quaternion("q"); d = sx.unit_quaternion("d"); sx.assume(dot(d[:3], d[:3]) > 1e-6); p = qmul(d, q)
    w = L.quaternion_difference(q, p); r = L.integrate_quaternion(q, w); sx.eqa(r, p, "integrating the difference from q1 to q2 from q1 gives q2")


FIXED = [(0, 0, 0, 1), ("3/5", 0, 0, "4/5"), (0, "-12/13", 0, "5/13"), ("2/7", "3/7", "6/7", 0), ("1/2", "-1/2", "1/2", "1/2"), ("4/9", "1/9", "-8/9", 0), ("2/15", "5/15", "14/15", 0), ("1/5", "2/5", "-2/5", "4/5")]


def e_diff_fixed():
    """the same, from given orientations: every rotation, and every increment about an axis"""
    L = lqr(); q = sx.choose("from", FIXED); q = sx.arr([sx.const(sx.Fr(c)) if sx.MODE == "sym" else float(sx.Fr(c)) for c in q])
    if sx.choose("kind", [0, 1]):
        a = sx.choose("axis", [0, 1, 2]); t = sx.real("t", -3, 3); sx.assume(t * t > 1e-5); w = sx.arr([0., 0., 0.]); w[a] = t; e = L.exp_quaternion(.5 * w); d = L.quaternion_difference(q, qmul(e, q))
        sx.eqa(L.exp_quaternion(.5 * d), e, "the difference of an increment is the same rotation"); sx.check(d[a] * t >= 0, "with the same sense")
    else:
        x = sx.real("x", -1, 1); sx.assume(x * x > 1e-5); k = lambda c: sx.Fr(c) if sx.MODE == "sym" else float(sx.Fr(c)); d = sx.arr([k(c) * x for c in sx.choose("about", [(0, 1, 0), ("2/3", "-1/3", "2/3")])] + [sx.choose("side", [1, -1]) * sx.sqrt(1 - x * x)]); p = qmul(d, q); w = L.quaternion_difference(q, p); r = L.integrate_quaternion(q, w); sx.eqa(r, p, "integrating the difference from q1 to q2 from q1 gives q2")


def e_diff_back():
    """the difference of an increment is the increment (below half a turn)"""
    L = lqr(); a = sx.choose("axis", [0, 1, 2]); q = sx.unit_quaternion("q"); t = sx.real("t", -3, 3); sx.assume(t * t > 1e-5); w = sx.arr([0., 0., 0.]); w[a] = t
    d = L.quaternion_difference(q, L.integrate_quaternion(q, w)); sx.eqa(L.exp_quaternion(.5 * d), L.exp_quaternion(.5 * w), "the difference of an increment is the same rotation"); sx.check(d[a] * t >= 0, "with the same sense")


def e_frame():
    """the tangent vector is expressed in the world frame: R(integrate(q, w)) = R(exp) R(q)"""
    L = lqr(); q = sx.unit_quaternion("q"); w = sx.vec("w", 3, -3, 3); r = L.integrate_quaternion(q, w); e = L.exp_quaternion(.5 * w)
    sx.eqa(rot(r), mm(rot(e), rot(q)), "increments act in the world frame")
    sx.eq(dot(r, r), dot(e, e), "integration keeps the norm of the exponential")


def e_axis():
    """rotation by |w| about w: closed form on the coordinate axes"""
    L = lqr(); a = sx.choose("axis", [0, 1, 2]); t = sx.real("t", -3, 3); sx.assume(t * t > 1e-5); w = sx.arr([0., 0., 0.]); w[a] = t
    q = L.integrate_quaternion(sx.arr([0., 0., 0., 1.]), w); R = rot(q); i, j = (a + 1) % 3, (a + 2) % 3
    s, c = (sx.strig(t * sx.Fr(1, 2)) if sx.MODE == "sym" else (math.sin(t / 2), math.cos(t / 2)))
    sx.eq(R[i, i], c * c - s * s, "cosine of the angle"); sx.eq(R[j, i], 2 * s * c, "sine of the angle"); sx.eq(R[i, j], -2 * s * c, "minus sine of the angle"); sx.eq(R[a, a], 1, "the axis is fixed")


def e_small():
    """near the identity the logarithm and the exponential agree to first order"""
    L = lqr(); v = sx.vec("v", 3, -1e-6, 1e-6); w = sx.real("w", 0.9999999, 1.0); q = sx.arr([v[0], v[1], v[2], w]); sx.assume(dot(v, v) <= 0.99e-12)
    r = L.log_quaternion(q)
    for i in range(3): sx.near(r[i], 2 * v[i], 1e-9, "the logarithm near the identity is twice the vector part")
    e = L.exp_quaternion(v)
    for i in range(3): sx.near(e[i], v[i], 1e-9, "the exponential near zero is the vector itself")
    sx.near(e[3], 1, 1e-9, "with scalar part one")


def e_compose():
    """increment_x and diff_x"""
    L = lqr(); x = np.empty(13, dtype=object) if sx.MODE == "sym" else np.zeros(13); x[:6] = sx.vec("x", 6, -10, 10); x[6:10] = sx.unit_quaternion("q"); x[10:] = sx.vec("w", 3, -10, 10); dx = sx.vec("d", 12, -2, 2)
    n2 = dot(dx[6:9], dx[6:9])
    x2 = L.increment_x(x, dx); sx.check(x2.shape == (13,), "an incremented state is a state")
    for i in range(6): sx.eq(x2[i], x[i] + dx[i], "position and velocity add")
    for i in range(3): sx.eq(x2[10 + i], x[10 + i] + dx[9 + i], "angular velocity adds")
    e = L.exp_quaternion(.5 * dx[6:9]); sx.eqa(rot(x2[6:10]), mm(rot(e), rot(x[6:10])), "orientation composes")
    y = np.empty(13, dtype=object) if sx.MODE == "sym" else np.zeros(13); y[:6] = sx.vec("y", 6, -10, 10); qd = sx.unit_quaternion("p"); y[6:10] = qmul(qd, x[6:10]); y[10:] = sx.vec("u", 3, -10, 10)
    sx.assume(dot(qd[:3], qd[:3]) > 1e-6)
    d = L.diff_x(x, y); sx.check(d.shape == (12,), "a difference is a tangent vector"); b = L.increment_x(x, d); sx.eqa(b, y, "x (+) (y (-) x) is y")


def step(x, u, active, L):
    L.active_contacts = [active]; return L.integrate_step(0, x, u)


def dyn(x, u, act, L):
    y = step(x, u, act, L); dt = sx.const(L.dt)
    for i in range(3): sx.eq(y[i], x[i] + dt * x[3 + i], "position advances with the velocity")
    for i in range(3): sx.eq(L.mass * (y[3 + i] - x[3 + i]), dt * (act * u[i] - (L.mass * 9.81 if i == 2 else 0)), "linear momentum follows force and gravity")
    sx.eqa(rot(y[6:10]), mm(rot(L.exp_quaternion(0.5 * L.dt * x[10:13])), rot(x[6:10])), "orientation advances with the angular velocity")
    R = rot(x[6:10]); I = mm(mm(R, sx.arr(L.inertia_com_frame)), R.T); w = x[10:13]; h = [dot(I[i], w) for i in range(3)]; g = [w[1] * h[2] - w[2] * h[1], w[2] * h[0] - w[0] * h[2], w[0] * h[1] - w[1] * h[0]]
    dw = [y[10 + i] - w[i] for i in range(3)]
    for i in range(3): sx.eq(dot(I[i], dw), dt * (act * u[3 + i] - g[i]), "Euler's equation for the rotation")
    sx.check(y.shape == (13,), "the step returns a state")
    v = L.integrate_angular_velocity(w, x[6:10], act * u[3:]); sx.eqa(v, y[10:13], "the two angular integrators agree")
    v = L.integrate_veocity(x[3:6], act * u[:3]); sx.eqa(v, y[3:6], "the two linear integrators agree")


Q = [(0, 0, 0, 1), (0.6, 0, 0, 0.8), (0, -0.6, 0, 0.8), (0.5, 0.5, -0.5, 0.5), (0.1, 0.7, 0.1, -0.7)]


def state(q=None):
    x = np.empty(13, dtype=object) if sx.MODE == "sym" else np.zeros(13); x[:6] = sx.vec("x", 6, -10, 10); x[6:10] = sx.unit_quaternion("q") if q is None else sx.arr([sx.Fr(str(a)) for a in q] if sx.MODE == "sym" else q); x[10:] = sx.vec("w", 3, -10, 10)
    return x


def e_step():
    L = lqr(); x = state(sx.choose("q", Q)); u = sx.vec("u", 6, -100, 100); dyn(x, u, sx.choose("act", [0., 1.]), L)


def e_step_yaw():
    """orientation symbolic about one axis"""
    L = lqr(); a = sx.choose("axis", [0, 1, 2]); x = state((0, 0, 0, 1)); s = sx.real("s", -1, 1)
    if sx.MODE == "sym":
        c, new = sx.atom("var", "c", ("c", "unit1")); c.lo, c.hi = sx.Fr(-1), sx.Fr(1); c.sq = {(): sx.Fr(1), ((s.n and list(s.n)[0][0][0], 2),): sx.Fr(-1)}; c.side = [c.z * c.z == sx.zpoly(c.sq), c.z <= 1, c.z >= -1]
        c = sx.S({((c.id, 1),): sx.Fr(1)})
    else: c = math.sqrt(max(0, 1 - s * s))
    x[6 + a] = s; x[9] = c; u = sx.vec("u", 6, -100, 100); dyn(x, u, sx.choose("act", [0., 1.]), L)


def e_rollout():
    L = lqr(); N = 3; L.N = N; act = [sx.choose("act%d" % i, [0., 1.]) for i in range(N)]; L.active_contacts = act; X = np.empty((N + 1, 13), dtype=object) if sx.MODE == "sym" else np.zeros((N + 1, 13)); X[:] = sx.const(0)
    X[0] = state(sx.choose("q", Q[:2])); X[0, 10:] = sx.const(0); x0 = X[0].copy(); U = sx.mat("u", N, 6, -100, 100); U[:, 3:] = sx.const(0); R = L.compute_trajectory_from_controls(X, U); sx.eqa(R[0], x0, "the rollout keeps the initial state")
    v = [x0[3 + i] for i in range(3)]; c = [x0[i] for i in range(3)]
    for t in range(N):
        for i in range(3): c[i] = c[i] + L.dt * v[i]; v[i] = v[i] + (L.dt / L.mass) * (act[t] * U[t][i] - L.weight[i])
        sx.eqa(R[t + 1][:6], c + v, "the rollout applies the controls one after the other")
        sx.eqa(R[t + 1][10:], [0, 0, 0], "no torque, no rotation"); sx.eqa(R[t + 1][6:10], x0[6:10], "the orientation stays")


def e_switch():
    L = lqr(); n = 4; P = np.empty((n, 5), dtype=object) if sx.MODE == "sym" else np.zeros((n, 5)); P[:] = sx.const(0); on = []
    for i in range(n):
        P[i, 0] = sx.const(0.1 * i); k = sx.choose("k%d" % i, [0, 1, 3, 4]); on.append(k > 0)
        for j in range(k): P[i, 1 + (i + j) % 4] = sx.const(1)
    L.contact_plan = P; r = L.switching_dynamics(); sx.check(len(r) == n, "one flag per step")
    for i in range(n): sx.eq(r[i], 1 if on[i] else 0, "control authority exists exactly when some foot is in contact")


def e_init():
    """reference trajectory from the planner's files"""
    N = 3; t = [0.001 * i for i in range(N)]
    com, vel, w, f, mo = [sx.mat(k, N, 3, -10, 10) for k in ("c", "v", "w", "f", "m")]; qs = [sx.choose("q%d" % i, Q[:2]) for i in range(N)]
    hs = lambda M: sx.arr([[t[i]] + list(M[i]) for i in range(N)])
    act = [sx.choose("act%d" % i, [0, 1]) for i in range(N)]
    sx.FILES.update({"quadruped_com.dat": hs(com), "quadruped_com_vel.dat": hs(vel), "quadruped_quaternion.dat": hs(sx.arr([[sx.Fr(str(a)) if sx.MODE == "sym" else a for a in q] for q in qs])), "quadruped_base_ang_velocities.dat": hs(w * 0), "quadruped_centroidal_forces.dat": hs(f), "quadruped_centroidal_moments.dat": hs(mo * 0), "quadruped_contact_activation.dat": sx.arr([[t[i], 0, act[i], 0, 0] for i in range(N)])})
    L = m.CentroidalLqr("dir"); sx.check(L.N == N - 1 and L.nx == 12 and L.m == 6, "dimensions follow the files"); sx.check(tuple(L.x0.shape) == (N, 13) and tuple(L.u0.shape) == (N - 1, 6), "one state per sample, one control per step")
    sx.eqa(L.u0[:, :3], f[:-1], "the planned forces are the controls"); sx.eqa(L.u0[:, 3:], [[0] * 3] * (N - 1), "the planned moments are the controls"); sx.eqa(L.x0[0], list(com[0]) + list(vel[0]) + list(L.com_ori[0]) + [0] * 3, "the reference starts at the planned state")
    sx.eqa(L.com_ori, sx.arr([[sx.Fr(str(a)) if sx.MODE == "sym" else a for a in q] for q in qs]), "orientation is read in x, y, z, w order")
    x = L.x0[0]
    for k in range(N - 1): x = L.integrate_step(k, x, L.u0[k]); sx.eqa(L.x0[k + 1], x, "the reference is the rollout of the controls")
    sx.check([float(a) for a in L.active_contacts] == [float(a) for a in act], "the contact plan decides control authority")
