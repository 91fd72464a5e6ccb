"""Foot reference trajectories: polynomials, contact intervals, swing generation, via-point interpolation."""
import pysx as sx
mj = sx.load("momentumopt.kinoptpy.min_jerk_traj")
mk = sx.load("momentumopt.kinoptpy.momentum_kinematics_optimizer")


def add(*x):
    t = sx.const(0)
    for v in x: t = t + v
    return t


def pol(c, t, d=0):
    """value of the d-th derivative of sum c[k] t^k"""
    r = sx.const(0)
    for k in range(d, len(c)):
        f = 1
        for j in range(d): f *= k - j
        r = r + c[k] * f * t ** (k - d)
    return r


def e_poly():
    """every polynomial: eval/deval are value and derivative"""
    n = sx.choose("n", [1, 2, 4, 7]); c = [sx.real("c%d" % i, -10, 10) for i in range(n)]; t = sx.real("t", -5, 5)
    co = sx.arr([[c[i], i] for i in range(n)]); p = mj.Polynomial(coeffs=co)
    sx.eq(p.eval(t), pol(c, t), "a polynomial evaluates to the sum of its terms")
    sx.eq(p.deval(t), pol(c, t, 1), "deval is the derivative")
    sx.eqa(p.get_coeffs(), co, "evaluation leaves the coefficients alone")


def e_fit():
    """min-jerk boundary conditions"""
    t0, t1 = sx.choose("t", [(0, 4), (3, 5), (2, 12), (1.5, 2.25), (40, 65), (-3, 7)]); a, b, v = sx.real("a", -10, 10), sx.real("b", -10, 10), sx.real("v", -10, 10); mode = sx.choose("via", ["via", "none"])
    p = mj.poly_points([t0, t1], a, b, v) if mode == "via" else mj.poly_points([t0, t1], a, b)
    tol = 1e-5
    sx.eq(p.eval(t0), a, "the swing starts at its start point", tol); sx.eq(p.eval(t1), b, "the swing ends at its end point", tol)
    sx.eq(p.deval(t0), 0, "no velocity at lift-off", tol); sx.eq(p.deval(t1), 0, "no velocity at touch-down", tol)
    c = [x for x in p.get_coeffs()[:, 0]]; e = [int(x) for x in p.get_coeffs()[:, 1]]; sx.check(e == list(range(7)), "degree six")
    sx.eq(pol(c, sx.const(t0), 2), 0, "no acceleration at lift-off", tol); sx.eq(pol(c, sx.const(t1), 2), 0, "no acceleration at touch-down", tol)
    sx.eq(p.eval(0.5 * (t0 + t1)), v if mode == "via" else 0.5 * (a + b), "the swing passes through the via point halfway", tol)


def e_list():
    """piecewise lookup"""
    n = sx.choose("n", [1, 2, 3]); L = mj.PolynominalList(); w = []; t = sx.const(0); cs = []
    for i in range(n):
        e = t + sx.real("d%d" % i, 0.1, 5); c = sx.real("c%d" % i, -10, 10); L.append([t, e], mj.constant_poly(c)); w.append((t, e)); cs.append(c); t = e
    x = sx.real("x", -2, 20); r = L.eval(x); d = L.deval(x); sx.eq(d, 0, "a constant piece does not move")
    for i in range(n):
        lo = w[i][0] if i else None; hi = w[i][1] if i < n - 1 else None
        if (lo is None or sx.branch(x > lo)) and (hi is None or sx.branch(x <= hi)): sx.eq(r, cs[i], "the piece whose window holds t answers")


class St:
    pass


def plan(N, ne):
    """activation pattern and foot positions (constant over each contact phase)"""
    act = [[sx.choose("act%d_%d" % (e, i), [True, False]) for i in range(N)] for e in range(ne)]; pos = []; ph = []
    for e in range(ne):
        if not any(act[e]): sx.assume(False)
        k = -1; row = []; P = []
        for i in range(N):
            if act[e][i] and (i == 0 or not act[e][i - 1]): k += 1; P.append(sx.vec("p%d_%d_" % (e, k), 3, -5, 5))
            row.append(P[k] if act[e][i] else sx.vec("f%d_%d_" % (e, i), 3, -5, 5))
        pos.append(row); ph.append(P)
    return act, pos


def opt(act, pos, N, ne, dt):
    o = St(); o.eff_names = ["foot%d" % e for e in range(ne)]; o.num_time_steps = N; o.dt = dt; o.dynamic_sequence = St(); o.dynamic_sequence.dynamics_states = []
    for i in range(N):
        s = St(); s.effActivation = (lambda e, i=i: act[e][i]); s.eff = (lambda e, i=i: pos[e][i].copy()); o.dynamic_sequence.dynamics_states.append(s)
    return o


def intervals(a):
    r = []
    for i, x in enumerate(a):
        if x and (i == 0 or not a[i - 1]): r.append([i, i])
        elif x: r[-1][1] = i
    return r


def swing(N, ne):
    act, pos = plan(N, ne); dt = sx.choose("dt", [0.1, 0.05]); g = mk.EndeffectorTrajectoryGenerator(); z = g.z_offset = sx.real("z", 0, 1)
    o = opt(act, pos, N, ne, dt); P, V, C = g(o); sx.check(P.shape == (N, ne, 3) and V.shape == (N, ne, 3) and C.shape == (N, ne), "one reference per step and foot"); tol = 1e-5
    for e in range(ne):
        iv = intervals(act[e])
        for i in range(N):
            sx.eq(C[i][e], 1 if act[e][i] else 0, "the contact flag is the planned activation")
            if act[e][i]:
                sx.eqa(P[i][e], pos[e][i], "a foot in contact stays at its contact point", tol); sx.eqa(V[i][e], [0, 0, 0], "a foot in contact does not move", tol)
        for k in range(len(iv) - 1):
            s, t = iv[k][1], iv[k + 1][0]; A, B = pos[e][s], pos[e][t]
            for i in range(s + 1, t):
                u = sx.Fr(i - s, t - s) if sx.MODE == "sym" else (i - s) / (t - s)
                for x in range(3):
                    via = A[x] + z if x == 2 else (A[x] + B[x]) * 0.5
                    # degree six: minimum-jerk blend plus the bump that meets the via point halfway
                    m = 10 * u ** 3 - 15 * u ** 4 + 6 * u ** 5; h = 64 * (u * (1 - u)) ** 3; md = 30 * u ** 2 - 60 * u ** 3 + 30 * u ** 4; hd = 192 * (u * (1 - u)) ** 2 * (1 - 2 * u)
                    D = via - (A[x] + B[x]) * 0.5
                    sx.eq(P[i][e][x], A[x] + (B[x] - A[x]) * m + D * h, "the swing foot follows the minimum-jerk arc", tol)
                    sx.eq(V[i][e][x], ((B[x] - A[x]) * md + D * hd) * (1.0 / ((t - s) * dt)), "the reference velocity is the time derivative", 1e-4)
        for i in range(iv[0][0]): sx.eqa(P[i][e], pos[e][iv[0][0]], "before its first contact the foot waits at it", tol)
        for i in range(iv[-1][1] + 1, N): sx.eqa(P[i][e], pos[e][iv[-1][1]], "after its last contact the foot stays there", tol); sx.eqa(V[i][e], [0, 0, 0], "after its last contact the foot does not move", tol)


def e_swing1(): swing(6, 1)
def e_swing2(): swing(4, 2)
def e_swing_long(): swing(8, 1)


def e_interp():
    """via-point interpolation of joints/base"""
    nj = 2; n = sx.choose("n", [1, 2, 3]); dt = 0.1; N = 20; T = {1: [0.8], 2: [0.5, 1.5], 3: [0.4, 0.9, 1.6]}[n]
    if sx.choose("last", [False, True]): T = T[:-1] + [2.0]
    g = mk.TrajectoryInterpolator(); g.num_time_steps = N; ini = sx.vec("i", nj, -3, 3); end = sx.vec("e", nj, -3, 3); g.init, g.end = ini, end
    via = [sx.vec("v%d_" % k, nj, -3, 3) for k in range(n)]; g.generate_trajectory(n, [[T[k]] + list(via[k]) for k in range(n)], dt)
    knots = [(0, ini)] + [(T[k] / dt, via[k]) for k in range(n)]
    if T[-1] < 2.0 - 1e-9: knots.append((N, end))
    for t in range(N + 1):
        r = g.evaluate_trajecory(t); sx.check(r.shape == (1, nj), "one value per coordinate")
        for (a, A), (b, B) in zip(knots, knots[1:]):
            if a - 1e-9 <= t <= b + 1e-9:
                u = (t - a) / (b - a); m = 10 * u ** 3 - 15 * u ** 4 + 6 * u ** 5
                for j in range(nj): sx.eq(r[0, j], A[j] + (B[j] - A[j]) * m, "the interpolation is the minimum-jerk blend between via points", 1e-5)
                break
