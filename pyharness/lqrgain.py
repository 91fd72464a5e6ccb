"""Backward pass of the centroidal LQR on the orientation manifold (lqr_gain_manifold.py)."""
import numpy as np
import pysx as sx
from pysx import Fr
import os, sys
ns = {}; hf = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifold.py"); exec(compile(open(hf).read(), hf, "exec"), ns)
lqr, dot, mm, rot, Q, state, m = [ns[k] for k in "lqr dot mm rot Q state m".split()]


def cr(v): return sx.arr([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def point(q):
    x = np.empty(13, dtype=object) if sx.MODE == "sym" else np.zeros(13); x[:6] = sx.vec("x", 6, -2, 2); x[6:10] = sx.arr([Fr(str(a)) for a in q] if sx.MODE == "sym" else q); x[10:] = sx.vec("w", 3, -1, 1); return x


def e_dynamics():
    """finite differences of the step = the analytic Jacobian in world-frame tangent coordinates"""
    L = lqr(); q = sx.choose("q", Q); act = sx.choose("act", [1., 0.]); ax = sx.choose("axis", [0, 1, 2]); x = point(q); om = [0.25, -0.5, 0.75]
    for i in range(3):
        if i != ax: x[10 + i] = sx.const(om[i])
    u = sx.vec("u", 6, -1, 1); L.active_contacts = [act]; xs, us = x.copy(), u.copy(); fx, fu = L.dynamics_derivatives(0, x, u)
    sx.eqa(x, xs, "the state is not modified"); sx.eqa(u, us, "the control is not modified")
    sx.check(fx.shape == (12, 12) and fu.shape == (12, 6), "Jacobian shapes"); dt = 1e-3; tol = 1e-5
    F = np.empty((12, 12), dtype=object) if sx.MODE == "sym" else np.zeros((12, 12)); F[:] = sx.const(0); B = np.empty((12, 6), dtype=object) if sx.MODE == "sym" else np.zeros((12, 6)); B[:] = sx.const(0)
    for i in range(12): F[i, i] = sx.const(1)
    for i in range(3): F[i, 3 + i] = sx.const(dt); F[6 + i, 9 + i] = sx.const(dt); B[3 + i, i] = act * dt / L.mass
    w = x[10:]; R = rot(x[6:10]); I = mm(mm(R, sx.arr(L.inertia_com_frame)), R.T); Ii = mm(mm(R, sx.arr([[1 / L.inertia_com_frame[i][i] if i == j else 0 for j in range(3)] for i in range(3)])), R.T); h = mm(I, w.reshape(3, 1)); W = cr(w)
    F[6:9, 6:9] = F[6:9, 6:9] + W * dt
    A = mm(Ii, mm(W, I) - cr(h[:, 0])) * (-dt); F[9:, 9:] = F[9:, 9:] + A; B[9:, 3:] = Ii * (act * dt)
    n = (act * u[3:]).reshape(3, 1) - mm(W, h)
    for k in range(3):
        e = sx.arr([1 if i == k else 0 for i in range(3)]); E = cr(e); dI = mm(E, I) - mm(I, E); dIi = mm(E, Ii) - mm(Ii, E)
        F[9:, 6 + k] = F[9:, 6 + k] + ((mm(dIi, n) - mm(Ii, mm(W, mm(dI, w.reshape(3, 1))))) * dt)[:, 0]
    for i in range(12):
        for j in range(12): sx.near(fx[i, j], F[i, j], tol, "df/dx is the derivative of the step")
        for j in range(6): sx.near(fu[i, j], B[i, j], tol, "df/du is the derivative of the step")


def setup(N=2):
    L = lqr(); L.N = N; L.Q = [np.eye(12) if sx.MODE == "replay" else sx.arr(np.eye(12)) for _ in range(N + 1)]; L.R = [sx.arr(1.e-3 * np.eye(6)) for _ in range(N)]; return L


def e_cost():
    """tracking cost and its derivatives at states with the reference orientation"""
    L = setup(1); t = sx.choose("t", [0, 1]); x = point(sx.choose("q", Q[:3])); d = np.empty(12, dtype=object) if sx.MODE == "sym" else np.zeros(12); d[:] = sx.const(0); d[:6] = sx.vec("d", 6, -2, 2); d[9:] = sx.vec("e", 3, -1, 1)
    ref = x.copy(); ref[:6] = ref[:6] - d[:6]; ref[10:] = ref[10:] - d[9:]; L.x0 = [ref, ref]; u = sx.vec("u", 6, -5, 5); k = 2 if t == 1 else 1
    c = L.cost(t, x, u); sx.eq(c, dot(d, d) * (0.5 * k) + (dot(u, u) * 0.0005 if t == 0 else 0), "the cost is the weighted squared tracking error plus control effort")
    cx, cu, cxx, cuu, cxu = L.cost_derivatives(t, x, u)
    for i in range(12): sx.near(cx[i], k * d[i], 1e-4, "the gradient with respect to the state")
    for i in range(6): sx.near(cu[i], 1e-3 * u[i] if t == 0 else 0, 1e-5, "the gradient with respect to the control")
    for i in range(12):
        for j in range(12): sx.near(cxx[i, j], k if i == j else 0, 1e-3, "the state Hessian is the weight matrix")
        for j in range(6): sx.eq(cxu[i, j], 0, "no state/control coupling in the cost")
    for i in range(6):
        for j in range(6): sx.eq(cuu[i, j], 1e-3 if i == j and t == 0 else 0, "the control Hessian is the control weight")


def e_cost_weights():
    """unequal weights"""
    L = setup(1); x = point(Q[1]); wq = sx.vec("wq", 12, 0.1, 5); wr = sx.vec("wr", 6, 0.1, 5); L.Q = [sx.arr(np.diag(wq)), sx.arr(np.diag(wq))]; L.R = [sx.arr(np.diag(wr))]; ref = x.copy(); L.x0 = [ref, ref]; u = sx.vec("u", 6, -1, 1); t = sx.choose("t", [0, 1]); k = 2 if t == 1 else 1
    cx, cu, cxx, cuu, cxu = L.cost_derivatives(t, x, u)
    for i in range(12):
        sx.near(cx[i], 0, 1e-4, "no state gradient on the reference")
        for j in range(12): sx.near(cxx[i, j], k * wq[i] if i == j else 0, 1e-3, "the state Hessian is the weight matrix, direction by direction")
    for i in range(6):
        sx.near(cu[i], wr[i] * u[i] if t == 0 else 0, 1e-4, "the control gradient is weighted")
        for j in range(6): sx.eq(cuu[i, j], wr[i] if i == j and t == 0 else 0, "the control Hessian is the control weight, direction by direction")


def zeros(*s):
    z = np.empty(s, dtype=object) if sx.MODE == "sym" else np.zeros(s); z[...] = sx.const(0); return z


def sym(name, n):
    M = zeros(n, n)
    for i in range(n):
        for j in range(i, n): M[i, j] = M[j, i] = sx.real("%s%d_%d" % (name, i, j), -5, 5)
    return M


def alloc(L, N, n, k):
    L.N, L.nx, L.m = N, n, k; L.value = zeros(N + 1); L.value_dx = zeros(N + 1, n); L.value_dxdx = zeros(N + 1, n, n); L.Q0 = zeros(N + 1); L.Qdx = zeros(N + 1, n); L.Qdu = zeros(N + 1, k); L.Qdxdx = zeros(N + 1, n, n); L.Qdudu = zeros(N + 1, k, k); L.Qdxdu = zeros(N + 1, n, k); L.kfb = zeros(N, k, n); L.kff = zeros(N, k)


def quad(v0, g, H, d): return v0 + dot(g, d) + dot(d, H.dot(d)) * Fr(1, 2) if sx.MODE == "sym" else v0 + g.dot(d) + .5 * d.dot(H).dot(d)


def e_q():
    """the Q function is the second-order expansion of cost plus next value through the linearised dynamics"""
    L = lqr(); n, k = 3, 2; alloc(L, 2, n, k); t = sx.choose("t", [0, 1]); fx, fu = sx.mat("fx", n, n, -5, 5), sx.mat("fu", n, k, -5, 5); c0 = sx.real("c0", -5, 5); cx, cu, cxx, cuu, cxu = sx.vec("cx", n, -5, 5), sx.vec("cu", k, -5, 5), sym("cxx", n), sym("cuu", k), sx.mat("cxu", n, k, -5, 5); V, Vx, Vxx = sx.real("V", -5, 5), sx.vec("Vx", n, -5, 5), sym("Vxx", n); X, U = object(), object(); seen = []
    L.cost = lambda *a: (seen.append(a), c0)[1]; L.dynamics_derivatives = lambda *a: (seen.append(a), (fx, fu))[1]; L.cost_derivatives = lambda *a: (seen.append(a), (cx, cu, cxx, cuu, cxu))[1]
    L.compute_Q(V, Vx, Vxx, t, X, U); sx.check(all(a[0] == t and a[1] is X and a[2] is U for a in seen) and len(seen) >= 3, "cost and dynamics are expanded at the given point")
    dx, du = sx.vec("dx", n, -5, 5), sx.vec("du", k, -5, 5); nx = fx.dot(dx) + fu.dot(du); want = quad(c0, cx, cxx, dx) + dot(cu, du) + dot(du, cuu.dot(du)) * 0.5 + dot(dx, cxu.dot(du)) + quad(V, Vx, Vxx, nx)
    got = quad(L.Q0[t], L.Qdx[t], L.Qdxdx[t], dx) + dot(L.Qdu[t], du) + dot(du, L.Qdudu[t].dot(du)) * 0.5 + dot(dx, L.Qdxdu[t].dot(du)); sx.eq(got, want, "the Q function is cost plus value of the successor")
    for s in range(3):
        if s != t: sx.eq(L.Q0[s], 0, "other time steps are untouched")


def spd(name, k):
    M = sx.mat(name, k, k, -2, 2)
    for i in range(k):
        for j in range(i + 1, k): M[i, j] = sx.const(0)
    for i in range(k): M[i, i] = sx.real(name + "d%d" % i, 0.3, 3)
    return M.dot(M.T)


def e_value():
    """the value function is the minimum of the Q function over the control, the gains its minimiser"""
    L = lqr(); n, k = 2, sx.choose("k", [1, 2]); alloc(L, 2, n, k); t = sx.choose("t", [0, 1]); L.Q0[t] = sx.real("Q0", -5, 5); L.Qdx[t] = sx.vec("qx", n, -5, 5); L.Qdu[t] = sx.vec("qu", k, -5, 5); L.Qdxdx[t] = sym("qxx", n); L.Qdudu[t] = spd("quu", k); L.Qdxdu[t] = sx.mat("qxu", n, k, -5, 5)
    A, B, C, D, E, F = [np.array(a[t], copy=True) if isinstance(a[t], np.ndarray) else a[t] for a in (L.Q0, L.Qdx, L.Qdu, L.Qdxdx, L.Qdudu, L.Qdxdu)]
    L.compute_value_function(t); sx.eqa(L.Qdudu[t].dot(L.kff[t]), C, "the feedforward term minimises the Q function"); sx.eqa(E.dot(L.kfb[t]), F.T, "the feedback gain minimises the Q function")
    dx = sx.vec("dx", n, -5, 5); u = -L.kff[t] - L.kfb[t].dot(dx); best = quad(A, B, D, dx) + dot(C, u) + dot(u, E.dot(u)) * 0.5 + dot(dx, F.dot(u)); sx.eq(quad(L.value[t], L.value_dx[t], L.value_dxdx[t], dx), best, "the value function is the Q function at the minimiser")
    for i in range(n):
        for j in range(n): sx.eq(L.value_dxdx[t][i, j], L.value_dxdx[t][j, i], "the value Hessian is symmetric")


def e_gains():
    """backward pass over the horizon: discrete Riccati recursion, saved gains"""
    N = sx.choose("N", [1, 2, 3]); L = lqr(); alloc(L, N, 12, 6); L.dir = "dir"; L.x0 = [sx.arr([float(100 + t)] * 13) for t in range(N + 1)]; L.u0 = [sx.arr([float(t)] * 6) for t in range(N)]; order = []
    a, b, d = [sx.vec(s, N, -2, 2) for s in "abd"]; q = sx.vec("q", N + 1, 0.1, 4); r = sx.vec("r", N, 0.2, 4); g = sx.vec("g", N + 1, -2, 2); f = sx.vec("f", N, -2, 2)
    # six decoupled systems x1' = x1 + a x2, x2' = d x2 + b u, one of them symbolic
    one = sx.choose("system", [0, 4]); A0, B0, D0 = a, b, d; cst = lambda x: sx.const(Fr(x) if sx.MODE == "sym" else float(Fr(x))); a = [[A0[t] if i == one else cst(Fr(i + 1, 4)) for i in range(6)] for t in range(N)]; b = [[B0[t] if i == one else cst(Fr(i + 2, 3)) for i in range(6)] for t in range(N)]; d = [[D0[t] if i == one else cst(Fr(3 - i, 2)) for i in range(6)] for t in range(N)]
    q = [[q[t] if i == one else cst(1 + Fr(i, 3)) for i in range(6)] for t in range(N + 1)]; r = [[r[t] if i == one else cst(1 + Fr(t + i, 5)) for i in range(6)] for t in range(N)]; g = [[g[t] if i == one else cst(Fr(i - t, 4)) for i in range(6)] for t in range(N + 1)]; f = [[f[t] if i == one else cst(Fr(i + t, 7)) for i in range(6)] for t in range(N)]

    def dyn(t, x, u):
        order.append(("d", t)); sx.check(x is L.x0[t] or bool(np.all(x == L.x0[t])), "the dynamics are linearised on the reference"); fx = zeros(12, 12); fu = zeros(12, 6)
        for i in range(6): fx[i, i] = sx.const(1); fx[i, 6 + i] = a[t][i]; fx[6 + i, 6 + i] = d[t][i]; fu[6 + i, i] = b[t][i]
        return fx, fu

    def cd(t, x, u):
        order.append(("c", t)); cxx = zeros(12, 12); cuu = zeros(6, 6)
        for i in range(12): cxx[i, i] = q[t][i % 6]
        if t < N:
            for i in range(6): cuu[i, i] = r[t][i]
        return sx.arr(list(g[t]) * 2), sx.arr(list(f[t]) if t < N else [0] * 6), cxx, cuu, zeros(12, 6)
    L.dynamics_derivatives, L.cost_derivatives = dyn, cd; L.cost = lambda t, x, u: q[t][0] * 0
    L._smooth_inv = lambda m: sx.assume(False)   # only positive definite control Hessians here
    L.compute_gains(); K = sx.SAVED.get("dir/quadruped_centroidal_gains_manifold.dat"); sx.check(K is not None and K.shape == (N, 72), "one row of 6 x 12 gains per control step is saved"); sx.check([t for k, t in order if k == "d"] == list(range(N - 1, -1, -1)), "one backward sweep")
    # scalar oracle, copy by copy
    for i in range(6):
        P = [[q[N][i], sx.const(0)], [sx.const(0), q[N][i]]]; p = [g[N][i], g[N][i]]
        for t in range(N - 1, -1, -1):
            A = [[sx.const(1), a[t][i]], [sx.const(0), d[t][i]]]; B = [sx.const(0), b[t][i]]
            PB = [P[0][0] * B[0] + P[0][1] * B[1], P[1][0] * B[0] + P[1][1] * B[1]]; S = r[t][i] + B[0] * PB[0] + B[1] * PB[1]; sx.assume(S > 0); k = [(A[0][j] * PB[0] + A[1][j] * PB[1]) / S for j in range(2)]; ff = (f[t][i] + B[0] * p[0] + B[1] * p[1]) / S
            for j in range(2):
                sx.eq(L.kfb[t][i, i + 6 * j], k[j], "the feedback gain solves the Riccati recursion"); sx.eq(K[t, 12 * i + i + 6 * j], k[j], "the saved row is the gain matrix, row by row")
            sx.eq(L.kff[t][i], ff, "the feedforward term follows the recursion")
            if t == N - 1 and N > 1: sx.eq(L.kfb[t][i, (i + 1) % 6], 0, "decoupled axes stay decoupled")
            if t > 0:
                AP = [[A[0][x] * P[0][y] + A[1][x] * P[1][y] for y in range(2)] for x in range(2)]; H = [[AP[x][0] * A[0][y] + AP[x][1] * A[1][y] + (q[t][i] if x == y else 0) - S * k[x] * k[y] for y in range(2)] for x in range(2)]
                p = [g[t][i] + A[0][j] * p[0] + A[1][j] * p[1] - S * ff * k[j] for j in range(2)]; P = H
