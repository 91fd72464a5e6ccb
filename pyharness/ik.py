"""Inverse kinematics: the least-squares problem, its solver interface, recomputation, second-order tracking."""
import pysx as sx, os
from fractions import Fraction as Fr
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "robot.txt")).read())


class Spline:
    """stands for scipy's interpolation: value and slope of the data as functions of time"""
    def __init__(s, t, y): s.t, s.y = t, y
    def __call__(s, t, nu=0):
        d = (s.y[1] - s.y[0]) / (s.t[1] - s.t[0]); return d if nu == 1 else s.y[0] + d * t


STUBS = dict(make_pin(), quadprog=sx.Stub("quadprog", solve_qp=solve_qp), **{"scipy.interpolate": sx.Stub("scipy.interpolate", CubicSpline=Spline)})
L = sx.Loader(STUBS); ik = L.get("momentumopt.kinoptpy.inverse_kinematics"); qp = L.get("momentumopt.kinoptpy.qp"); sk = L.get("momentumopt.kinoptpy.second_order_ik")


def feet(ne): return ["FL_END", "FR_END", "HL_END", "HR_END"][:ne]
def world(ne, nj, bend=True): return Toy(nj, ["base_link", "universe"] + feet(ne) + ["FL_HFE", "FR_HFE"], bend)
def idx(t, ne): return [t.frames.index(n) for n in feet(ne)]


def weights(K, second=False):
    for n in ("w_endeff_tracking", "w_endeff_contact", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_joint_regularization"): setattr(K, n, sx.real(n, 0, 100))
    for n in (("p_endeff_tracking", "d_endeff_tracking", "p_com_tracking", "p_orient_tracking", "d_orient_tracking", "p_joint_regularization", "d_joint_regularization") if second else ("p_endeff_tracking", "p_com_tracking")): setattr(K, n, sx.real(n, 0, 100))


def wdiag(K, con, nj): return [K.w_lin_mom_tracking] * 3 + [K.w_ang_mom_tracking] * 3 + [w for c in con for w in [K.w_endeff_contact if c else K.w_endeff_tracking] * 3] + [K.w_joint_regularization] * nj


def jac(t, q, ne):
    n = 6 + 3 * ne + t.nj; J = sx.arr([[0] * t.nv for _ in range(n)]); J[:6] = t.Ag(q)
    for k, i in enumerate(idx(t, ne)): J[6 + 3 * k:9 + 3 * k] = t.Jw(i, q)[:3]
    for j in range(t.nj): J[6 + 3 * ne + j, 6 + j] = num(1)
    return J


def cfg(name, nq, free=1):
    q = sx.arr([num(Fr(i * i + 3 + len(name), 7)) for i in range(nq)])
    for k in [0, 7, 2, 8][:free]:
        if k < nq: q[k] = sx.real("%s%d" % (name, k), -3, 3)
    return q


def e_qp():
    """the wrapper hands over the problem as documented"""
    n = sx.choose("n", [1, 2, 3]); mG = sx.choose("G", [0, 1, 2]); mA = sx.choose("A", [0, 1]); P = sx.mat("P", n, n, -5, 5)
    for i in range(n):
        for j in range(i): P[i, j] = P[j, i]
    q = sx.vec("q", n, -5, 5); G, h, A, b = (sx.mat("G", mG, n, -5, 5), sx.vec("h", mG, -5, 5)) + (sx.mat("A", mA, n, -5, 5), sx.vec("b", mA, -5, 5)); kw = {}
    if mG: kw.update(G=G, h=h)
    if mA: kw.update(A=A, b=b)
    if sx.choose("warm", [False, True]): kw["initvals"] = sx.vec("w", n, -5, 5)
    del QP[:]; x = qp.QpSolver().quadprog_solve_qp(P, q, **kw); sx.check(len(QP) == 1, "one problem is solved"); g, a, C, d, meq, sol = QP[0]; sx.eqa(x, sol, "the solution is returned"); y = sx.vec("y", n, -5, 5)
    f1 = dot(y, g.dot(y)) * num(Fr(1, 2)) - dot(a, y); f2 = dot(y, P.dot(y)) * num(Fr(1, 2)) + dot(q, y); sx.eq(f1, f2, "the same objective"); sx.check(meq == mA, "number of equalities")
    m = 0 if C is None else C.shape[1]; sx.check(m == mA + mG, "every constraint is handed over")
    for i in range(mA): l = dot(C[:, i], y) - d[i]; r = dot(A[i], y) - b[i]; sx.check((l == r) | (l == -r), "the same equality")
    for i in range(mG): l = dot(C[:, mA + i], y) - d[mA + i]; r = dot(G[i], y) - h[i]; sx.eq(l, -r, "the same inequality")


def make(ne, nj, bend=True):
    t = world(ne, nj, bend); K = ik.PointContactInverseKinematics(Model(t), feet(ne)); return t, K


def refs(ne, nj, k=""):
    sym = lambda n, m, s: sx.arr([sx.real(n + k, -5, 5)] + [num(Fr(i + s, 3)) for i in range(m - 1)])
    return sym("com", 3, 1), sym("lmom", 3, 2), sym("amom", 3, 5), [sx.arr([num(Fr(e + 1, 2)), sx.real("epos%d%s" % (e, k), -5, 5), num(Fr(e, 3))]) for e in range(ne)], [sx.arr([num(Fr(e - 1, 2)), num(Fr(e, 5)), sx.real("evel%d%s" % (e, k), -5, 5)]) for e in range(ne)]


def problem(t, K, q, R, con, jr, gain):
    com, lm, am, ep, ev = R; ne = len(ep); v = list(lm + (com - t.com(q)) * K.p_com_tracking) + list(am)
    for k, i in enumerate(idx(t, ne)): v += list(ev[k] + (ep[k] - t.pos(i, q)) * gain)
    v += [num(0)] * t.nj if jr is None else list(jr); return jac(t, q, ne), wdiag(K, con, t.nj), v


def e_compute():
    """the velocity is the regularised weighted least-squares solution for momentum, feet and joints"""
    ne = sx.choose("ne", [1, 2]); nj = sx.choose("nj", [1, 2]); init = sx.choose("init", [0, 1]); fl = sx.choose("flight", [False, True]); t, K = make(ne, nj); weights(K); K.is_init_time = init
    q, dq = cfg("q", t.nq), cfg("dq", t.nv); con = [0.0 if fl else sx.choose("contact%d" % e, [1.0, 0.0]) for e in range(ne)]; R = refs(ne, nj); jr = sx.vec("jr", nj, -5, 5) if sx.choose("joint", [True, False]) else None; keep = [x.copy() if hasattr(x, "copy") else x for x in (q, dq) + R[:3]]
    del QP[:]; x = K.compute(q, dq, R[0], R[1], R[2], R[3], R[4], con, jr, fl); J, W, v = problem(t, K, q, R, con, jr, num(1) if init else K.p_endeff_tracking)
    is_minimiser(x, J, W, v, num(Fr(1, 10 ** 6)), J[:6] if fl else None, list(R[1]) + list(R[2]) if fl else None, "flight" if fl else "stance")
    for a, b in zip(keep, (q, dq) + R[:3]): sx.eqa(b, a, "arguments unchanged")


def e_again():
    """each call uses the kinematics of its own configuration and its own references"""
    t, K = make(1, 1); weights(K); K.is_init_time = 0; q = [cfg("qa", t.nq), cfg("qbc", t.nq)]; order = sx.choose("order", [(0, 1), (0, 0), (0, 1, 0)]); ext = sx.choose("updated outside", [False, True])
    for n, k in enumerate(order):
        fl = sx.choose("flight%d" % n, [False, True]); R = refs(1, 1, "_%d" % n); dq = cfg("v%d_" % n, t.nv, 0)
        if ext: K.forward_robot(q[k].copy(), dq)
        x = K.compute(q[k].copy(), dq, R[0], R[1], R[2], R[3], R[4], [1.0 if n % 2 else 0.0], None, fl); J, W, v = problem(t, K, q[k], R, [n % 2], None, K.p_endeff_tracking)
        is_minimiser(x, J, W, v, num(Fr(1, 10 ** 6)), J[:6] if fl else None, list(R[1]) + list(R[2]) if fl else None, "repeated")


def e_frames():
    """unknown end-effectors are refused, the mass is the one of the moving bodies"""
    t = world(2, 2); bad = sx.choose("bad", [False, True]); C = sx.choose("class", [ik.PointContactInverseKinematics, sk.SecondOrderInverseKinematics]); threw = False
    try: K = C(Model(t), feet(2) + (["NO_SUCH"] if bad else []))
    except Exception: threw = True
    sx.check(threw == bad, "unknown frames are refused")
    if not threw: sx.check(list(K.endeff_ids) == idx(t, 2), "end-effector frames in order"); sx.eq(K.mass if hasattr(K, "mass") else K.robot_mass, num(2), "mass of the moving bodies")


def e_jacobian():
    """frame Jacobians in world axes"""
    t, K = make(2, 2); q = cfg("q", t.nq, 2); K.forward_robot(q, cz(t.nv)); i = sx.choose("frame", range(1, len(t.frames))); sx.eqa(K.get_world_oriented_frame_jacobian(q, i), t.Jw(i, q), "world oriented Jacobian")


def make2(ne, nj, bend=True):
    t = world(ne, nj, bend); K = sk.SecondOrderInverseKinematics(Model(t), feet(ne)); return t, K


def accel(t, K, q, dq, com, ori, mom, dmom, ep, ev, ea, jr):
    """desired task accelerations minus drift"""
    ne = len(ep); h = t.hg(q, dq); J = jac(t, q, ne); v = [dmom[i] + K.p_mom_tracking[i] * (mom[i] - h[i]) for i in range(6)]; c = t.com(q)
    for i in range(3): v[i] = v[i] + K.p_com_tracking * (com[i] - c[i])
    err = log(BASE.T @ ori.matrix())
    for i in range(3): v[3 + i] = v[3 + i] + K.p_orient_tracking * err[i] - K.d_orient_tracking * dq[3 + i]
    for k, i in enumerate(idx(t, ne)):
        p = t.pos(i, q); vel = t.Jw(i, q)[:3].dot(dq)
        v += [K.p_endeff_tracking * (ep[k][j] - p[j]) + K.d_endeff_tracking * (ev[k][j] - vel[j]) + ea[k][j] for j in range(3)]
    v += [num(0)] * t.nj if jr is None else [K.p_joint_regularization * (jr[j] - q[7 + j]) - K.d_joint_regularization * dq[6 + j] for j in range(t.nj)]
    d = list(t.dAg(q, dq).dot(dq)) + [x for i in idx(t, ne) for x in t.dJw(i, q, dq)[:3].dot(dq)] + [num(0)] * t.nj
    return J, [a - b for a, b in zip(v, d)]


BASE = RotQ([num(Fr(1, 2)), num(Fr(1, 2)), num(Fr(-1, 2)), num(Fr(1, 2))])
_rotm = rotm
def rotm(i): return BASE if i == 0 else _rotm(i)   # base_link


def e_second():
    """the acceleration is the regularised weighted least-squares solution of the tracking laws"""
    ne, nj = sx.choose("size", [(1, 1), (2, 2)]); t, K = make2(ne, nj); weights(K, True); K.p_mom_tracking = sx.arr([num(Fr(10, i + 1)) for i in range(5)] + [sx.real("pmom", 0, 50)])
    q, dq = cfg("q", t.nq), cfg("dq", t.nv); con = [sx.choose("contact%d" % e, [1.0, 0.0]) for e in range(ne)]; com, lm, am, ep, ev = refs(ne, nj); mom = sx.arr(list(lm) + list(am)); dm = sx.arr([sx.real("dmom", -5, 5)] + [num(Fr(i, 2)) for i in range(5)]); ea = [sx.arr([num(Fr(e, 2)), num(1), sx.real("eacc%d" % e, -5, 5)]) for e in range(ne)]; ori = Quaternion(num(Fr(1, 2)), sx.real("ori", -1, 1), num(Fr(1, 3)), num(0)); jr = sx.vec("jr", nj, -5, 5) if sx.choose("joint", [True, False]) else None
    del QP[:]; x = K.step(q, dq, com, ori, mom, dm, ep, ev, ea, con, jr); J, v = accel(t, K, q, dq, com, ori, mom, dm, ep, ev, ea, jr); is_minimiser(x, J, wdiag(K, con, nj), v, num(Fr(1, 10 ** 6)), None, None, "second order")


def balanced(K):
    """weights and gains of one magnitude, so that no task hides another"""
    for k, n in enumerate(("w_endeff_tracking", "w_endeff_contact", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_joint_regularization", "p_endeff_tracking", "d_endeff_tracking", "p_com_tracking", "p_orient_tracking", "d_orient_tracking", "p_joint_regularization", "d_joint_regularization")): setattr(K, n, 1.0 + 0.25 * k)
    K.p_mom_tracking = sx.arr([num(Fr(k + 2, 4)) for k in range(6)])


def e_second_solve():
    """the trajectory integrates the accelerations at one kilohertz and stores what the states give"""
    dt, n = sx.choose("dt", [(0.001, 1), (0.002, 2), (0.003, 3)]); N = sx.choose("N", [2, 3]) if n < 3 else 2; t, K = make2(1, 1, False); balanced(K); q0, v0 = cfg("q", t.nq), cfg("v", t.nv); r = lambda nm, m: sx.arr([[sx.real(nm + str(k), -5, 5)] + [num(Fr(k * k + i, 4)) for i in range(m - 1)] for k in range(N)])
    com, lm, am, jp, bo = r("com", 3), r("lmom", 3), r("amom", 3), r("jp", 1), r("bo", 3); ep, ev = r("ep", 3).reshape(N, 1, 3), r("ev", 3).reshape(N, 1, 3); con = [[1.0 if k != 1 else 0.0] for k in range(N)]
    del QP[:]; out = K.solve(dt, q0, v0, com, lm, am, ep, ev, con, jp, bo); sx.check(len(QP) == (N - 1) * n, "one problem per millisecond"); q, v = q0.copy(), v0.copy(); T = lambda y, s, nu=0: Spline([0.0, dt], y)(s, nu); s = 0.0
    for k in range(N):
        if k:
            for i in range(n):
                y = QP[(k - 1) * n + i]; ori = Quaternion(rpyToMatrix(T(bo, s))); J, a = accel(t, K, q, v, T(com, s), ori, sx.arr(list(T(lm, s)) + list(T(am, s))), sx.arr(list(T(lm, s, 1)) + list(T(am, s, 1))), T(ep, s), T(ev, s), T(ev, s, 1), T(jp, s)); w = wdiag(K, con[k], 1)
                res = [w[m] * (dot(J[m], y[5]) - a[m]) for m in range(len(a))]
                for m in range(t.nv): sx.eq(dot(y[0][m], y[5]) - y[1][m], dot(J[:, m], res) + y[5][m] * num(Fr(1, 10 ** 6)), "each step tracks the references of its time", 1e-5)
                v = v + y[5] * 0.001; q = t.integrate(q, v * 0.001); s += 0.001
        h = t.hg(q, v); sx.eqa(out[0][k], q, "configuration"); sx.eqa(out[1][k], v, "velocity"); sx.eqa(out[2][k], t.com(q), "centre of mass"); sx.eqa(out[3][k], h[:3], "linear momentum"); sx.eqa(out[4][k], h[3:], "angular momentum"); sx.eqa(out[5][k][0], t.pos(2, q), "foot position"); sx.eqa(out[6][k][0], t.Jw(2, q)[:3].dot(v), "foot velocity")
