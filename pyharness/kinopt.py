"""Kinematic optimisation along a dynamics plan: references per step, integration, stored results."""
import pysx as sx, os
from fractions import Fraction as Fr
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "robot.txt")).read())


class KinState:
    def __init__(s): s.robot_posture = Obj(); s.robot_velocity = Obj()


class KinSeq:
    def resize(s, n, dofs): s.kinematics_states = [KinState() for _ in range(n)]; s.dofs = dofs


STUBS = dict(make_pin(), quadprog=sx.Stub("quadprog", solve_qp=solve_qp), pymomentum=dict(KinematicsSequence=KinSeq))
STUBS["momentumopt.robots.blmc_robot_wrapper"] = sx.Stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper=None)
mk = sx.Loader(STUBS).get("momentumopt.kinoptpy.momentum_kinematics_optimizer")
LEGS = ["FL", "FR"]


class Bot:
    """what a robot wrapper of the repository offers to the optimiser"""
    def __init__(s, ne, nj, bend=True):
        s.toy = Toy(nj, ["base_link", "universe"] + [l + "_HFE" for l in LEGS[:ne]] + [l + "_END" for l in LEGS[:ne]], bend); s.model = Model(s.toy); s.effs = LEGS[:ne]; s.joints_list = ["HFE", "END"]; s.num_ctrl_joints = nj; s.robot = RobotWrapper(s.model)
    def __call__(s): return s


class Settings:
    def __init__(s, **k): s.k = k
    def get(s, n): return s.k[str(n).split("_")[-1]]


def num_or(x): return x
def settings(N, dt, nj, joints): return Settings(TimeStep=dt, NumTimesteps=N, NumDofs=nj, KinematicDefaultJointPositions=joints, RobotWeight=sx.real("weight", 1, 1000))


def dyn(N, ne, act, tag=""):
    s = Obj(); s.dynamics_states = []
    sym = lambda n, m: sx.arr([sx.real(n + tag, -5, 5)] + [num(Fr(7 * i + len(n) + len(s.dynamics_states), 5)) for i in range(m - 1)])
    for k in range(N):
        d = Obj(); d.com = sym("com%d" % k, 3); d.lmom = sx.vec("lmom%d%s_" % (k, tag), 3, -5, 5); d.amom = sym("amom%d" % k, 3); d.effActivation = (lambda e, k=k: act[k][e]); s.dynamics_states.append(d)
    return s


def generator(N, ne, act, tag=""):
    P = sx.arr([[[sx.real("ep%d_%d%s" % (k, e, tag), -5, 5), num(Fr(k + e, 3)), num(Fr(1, 2))] for e in range(ne)] for k in range(N)]); V = sx.arr([[[num(Fr(k - e, 3)), sx.real("ev%d_%d%s" % (k, e, tag), -5, 5), num(1)] for e in range(ne)] for k in range(N)]); C = [[1.0 if act[k][e] else 0.0 for e in range(ne)] for k in range(N)]
    return (lambda o: (P, V, C)), P, V, C


def sol(nv, k): x = sx.arr([num(Fr((3 * i + k) % 7 - 3, 4)) for i in range(nv)]); x[k % 3] = sx.real("x%d_a" % k, -3, 3); x[6 + k % (nv - 6)] = sx.real("x%d_b" % k, -3, 3); return x


def cfg(nq, name="q"):
    q = sx.arr([num(Fr(i * i + 3, 7)) for i in range(nq)]); q[0] = sx.real(name + "0", -3, 3); q[4] = sx.real(name + "4", -1, 1); q[7] = sx.real(name + "7", -3, 3); return q


def make(N, ne, nj, dt, gen, bend=True, joints=None, iters=50):
    K = mk.MomentumKinematicsOptimizer(); B = Bot(ne, nj, bend); S = settings(N, dt, nj, joints); K.initialize(S, iters, 0.001, gen, B); K.reg_orientation, K.reg_joint_position = sx.real("reg_orientation", 0, 10), sx.real("reg_joint", 0, 10)
    I = K.inv_kin
    for i, n in enumerate(("w_endeff_tracking", "w_endeff_contact", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_joint_regularization", "p_endeff_tracking", "p_com_tracking")): setattr(I, n, num(Fr(2 * i + 3, i + 2)))
    return K, B.toy, I, S


def jac(t, q, ne):
    J = sx.arr([[0] * t.nv for _ in range(6 + 3 * ne + t.nj)]); J[:6] = t.Ag(q)
    for k in range(ne): J[6 + 3 * k:9 + 3 * k] = t.Jw(2 + ne + k, q)[:3]
    for j in range(t.nj): J[6 + 3 * ne + j, 6 + j] = num(1)
    return J


def solved(k, t, I, q, com, lm, am, ep, ev, con, jr, gain, flight, label):
    """the k-th quadratic program is the one for these references"""
    ne = len(ep); J = jac(t, q, ne); c = t.com(q); v = [lm[i] + I.p_com_tracking * (com[i] - c[i]) for i in range(3)] + list(am)
    for e in range(ne): p = t.pos(2 + ne + e, q); v += [ev[e][i] + gain * (ep[e][i] - p[i]) for i in range(3)]
    v += list(jr); w = [I.w_lin_mom_tracking] * 3 + [I.w_ang_mom_tracking] * 3 + [z for x in con for z in [I.w_endeff_contact if x else I.w_endeff_tracking] * 3] + [I.w_joint_regularization] * t.nj
    if k >= len(QP): sx.check(False, label + ": one problem per step"); return
    G, a, C, b, meq, x = QP[k]; r = [w[m] * (dot(J[m], x) - v[m]) for m in range(len(v))]
    for m in range(t.nv): sx.eq(dot(G[m], x) - a[m], dot(J[:, m], r) + x[m] * num(Fr(1, 10 ** 6)), label + ": tracks the references of the step", 1e-5)
    if not flight: sx.check(C is None or C.size == 0, label + ": momentum is only constrained in flight"); return
    sx.check(C is not None and meq == 6 and C.shape == (t.nv, 6), label + ": momentum is constrained in flight")
    if C is None or C.shape != (t.nv, 6): return
    for i in range(6): l = dot(C[:, i], x) - b[i]; r = dot(J[i], x) - (list(lm) + list(am))[i]; sx.check((l - r == 0) | (l + r == 0), label + ": momentum is constrained in flight")


def stored(K, t, it, q, v, ne):
    """everything stored for a step is what the stored posture and velocity give"""
    h = t.hg(q, v); pos = [t.pos(2 + ne + e, q) for e in range(ne)]; vel = [t.Jw(2 + ne + e, q)[:3].dot(v) for e in range(ne)]; hp = [t.pos(2 + e, q) for e in range(ne)]; hv = [t.Jw(2 + e, q)[:3].dot(v) for e in range(ne)]; cat = lambda l: [x for y in l for x in y]
    sx.eqa(K.q_kin[it], q, "stored posture"); sx.eqa(K.dq_kin[it], v, "stored velocity"); sx.eqa(K.com_kin[it], t.com(q), "stored centre of mass"); sx.eqa(K.lmom_kin[it], h[:3], "stored linear momentum"); sx.eqa(K.amom_kin[it], h[3:], "stored angular momentum")
    m = K.motion_eff; sx.eqa(m["trajectory"][it], cat(pos), "stored foot position"); sx.eqa(m["velocity"][it], cat(vel), "stored foot velocity"); sx.eqa(m["trajectory_wrt_base"][it], [a - b for a, b in zip(cat(pos), cat(hp))], "stored foot position relative to the hip"); sx.eqa(m["velocity_wrt_base"][it], [a - b for a, b in zip(cat(vel), cat(hv))], "stored foot velocity relative to the hip")
    s = K.kinematics_sequence.kinematics_states[it]; sx.eqa(s.com, t.com(q), "sequence centre of mass"); sx.eqa(s.lmom, h[:3], "sequence linear momentum"); sx.eqa(s.amom, h[3:], "sequence angular momentum"); p, u = s.robot_posture, s.robot_velocity
    sx.eqa(p.base_position, q[:3], "sequence base position"); sx.eqa(p.base_orientation, q[3:7], "sequence base orientation"); sx.eqa(p.joint_positions, q[7:], "sequence joint positions"); sx.eqa(u.base_linear_velocity, v[:3], "sequence base velocity"); sx.eqa(u.base_angular_velocity, v[3:6], "sequence base angular velocity"); sx.eqa(u.joint_velocities, v[6:], "sequence joint velocities")


def follow(K, t, I, S, D, act, P, V, C, q, v, N, ne, dt, k0, label):
    lm = am = mf = None
    for it in range(N):
        d = D.dynamics_states[it]; fl = not any(act[it]); stored(K, t, it, q, v, ne)
        if fl: lm = [mf[0], mf[1], lm[2] - S.k["RobotWeight"] * dt]; am = mf[3:]
        else: e = log((mkq([num(0)] * 3 + [num(1)]) * mkq(list(q[3:7])).inverse()).matrix()); lm = list(d.lmom); am = [d.amom[i] + K.reg_orientation * e[i] for i in range(3)]; mf = list(t.hg(q, v))
        jr = [K.reg_joint_position * (K.q_init[7 + j] - q[7 + j]) for j in range(t.nj)]
        solved(k0 + it, t, I, q, d.com, lm, am, P[it], V[it], C[it], jr, I.p_endeff_tracking, fl, label)
        if k0 + it >= len(QP): return
        v = QP[k0 + it][5]; q = t.integrate(q, v * dt)
    sx.check(len(QP) == k0 + N, label + ": one problem per step")


def patterns(N, ne): return [[any_ for any_ in row] for row in ACT[sx.choose("contacts", range(len(ACT)))][:N]]
ACT = [[[1, 1]] * 4, [[1, 0], [0, 1], [1, 1], [0, 1]], [[1, 1], [0, 0], [0, 0], [0, 1]], [[0, 1], [0, 0], [1, 0], [0, 0]], [[1, 0], [1, 1], [0, 0], [1, 1]]]


def e_track():
    """first-order inverse kinematics along the plan, through flight phases"""
    N, ne, nj = sx.choose("N", [1, 3, 4]), 2, 2; act = patterns(N, ne); dt = sx.choose("dt", [0.125, 0.05]); gen, P, V, C = generator(N, ne, act); K, t, I, S = make(N, ne, nj, dt, gen, bend=N < 3); K.q_init = cfg(t.nq); K.dq_init = sx.arr([num(Fr(i - 2, 3)) for i in range(t.nv)]); q, v = K.q_init.copy(), K.dq_init.copy(); D = dyn(N, ne, act); del QP[:]; NEXT[:] = [sol(t.nv, k) for k in range(N)]
    keep = [s.lmom.copy() for s in D.dynamics_states]; K.optimize(None, None, D); follow(K, t, I, S, D, act, P, V, C, q, v, N, ne, dt, 0, "plan"); sx.eqa(K.q_init, q, "the initial posture is kept"); sx.eqa(K.dq_init, v, "the initial velocity is kept")
    for k in range(N): sx.eqa(D.dynamics_states[k].lmom, keep[k], "the plan is not changed"); sx.eqa(K.com_dyn[k], D.dynamics_states[k].com, "dynamics references"); sx.eqa(K.lmom_dyn[k], keep[k], "dynamics references"); sx.eqa(K.amom_dyn[k], D.dynamics_states[k].amom, "dynamics references")


def e_bend():
    """the same with Jacobians that change along the motion"""
    N, ne, nj = 3, 1, 1; act = sx.choose("contacts", [[[1], [1], [1]], [[1], [1], [0]], [[1], [0], [1]]]); dt = 0.125; gen, P, V, C = generator(N, ne, act); K, t, I, S = make(N, ne, nj, dt, gen); K.q_init = cfg(t.nq); K.dq_init = sx.arr([num(Fr(i - 2, 3)) for i in range(t.nv)]); q, v = K.q_init.copy(), K.dq_init.copy(); D = dyn(N, ne, act); del QP[:]; NEXT[:] = [sol(t.nv, k) for k in range(N)]; K.optimize(None, None, D); follow(K, t, I, S, D, act, P, V, C, q, v, N, ne, dt, 0, "moving Jacobians")


def e_twice():
    """a second plan is followed from the same initial posture with its own references"""
    N, ne, nj = 2, 1, 1; a = [sx.choose("first", [[[1], [1]], [[1], [0]]]), sx.choose("second", [[[1], [1]], [[1], [0]]])]; dt = 0.125; g = [generator(N, ne, a[0]), generator(N, ne, a[1], "'")]; turn = [0]; K, t, I, S = make(N, ne, nj, dt, lambda o: g[turn[0]][0](o)); K.q_init = cfg(t.nq); K.dq_init = cz(t.nv); q, v = K.q_init.copy(), K.dq_init.copy(); D = [dyn(N, ne, a[0]), dyn(N, ne, a[1], "'")]; del QP[:]; NEXT[:] = [sol(t.nv, k) for k in range(2 * N)]
    for k in range(2): turn[0] = k; K.optimize(None, None, D[k]); follow(K, t, I, S, D[k], a[k], g[k][1], g[k][2], g[k][3], q, v, N, ne, dt, k * N, "repeated plan")


def e_initial():
    """the initial posture solves for the initial centre of mass and foot positions, starting from the default joints"""
    ne, nj = 2, 2; m = sx.choose("iterations", [1, 2, 3]); gen, P, V, C = generator(1, ne, [[1, 1]]); joints = sx.vec("jd", nj, -3, 3); K, t, I, S = make(1, ne, nj, 0.125, gen, False, joints, m); ini = Obj(); ini.com = sx.vec("icom", 3, -3, 3); feet = [sx.vec("ifoot%d_" % e, 3, -3, 3) for e in range(ne)]; ini.effPosition = lambda e: feet[e]; D = dyn(1, ne, [[1, 1]]); del QP[:]
    conv = sx.choose("converges", [None, 0, 1]); NEXT[:] = [sx.arr([num(Fr(1, 10 ** 5))] * t.nv) if k == conv else sol(t.nv, k) + num(4) for k in range(m + 1)]; K.optimize(ini, None, D); n = m if conv is None or conv >= m else conv + 1
    q = sx.arr([num(0)] * 2 + [ini.com[2]] + [num(0)] * 3 + [num(1)] + list(joints)); z = [num(0)] * 3
    for k in range(n):
        e = log((mkq(z + [num(1)]) * mkq(list(q[3:7])).inverse()).matrix()) * num(Fr(1, 10)); solved(k, t, I, q, ini.com, z, e, feet, [z] * ne, [1, 1], [num(0)] * nj, num(1), False, "initial posture")
        if k >= len(QP): return
        q = t.integrate(q, QP[k][5])
    sx.check(len(QP) == n + 1, "the search stops when it has converged or at the iteration limit"); sx.eqa(K.q_init, q, "initial posture"); sx.eqa(K.dq_init, cz(t.nv), "the motion starts at rest"); stored(K, t, 0, q, cz(t.nv), ne)


def e_initial_size():
    """a configuration for another number of joints is refused"""
    n = sx.choose("n", [1, 2, 3]); gen, P, V, C = generator(1, 1, [[1]]); K, t, I, S = make(1, 1, 2, 0.125, gen, False, sx.vec("jd", n, -3, 3), 1); ini = Obj(); ini.com = sx.vec("icom", 3, -3, 3); ini.effPosition = lambda e: cz(3); threw = False
    try: K.optimize_initial_position(ini)
    except ValueError: threw = True
    sx.check(threw == (n != 2), "a wrong number of default joint positions is refused")


def e_second():
    """with second-order inverse kinematics its postures and velocities are stored, with what they give"""
    N, ne, nj = 2, 1, 1; act = [[1], [1]]; gen, P, V, C = generator(N, ne, act); K, t, I, S = make(N, ne, nj, 0.125, gen); K.q_init = cfg(t.nq); K.dq_init = cz(t.nv); K.use_second_order_inv_kin = True; D = dyn(N, ne, act); Q = [cfg(t.nq, "r%d_" % k) for k in range(N)]; W = [sol(t.nv, k) for k in range(N)]; got = []
    K.snd_order_inv_kin.solve = lambda *a: (got.append(a), (_np.array(Q), _np.array(W), None, None, None, None, None))[1]; K.optimize(None, None, D); sx.check(len(got) == 1, "one second-order solution")
    for k in range(N): stored(K, t, k, Q[k], W[k], ne)
    a = got[0]; sx.eq(a[0], 0.125, "time step"); sx.eqa(a[1], K.q_init, "initial posture is passed on"); sx.eqa(a[2], K.dq_init, "initial velocity is passed on")
    for k in range(N): sx.eqa(a[3][k], D.dynamics_states[k].com, "references are passed on"); sx.eqa(a[4][k], D.dynamics_states[k].lmom, "references are passed on"); sx.eqa(a[5][k], D.dynamics_states[k].amom, "references are passed on"); sx.eqa(a[6][k], P[k], "references are passed on"); sx.eqa(a[7][k], V[k], "references are passed on"); sx.eqa(a[9][k], K.q_init[7:], "joints are regularised to the initial posture"); sx.eqa(a[10][k], [0, 0, 0], "the base stays level")


def blend(a, b, u): return a + (b - a) * (10 * u ** 3 - 15 * u ** 4 + 6 * u ** 5)


def e_via():
    """via points shape the joint and base references"""
    N, ne, nj = 4, 1, 2; act = [[1]] * N; dt = 0.125; gen, P, V, C = generator(N, ne, act); K, t, I, S = make(N, ne, nj, dt, gen, False); K.q_init = cfg(t.nq); K.dq_init = cz(t.nv); D = dyn(N, ne, act); del QP[:]; NEXT[:] = [sol(t.nv, k) for k in range(N)]; what = sx.choose("what", ["joint", "base"]); m = sx.choose("vias", [1, 2]); n = nj if what == "joint" else 3
    steps = [2, 3][:m]; via = [[s * dt] + [sx.real("via%d_%d" % (k, j), -2, 2) for j in range(n)] for k, s in enumerate(steps)]
    if what == "joint": K.n_via_joint, K.via_joint = m, via
    else: K.n_via_base, K.via_base = m, via
    ini = list(K.q_init[7:]) if what == "joint" else [num(0)] * 3; K.optimize(None, None, D); T = [0] + steps + [N]; W = [ini] + [v[1:] for v in via] + [ini]
    def ref(it):
        k = 0
        while it > T[k + 1]: k += 1
        u = Fr(it - T[k], T[k + 1] - T[k]) if sx.MODE == "sym" else (it - T[k]) / (T[k + 1] - T[k]); return [blend(a, b, u) for a, b in zip(W[k], W[k + 1])]
    for it in range(N):
        sx.eqa((K.joint_des if what == "joint" else K.base_des)[:, it], ref(it), "the reference passes its via points", 1e-5)
        if what == "base": sx.eqa(K.joint_des[:, it], K.q_init[7:], "joints without via points keep the initial posture")
    q, v = K.q_init.copy(), cz(t.nv)
    for it in range(N):   # and the references are followed
        d = D.dynamics_states[it]; jd, bd = (K.joint_des[:, it], K.base_des[:, it]); g = Quaternion(rpyToMatrix(bd)); e = log((g * mkq(list(q[3:7])).inverse()).matrix()); am = [d.amom[i] + K.reg_orientation * e[i] for i in range(3)]
        solved(it, t, I, q, d.com, list(d.lmom), am, P[it], V[it], C[it], [K.reg_joint_position * (jd[j] - q[7 + j]) for j in range(nj)], I.p_endeff_tracking, False, "via points"); v = QP[it][5]; q = t.integrate(q, v * dt)
