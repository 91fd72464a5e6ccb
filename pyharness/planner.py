"""The planner that ties the optimizers together: settings handed on, alternation, what is returned and written."""
import pysx as sx
from fractions import Fraction as Fr


def num(x): return sx.const(x if sx.MODE == "sym" else float(x))


class Obj: pass
LOG = []; WORLD = Obj()


class Setting:
    """parameters are symbolic numbers, one per name"""
    def __init__(s): s.k = {}; s.file = None
    def initialize(s, f, *a): s.file = f; LOG.append(("setting", s, f) + a)
    def get(s, n):
        n = str(n); short = n.split("Param_")[1]
        if n not in s.k:
            if short == "ConfigFile": s.k[n] = s.file
            elif short == "UseSecondOrderInverseKinematics": s.k[n] = WORLD.second
            elif short == "KinDynIterations": s.k[n] = WORLD.iters
            else: s.k[n] = sx.real(short, -1000, 1000)
        return s.k[n]


class LqrSetting(Setting): pass


class Ini:
    def __init__(s): WORLD.ini = s
    def fillInitialRobotState(s, f): s.file = f


class Terrain:
    def loadFromFile(s, f): s.file = f; WORLD.terrain = s


class Contacts:
    def __init__(s): WORLD.contacts = s; s.seq = Obj()
    def initialize(s, p): s.setting = p; LOG.append(("contacts.initialize", p))
    def optimize(s, ini, terrain): LOG.append(("contacts.optimize", ini, terrain, getattr(ini, "file", None), getattr(terrain, "file", None)))
    def contactSequence(s): return s.seq


class State: pass


class DynOpt:
    def __init__(s): WORLD.dyn = s; s.n = 0; s.seq = s.make()
    def make(s):
        q = Obj(); q.dynamics_states = []
        for k in range(WORLD.steps): d = State(); d.dt = sx.real("dt%d_%d" % (s.n, k), 0.001, 1); q.dynamics_states.append(d)
        return q
    def initialize(s, p): LOG.append(("dyn.initialize", p))
    def optimize(s, ini, contacts, kin, use): LOG.append(("dyn", ini, contacts, kin, use, s.n)); s.n += 1; s.seq = s.make()
    def dynamicsSequence(s): return s.seq


class KinOpt:
    def __init__(s): WORLD.kin = s; s.inv_kin, s.snd_order_inv_kin, s.endeff_traj_generator = Obj(), Obj(), Obj(); s.kinematics_sequence = Obj(); s.motion_eff = Obj(); s.n = 0
    def initialize(s, p, *a, **k): LOG.append(("kin.initialize", p, k.get("RobotWrapper", a[-1] if a else None)))
    def optimize(s, ini, cs, dyn, plotting=False): LOG.append(("kin", ini, cs, dyn, s.n)); s.n += 1; s.kinematics_sequence = Obj(); s.motion_eff = Obj()


class Feedback:
    def __init__(s): WORLD.feedback = s
    def initialize(s, a, b): LOG.append(("feedback.initialize", a, b))
    def optimize(s, ini, dyn): LOG.append(("feedback", ini, dyn))


STUBS = dict(pymomentum=dict(PlannerSetting=Setting, DynamicsState=Ini, TerrainDescription=Terrain, ContactPlanFromFile=Contacts, DynamicsOptimizer=DynOpt, DynamicsFeedback=Feedback))
STUBS["pysolverlqr"] = sx.Stub("pysolverlqr", SolverLqrSetting=LqrSetting, __all__=["SolverLqrSetting"]); STUBS["pysolver"] = sx.Stub("pysolver", __all__=[])
STUBS["momentumopt.robots.blmc_robot_wrapper"] = sx.Stub("momentumopt.robots.blmc_robot_wrapper", QuadrupedWrapper="quadruped", Quadruped12Wrapper="solo12", BipedWrapper="bolt")
WRITTEN = []
L = sx.Loader(STUBS); mp = L.get("momentumopt.motion_planner"); kd = L.get("momentumopt.kino_dyn_planner")


def writer(name): return lambda *a: WRITTEN.append((name,) + a)
for _n in ("create_file", "create_qp_files", "create_lqr_files"): setattr(mp, _n, writer(_n))


def planner(lqr=False, robot="a robot"): del LOG[:]; del WRITTEN[:]; return mp.MotionPlanner("some.yaml", KinOpt, robot, lqr)
def world(second=False, iters=1, steps=2): WORLD.second, WORLD.iters, WORLD.steps = second, iters, steps
def calls(*names): return [c for c in LOG if c[0] in names]


FIRST = dict(inv_kin=dict(w_lin_mom_tracking="WeightLinMomentumTracking", w_ang_mom_tracking="WeightAngMomentumTracking", w_endeff_contact="WeightEndEffContact", w_endeff_tracking="WeightEndEffTracking", w_joint_regularization="WeightJointReg", p_endeff_tracking="PGainEndEffTracking", p_com_tracking="PGainComTracking"),
    endeff_traj_generator=dict(z_offset="SwingTrajViaZ"), opt=dict(reg_orientation="PGainOrientationTracking", reg_joint_position="PGainPositionTracking", n_via_joint="NumJointViapoints", via_joint="JointViapoints", n_via_base="NumBaseViapoints", via_base="BaseViapoints"))
SECOND = dict(snd_order_inv_kin=dict({k: v + "_Second" for k, v in FIRST["inv_kin"].items()}, d_endeff_tracking="DGainEndEffTracking_Second", p_orient_tracking="PGainBaseOrientationTracking_Second", d_orient_tracking="DGainBaseOrientationTracking_Second", p_joint_regularization="PGainJointRegularization_Second", d_joint_regularization="DGainJointRegularization_Second", p_mom_tracking="PGainMomentumTracking_Second"),
    endeff_traj_generator=dict(z_offset="SwingTrajViaZ_Second"), opt={k: v + "_Second" for k, v in FIRST["opt"].items() if "via" in k})


def e_settings():
    """every weight and gain of the configuration reaches the kinematic solver it belongs to"""
    second = sx.choose("second", [False, True]); world(second); P = planner(); K = P.kin_optimizer; P.init_from_settings(); vals = {}
    for n, v in P.planner_setting.k.items(): vals[n.split("Param_")[1]] = v
    sx.check(K.use_second_order_inv_kin is second, "the configured inverse kinematics is used")
    for part, m in (SECOND if second else FIRST).items():
        o = K if part == "opt" else getattr(K, part)
        for a, p in m.items():
            if not hasattr(o, a) or p not in vals: sx.check(False, p + " reaches " + part + "." + a)
            else: sx.eq(getattr(o, a), vals[p], p + " reaches " + part + "." + a)


def e_build():
    """what a planner is built from"""
    world(sx.choose("second", [False, True])); lqr = sx.choose("lqr", [False, True]); entry = sx.choose("entry", ["class", "build"])
    if entry == "class": P = planner(lqr, "R")
    else:
        del LOG[:]; kd.MomentumKinematicsOptimizer = KinOpt; P = kd.build_optimization("some.yaml", "R", lqr); o = P.kin_optimizer.endeff_traj_generator; sx.check(hasattr(o, "z_offset"), "a built planner has its settings")
    ps = P.planner_setting; sx.check(ps.file == "some.yaml" and ("setting", P.dynlqr_setting, "some.yaml", "solverlqr_dynamics") in LOG, "settings come from the given file"); sx.check(P.ini_state.file == "some.yaml", "the initial state comes from the given file"); sx.check(WORLD.terrain.file == "some.yaml", "the terrain comes from the configured file")
    sx.check([c[1] for c in calls("contacts.initialize", "dyn.initialize", "kin.initialize")] == [ps] * 3, "all parts are initialised with the same settings"); sx.check(calls("contacts.optimize") == [("contacts.optimize", P.ini_state, P.terrain_description, "some.yaml", "some.yaml")], "contacts are planned for the initial state and terrain"); sx.check(calls("kin.initialize")[0][2] == "R", "the given robot is used"); sx.check(P.with_lqr is lqr and P.dynamics_feedback is None, "feedback only on request")


def follow(P, n, lqr, r):
    """dynamics first without kinematics, then kinematics and dynamics in turn, each on the newest result of the other"""
    W = WORLD; c = calls("dyn", "kin", "feedback.initialize", "feedback"); seq = ["dyn"] + ["kin", "dyn"] * n + (["feedback.initialize", "feedback"] if lqr else []); sx.check([x[0] for x in c] == seq, "dynamics and kinematics alternate")
    if [x[0] for x in c] != seq: return
    sx.check(all(x[1] is P.ini_state for x in c if x[0] != "feedback.initialize"), "every step starts from the initial state"); d = [x for x in c if x[0] == "dyn"]; k = [x for x in c if x[0] == "kin"]
    sx.check(all(x[2] is P.contact_plan for x in d) and all(x[2] is P.contact_plan.seq for x in k), "every step uses the contact plan"); sx.check([x[4] is True for x in d] == [False] + [True] * n and d[0][4] is False, "the first dynamics ignores the kinematics, later ones track it")
    sx.check(all(x[3] is s for x, s in zip(d, SEQ["kin"])), "dynamics tracks the newest kinematics"); sx.check(all(x[3] is s for x, s in zip(k, SEQ["dyn"][1:])), "kinematics tracks the newest dynamics")
    D, K = P.dyn_optimizer, P.kin_optimizer; sx.check(r[0] is K.kinematics_sequence and r[1] is K.motion_eff and r[2] is D.seq and r[3] is P.dynamics_feedback and r[4] is P.planner_setting, "the last plans are returned")
    t = [num(0)]
    for s in D.seq.dynamics_states[:-1]: t.append(t[-1] + s.dt)
    sx.check(len(r[5]) == len(t), "one time per state"); sx.eqa(r[5], sx.arr(t), "times of the last plan"); sx.eqa(P.time_vector(), sx.arr(t), "times of the last plan")
    if lqr: sx.check(P.dynamics_feedback is W.feedback and c[-2][1] is P.dynlqr_setting and c[-2][2] is P.planner_setting and c[-1][2] is D.seq, "feedback is computed around the last plan")
    else: sx.check(P.dynamics_feedback is None, "feedback only on request")


SEQ = {}
def watch(P):
    """remember the plans in the order they appear"""
    D, K = P.dyn_optimizer, P.kin_optimizer; SEQ["kin"] = [K.kinematics_sequence]; SEQ["dyn"] = [D.seq]; a, b = D.optimize, K.optimize
    def dyn(*x, **k): a(*x, **k); SEQ["dyn"].append(D.seq)
    def kin(*x, **k): b(*x, **k); SEQ["kin"].append(K.kinematics_sequence)
    D.optimize, K.optimize = dyn, kin


def e_alternate():
    """a whole optimisation"""
    n = sx.choose("iterations", [0, 1, 2, 5]); lqr = sx.choose("lqr", [False, True]); N = sx.choose("steps", [1, 2, 4]); how = sx.choose("entry", ["method", "function"]); world(False, n, N); P = planner(lqr); watch(P); r = P.optimize_motion(False) if how == "method" else kd.optimize_motion(P); follow(P, n, lqr, r)


def e_files():
    """what is handed to the file writers"""
    lqr = sx.choose("lqr", [False, True]); world(False, sx.choose("iterations", [0, 1]), 3); P = planner(lqr); watch(P); P.optimize_motion(False); del WRITTEN[:]; P.save_files(); names = [w[0] for w in WRITTEN]; sx.check(names == ["create_file"] + (["create_lqr_files"] if lqr else []), "the files of the run are written"); P.save_qp_files(); sx.check([w[0] for w in WRITTEN] == names + ["create_qp_files"], "the files of the controllers are written")
    D, K = P.dyn_optimizer.seq, P.kin_optimizer; t = [num(0)]
    for s in D.dynamics_states[:-1]: t.append(t[-1] + s.dt)
    weight = P.planner_setting.get("PlannerDoubleParam_RobotWeight")
    for w in WRITTEN: sx.eqa(w[1], sx.arr(t), w[0] + ": times of the plan"); a = list(w[2:]); sx.check(a[:-1] == ([K.kinematics_sequence] if w[0] == "create_file" else [K.motion_eff, K.kinematics_sequence]) + [D, P.dynamics_feedback], w[0] + ": the last plans are written"); sx.eq(a[-1], weight, w[0] + ": robot weight")


def e_arguments():
    """command line: configuration file and robot"""
    import os; here = os.path.join(sx.REPO, "README.md"); robot = sx.choose("robot", ["", "--solo12", "--bolt"]); order = sx.choose("order", [0, 1]); short = sx.choose("short", ["-i", "--ifile"]); missing = sx.choose("missing", [False, True]); f = here + (".none" if missing else ""); a = [[short, f], [robot] if robot else []]; threw = False
    if order: a.reverse()
    try: r = kd.parse_arguments([x for y in a for x in y])
    except RuntimeError: threw = True
    sx.check(threw == missing, "a missing configuration file is refused")
    if not threw: sx.check(r[0] == f, "the given configuration file is used"); sx.check(r[1] == {"": "quadruped", "--solo12": "solo12", "--bolt": "bolt"}[robot], "the given robot is used")
