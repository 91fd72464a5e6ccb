// Iterative LQR: sequences, finite differences, forward and backward pass, control flow of the iterations.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <solver_lqr/SolverLqr.hpp>
#include <solver/interface/Model.hpp>
#undef private
#undef protected
using namespace solverlqr; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real(nm(p.c_str(), i).c_str()); return v; }
static V svin(const std::string& p, int n, double lo, double hi) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real_in(nm(p.c_str(), i).c_str(), lo, hi); return v; }
static M sm(const std::string& p, int r, int c) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sx_real(nm(p.c_str(), i, j).c_str()); return m; }
static void eqv(const V& a, const V& b, const char* l) { sx_assert(a.size() == b.size(), l); if (a.size() == b.size()) for (int i = 0; i < a.size(); i++) sx_eq(a[i], b[i], l); }
static void eqm(const M& a, const M& b, const char* l) { sx_assert(a.rows() == b.rows() && a.cols() == b.cols(), l); if (a.rows() == b.rows() && a.cols() == b.cols()) for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sx_eq(a(i, j), b(i, j), l); }
// ---- sequences
static ControlSequence rseq(const std::string& p, int t, int x, int u) { ControlSequence s(t, x, u); for (int i = 0; i < t; i++) { s.control(i).feedforward() = sv(p + "f" + std::to_string(i) + "_", u); s.control(i).feedback() = sm(p + "K" + std::to_string(i) + "_", u, x); } return s; }
static StateSequence rstate(const std::string& p, int t, int x) { StateSequence s(t, x); for (int i = 0; i < t; i++) s.state(i).stateVector() = sv(p + std::to_string(i) + "_", x); return s; }
static void eqs(const ControlSequence& a, const ControlSequence& b, const char* l) { sx_assert(a.size() == b.size(), l); for (int i = 0; i < a.size() && i < b.size(); i++) { eqv(a.control(i).feedforward(), b.control(i).feedforward(), l); eqm(a.control(i).feedback(), b.control(i).feedback(), l); } }
static void eqst(const StateSequence& a, const StateSequence& b, const char* l) { sx_assert(a.size() == b.size(), l); for (int i = 0; i < a.size() && i < b.size(); i++) eqv(a.state(i).stateVector(), b.state(i).stateVector(), l); }
extern "C" void e_sequences() {
  int T = sx_choose("T", 1, 2), x = sx_choose("x", 1, 2), u = sx_choose("u", 1, 2); ControlSequence a = rseq("a", T, x, u), b = rseq("b", T, x, u), a0 = a, b0 = b; double s = sx_real("s");
  ControlSequence want(T, x, u), ws(T, x, u); for (int i = 0; i < T; i++) { want.control(i).feedforward() = a0.control(i).feedforward() + s * b0.control(i).feedforward(); want.control(i).feedback() = b0.control(i).feedback(); ws.control(i).feedforward() = s * b0.control(i).feedforward(); ws.control(i).feedback() = b0.control(i).feedback(); }
  eqs(a + s * b, want, "sum adds the feedforward and takes the feedback of the update"); eqs(b * s, ws, "scaling leaves the feedback"); eqs(s * b, ws, "scaling leaves the feedback"); eqs(a, a0, "operands unchanged"); eqs(b, b0, "operands unchanged");
  ControlSequence c = a; c += s * b; eqs(c, want, "sum adds the feedforward and takes the feedback of the update"); ControlSequence d = b; d *= s; eqs(d, ws, "scaling leaves the feedback"); ControlSequence e(T + 1, x, u); e = a; eqs(e, a0, "assignment copies");
  ControlBase c1 = a.control(0) + b.control(0); eqv(c1.feedforward(), a0.control(0).feedforward() + b0.control(0).feedforward(), "one control"); eqm(c1.feedback(), b0.control(0).feedback(), "one control"); ControlBase c2 = s * a.control(0); eqv(c2.feedforward(), s * a0.control(0).feedforward(), "one control"); eqm(c2.feedback(), a0.control(0).feedback(), "one control");
  StateBase p(x), q(x); p.stateVector() = sv("p", x); q.stateVector() = sv("q", x); V pv = p.stateVector(), qv = q.stateVector(); eqv((p + q).stateVector(), pv + qv, "states add"); eqv((p - q).stateVector(), pv - qv, "states subtract"); eqv((s * p).stateVector(), s * pv, "states scale"); eqv((p * s).stateVector(), s * pv, "states scale"); eqv((p / 4.0).stateVector(), pv / 4.0, "states scale"); StateBase r = p; r += q; r *= s; r /= 2.0; eqv(r.stateVector(), (pv + qv) * s / 2.0, "in place"); eqv(p.stateVector(), pv, "operands unchanged");
  StateSequence ss(T, x); ss.resize(T + 1, x); sx_assert(ss.size() == T + 1, "resizing gives the requested length"); for (int i = 0; i < ss.size(); i++) eqv(ss.state(i).stateVector(), V::Zero(x), "resizing zeroes"); ControlSequence cs = a; cs.resize(T + 1, x, u); sx_assert(cs.size() == T + 1, "resizing gives the requested length"); eqs(cs, ControlSequence(T + 1, x, u), "resizing zeroes");
}
extern "C" void e_grad_norm() {   // mean over time of the largest relative feedforward change
  int T = sx_choose("T", 1, 2), u = sx_choose("u", 1, 2); ControlSequence a = rseq("a", T, 1, u), b = rseq("b", T, 1, u); double g = ControlSequence::controlSequenceGradientNorm(a, b), w = 0;
  for (int t = 0; t < T; t++) { double m = 0; for (int i = 0; i < u; i++) { double v = a.control(t).feedforward()[i]; if (sx_branch(v < 0)) v = -v; double d = b.control(t).feedforward()[i]; if (sx_branch(d < 0)) d = -d; v = v / (d + 1); if (i == 0 || sx_branch(v > m)) m = v; } w += m; }
  sx_eq(g, w / T, "gradient norm");
}
// ---- problem: polynomial dynamics and costs of degree two
struct Ocp : OcpBase {
  int nx, nu, T; std::vector<std::vector<V>> lin; std::vector<std::vector<M>> quad; V c1, cT; M c2, cT2; double c0 = 0, cT0 = 0; int objCalls = 0, configured = 0; bool cubicFree = true; bool useQuad = false; double finalU = 0; std::vector<int> times; int lastFinal = 0;
  void configure(const YAML::Node&) override { configured++; }
  StateBase dynamics(const StateBase& s, const ControlBase& u, int t) override { V z(nx + nu); z << s.stateVector(), u.feedforward(); StateBase n(nx); for (int i = 0; i < nx; i++) { double v = lin[t][i].dot(z) + lin[t][i].size() * 0.0; if (useQuad) v += z.dot(quad[t][i] * z); n.stateVector()[i] = v; } return n; }
  double objective(const StateBase& s, const ControlBase& u, int t, bool fin) override { V z(nx + nu); z << s.stateVector(), u.feedforward(); objCalls++; sx_assert(fin == (t == T), "only the last cost is terminal"); if (fin) return cT0 + cT.dot(z) + z.dot(cT2 * z); return c0 * (t + 1) + (t + 1) * c1.dot(z) + z.dot(c2 * z); }
};
struct World { SolverLqrSetting stg; Ocp o; };
static void mk(World& w, int T, int nx, int nu) {
  auto& s = w.stg; s.verbosity_ = 0; s.lqr_max_iters_ = 3; s.precision_digits_ = 5; s.time_dimension_ = T; s.state_dimension_ = nx; s.control_dimension_ = nu; s.time_step_ = 0.1; s.use_runge_kutta_integration_ = false; s.has_control_limits_ = false; s.divergence_limit_check_ = 1e8; s.store_data_ = false; s.cost_change_tolerance_ = 1e-3; s.control_gradient_tolerance_ = 1e-3; s.bpass_min_regularization_ = 1e-2; s.bpass_max_regularization_ = 1e4; s.bpass_initial_regularization_ = 1; s.bpass_mult_regularization_incr_ = 2; s.bpass_initial_mult_regularization_incr_ = 1; s.alpha_.resize(2); s.alpha_ << 1, 0.5;
  w.o.nx = nx; w.o.nu = nu; w.o.T = T; w.o.initialize(s); w.o.lin.assign(T, std::vector<V>(nx, V::Zero(nx + nu))); w.o.quad.assign(T, std::vector<M>(nx, M::Zero(nx + nu, nx + nu))); w.o.c1 = w.o.cT = V::Zero(nx + nu); w.o.c2 = w.o.cT2 = M::Zero(nx + nu, nx + nu);
}
static void symDyn(Ocp& o, bool quad) { o.useQuad = quad; for (int t = 0; t < o.T; t++) for (int i = 0; i < o.nx; i++) { std::string p = "d" + std::to_string(t) + std::to_string(i); o.lin[t][i] = sv(p, o.nx + o.nu); if (quad) o.quad[t][i] = sm(p + "q", o.nx + o.nu, o.nx + o.nu); } }
static void symCost(Ocp& o) { int n = o.nx + o.nu; o.c0 = sx_real("c0"); o.cT0 = sx_real("cT0"); o.c1 = sv("c1_", n); o.cT = sv("cT_", n); o.c2 = sm("c2_", n, n); o.cT2 = sm("cT2_", n, n); }
static void symTraj(Ocp& o) { o.stateSeq() = rstate("x", o.T + 1, o.nx); ControlSequence c = rseq("u", o.T, o.nx, o.nu); o.controlSeq() = c; }
static V stepOf(Ocp& o, const V& x, const V& u, int t) { StateBase s(o.nx); s.stateVector() = x; ControlBase c(o.nx, o.nu); c.feedforward() = u; return o.dynamics(s, c, t).stateVector(); }
extern "C" void e_integrate() {   // Euler, or the classical Runge-Kutta weights
  World w; bool rk = sx_choose("rk", 0, 1), q = sx_choose("quadratic", 0, 1); int nx = q && rk ? 1 : 2; mk(w, 2, nx, 1); w.stg.use_runge_kutta_integration_ = rk; symDyn(w.o, q); int t = sx_choose("t", 0, 1); V x = sv("x", nx), u = sv("u", 1); StateBase s(nx), n; s.stateVector() = x; ControlBase c(nx, 1); c.feedforward() = u; w.o.internal_dynamics(s, c, n, t);
  V k1 = stepOf(w.o, x, u, t), want = x + k1; if (rk) { V k2 = stepOf(w.o, x + k1 / 2, u, t), k3 = stepOf(w.o, x + k2 / 2, u, t), k4 = stepOf(w.o, x + k3, u, t); want = x + (k1 + 2 * k2 + 2 * k3 + k4) / 6; }
  for (int i = 0; i < nx; i++) { if (rk) { double d = n.stateVector()[i] - want[i], sc = 1; (void)sc; sx_eq_tol(n.stateVector()[i], want[i], 1e-9, "integration step"); } else sx_eq(n.stateVector()[i], want[i], "integration step"); } eqv(s.stateVector(), x, "arguments unchanged");
}
extern "C" void e_init() {   // initialise sets up zero sequences of the right length, also when repeated with another horizon
  World w; mk(w, 2, 2, 1); sx_assert(w.o.configured == 1, "configure is called"); int T2 = sx_choose("T2", 1, 3); symTraj(w.o); w.stg.time_dimension_ = T2; w.o.T = T2; w.o.initialize(w.stg); sx_assert(w.o.stateSeq().size() == T2 + 1 && w.o.controlSeq().size() == T2, "sequence lengths"); for (int i = 0; i < w.o.stateSeq().size(); i++) eqv(w.o.stateSeq().state(i).stateVector(), V::Zero(2), "zero start"); eqs(w.o.controlSeq(), ControlSequence(T2, 2, 1), "zero start");
  eqm(w.o.processNoiseFilter(0), M::Identity(2, 2), "default filters"); eqm(w.o.measurementNoiseFilter(0), M::Identity(2, 2), "default filters");
}
// ---- finite differences
static void checkDevs(Ocp& o, FiniteDifferences& f, const StateSequence& xs, const ControlSequence& us, bool second) {
  int nx = o.nx, nu = o.nu;
  for (int t = 0; t <= o.T; t++) { V z(nx + nu); V u = V::Zero(nu); if (t < o.T) u = us.control(t).feedforward(); z << xs.state(t).stateVector(), u; M Hs = (t == o.T ? o.cT2 : o.c2), H = Hs + Hs.transpose(); V g = (t == o.T ? o.cT : V(o.c1 * (t + 1))) + H * z;
    eqv(f.cx(t), g.head(nx), "cost gradient"); eqv(f.cu(t), g.tail(nu), "cost gradient"); eqm(f.cxx(t), H.topLeftCorner(nx, nx), "cost Hessian"); eqm(f.cxu(t), H.topRightCorner(nx, nu), "cost Hessian"); eqm(f.cuu(t), H.bottomRightCorner(nu, nu), "cost Hessian");
    if (t < o.T) for (int i = 0; i < nx; i++) { M D = o.useQuad ? M(o.quad[t][i] + o.quad[t][i].transpose()) : M(M::Zero(nx + nu, nx + nu)); V gi = o.lin[t][i] + D * z; gi[i] += 1; eqv(f.fx(t).row(i).transpose(), gi.head(nx), "dynamics Jacobian"); eqv(f.fu(t).row(i).transpose(), gi.tail(nu), "dynamics Jacobian");
      if (second) { for (int a = 0; a < nx; a++) for (int b = 0; b < nx; b++) sx_eq(f.fxx(t)[a](i, b), D(a, b), "dynamics Hessian"); for (int a = 0; a < nu; a++) for (int b = 0; b < nx; b++) sx_eq(f.fxu(t)[a](i, b), D(nx + a, b), "dynamics Hessian"); for (int a = 0; a < nu; a++) for (int b = 0; b < nu; b++) sx_eq(f.fuu(t)[a](i, b), D(nx + a, nx + b), "dynamics Hessian"); } } }
  eqst(o.stateSeq(), xs, "nominal trajectory unchanged"); eqs(o.controlSeq(), us, "nominal trajectory unchanged");
}
extern "C" void e_derivatives() {
  int k = sx_choose("sizes", 0, 3); int nx = k == 0 ? 1 : 2, nu = k == 2 ? 1 : k == 3 ? 2 : 1, T = k == 1 ? 1 : k == 0 ? 2 : 1; if (k == 1) { nx = 1; nu = 2; } World w; mk(w, T, nx, nu); symDyn(w.o, true); symCost(w.o); symTraj(w.o); StateSequence xs = w.o.stateSeq(); ControlSequence us = w.o.controlSeq(); bool second = nu <= nx && sx_choose("second", 0, 1);
  FiniteDifferences f; f.initialize(&w.o, true, true, true, second); f.computeDerivatives(); checkDevs(w.o, f, xs, us, second);
}
extern "C" void e_derivatives_reuse() {   // the same object for another problem
  World a, b; mk(a, 1, 1, 1); mk(b, 2, 2, 1); FiniteDifferences f; f.initialize(&a.o, true, true, true, false); f.computeDerivatives(); symDyn(b.o, true); symCost(b.o); symTraj(b.o); StateSequence xs = b.o.stateSeq(); ControlSequence us = b.o.controlSeq(); f.initialize(&b.o, true, true, true, true); sx_assert(f.getOcpDescription() == &b.o, "works on the problem it was given"); if (f.getOcpDescription() != &b.o) return; f.computeDerivatives(); checkDevs(b.o, f, xs, us, true);
}
extern "C" void e_derivatives_select() {   // only what was requested is computed
  World w; mk(w, 1, 1, 1); symDyn(w.o, true); symCost(w.o); symTraj(w.o); int m = sx_choose("mask", 0, 15); FiniteDifferences f; f.initialize(&w.o, m & 1, m & 2, m & 4, m & 8); f.computeDerivatives(); V z(2); z << w.o.stateSeq().state(0).stateVector(), w.o.controlSeq().control(0).feedforward(); M H = w.o.c2 + w.o.c2.transpose(), D = w.o.quad[0][0] + w.o.quad[0][0].transpose(); V g = w.o.c1 + H * z, d = w.o.lin[0][0] + D * z;
  sx_eq(f.cx(0)[0], m & 1 ? g[0] : 0, "selection"); sx_eq(f.cu(0)[0], m & 1 ? g[1] : 0, "selection"); sx_eq(f.fx(0)(0, 0), m & 2 ? d[0] + 1 : 0, "selection"); sx_eq(f.fu(0)(0, 0), m & 2 ? d[1] : 0, "selection"); sx_eq(f.cxx(0)(0, 0), m & 4 ? H(0, 0) : 0, "selection"); sx_eq(f.cuu(0)(0, 0), m & 4 ? H(1, 1) : 0, "selection"); sx_eq(f.fxx(0)[0](0, 0), m & 8 ? D(0, 0) : 0, "selection"); sx_eq(f.fxu(0)[0](0, 0), m & 8 ? D(0, 1) : 0, "selection"); sx_eq(f.fuu(0)[0](0, 0), m & 8 ? D(1, 1) : 0, "selection");
}
// ---- forward pass
static bool stubF, stubB, stubD, stubM; struct Call { StateSequence x; ControlSequence u; double cost; bool div; }; static std::vector<Call> calls; static std::vector<double> lambdas; static int nDeriv, nOpt; static Ocp* cur; static std::vector<int> trace;
static void wrapF(ForwardPass*, const StateSequence&, const ControlSequence&); static void wrapB(BackwardPass*, double);
#define AC _ZN9solverlqr11ForwardPass15applyControllerERKNS_13StateSequenceERKNS_15ControlSequenceE
#define OC _ZN9solverlqr12BackwardPass18optimizeControllerERKNS_11ForwardPassERKNS_17FiniteDifferencesEd
#define CD _ZN9solverlqr17FiniteDifferences18computeDerivativesEv
#define MO _ZN6solver5Model8optimizeEv
#define CC2(a, b) a##b
#define CC(a, b) CC2(a, b)
extern "C" {
void CC(__real_, AC)(ForwardPass*, const StateSequence&, const ControlSequence&); void CC(__real_, OC)(BackwardPass*, const ForwardPass&, const FiniteDifferences&, double); void CC(__real_, CD)(FiniteDifferences*); solver::ExitCode CC(__real_, MO)(solver::Model*);
void CC(__wrap_, AC)(ForwardPass* f, const StateSequence& x, const ControlSequence& u) { if (stubF) wrapF(f, x, u); else CC(__real_, AC)(f, x, u); }
void CC(__wrap_, OC)(BackwardPass* b, const ForwardPass& f, const FiniteDifferences& d, double l) { if (stubB) wrapB(b, l); else CC(__real_, OC)(b, f, d, l); }
void CC(__wrap_, CD)(FiniteDifferences* d) { if (stubD) { nDeriv++; trace.push_back(1); } else CC(__real_, CD)(d); }
solver::ExitCode CC(__wrap_, MO)(solver::Model* m);
}
extern "C" void e_forward() {
  int k = sx_choose("case", 0, 2); World w; int nx = k == 1 ? 2 : 1, nu = k == 2 ? 2 : 1, T = k == 0 ? 2 : 1; mk(w, T, nx, nu); bool lim = sx_choose("limits", 0, 1); w.stg.has_control_limits_ = lim; V lo = V::Zero(nu), hi = V::Zero(nu); if (lim) { lo = sv("lo", nu); hi = sv("hi", nu); for (int i = 0; i < nu; i++) sx_assume(lo[i] <= hi[i]); w.stg.min_control_limits_ = lo; w.stg.max_control_limits_ = hi; } symDyn(w.o, false); symCost(w.o);
  double D = sx_real_in("D", 0.001, 1e9); w.stg.divergence_limit_check_ = D; StateSequence xs = rstate("x", T + 1, nx), xs0 = xs; ControlSequence us = rseq("u", T, nx, nu), us0 = us; symTraj(w.o); StateSequence ox = w.o.stateSeq(); ControlSequence ou = w.o.controlSeq(); ForwardPass f; f.initialize(&w.o, w.stg); f.applyController(xs, us); w.o.objCalls = 0;
  V x = xs0.state(0).stateVector(); double total = 0; bool div = false; sx_assert(f.stateSeq().size() == T + 1 && f.controlSeq().size() == T, "sequence lengths");
  for (int t = 0; t < T; t++) {
    V u = us0.control(t).feedforward() + us0.control(t).feedback() * (x - xs0.state(t).stateVector()); if (lim) for (int i = 0; i < nu; i++) { if (sx_branch(u[i] > hi[i])) u[i] = hi[i]; if (sx_branch(u[i] < lo[i])) u[i] = lo[i]; }
    eqv(f.stateSeq().state(t).stateVector(), x, "states follow the dynamics"); eqv(f.controlSeq().control(t).feedforward(), u, "control law with limits"); eqm(f.controlSeq().control(t).feedback(), us0.control(t).feedback(), "feedback kept"); StateBase s(nx); s.stateVector() = x; ControlBase c(nx, nu); c.feedforward() = u; double J = w.o.objective(s, c, t, false); sx_eq(f.timestepCost(t), J, "cost per step"); total += J; x = x + w.o.dynamics(s, c, t).stateVector(); for (int i = 0; i < nx; i++) if (sx_branch(sx_or(x[i] > D, x[i] < -D))) div = true;
  }
  eqv(f.stateSeq().state(T).stateVector(), x, "states follow the dynamics"); StateBase s(nx); s.stateVector() = x; double J = w.o.objective(s, ControlBase(nx, nu), T, true); sx_eq(f.timestepCost(T), J, "cost per step"); sx_eq(f.newCost(), total + J, "total cost"); sx_assert(f.hasDiverged() == div, "diverged iff a state exceeds the limit");
  eqst(xs, xs0, "nominal sequences unchanged"); eqs(us, us0, "nominal sequences unchanged"); eqst(w.o.stateSeq(), ox, "problem's own trajectory unchanged"); eqs(w.o.controlSeq(), ou, "problem's own trajectory unchanged");
}
// ---- backward pass
static void solverFile() {
  YAML::Node n = YAML::file("default_solver_env.yaml")["solver_variables"]; for (const char* k : {"BnB_verbose", "verbose"}) n[k] = false; n["BnB_max_iterations"] = 10; n["equil_iterations"] = 3; n["num_iter_ref_lin_solve"] = 9; n["max_iters"] = 100; n["ipsolver_max_iters"] = 100; n["ipsolver_warm_iters"] = 0; n["num_itrefs_trustregion"] = 0;
  const char* kd[] = {"BnB_integer_tolerance", "BnB_absolute_suboptimality_gap", "BnB_relative_suboptimality_gap", "feasibility_tolerance", "feasibility_tolerance_inaccurate", "absolute_suboptimality_gap", "relative_suboptimality_gap", "absolute_suboptimality_gap_inaccurate", "relative_suboptimality_gap_inaccurate", "dyn_reg_thresh", "lin_sys_accuracy", "err_reduction_factor", "static_regularization", "dynamic_regularization", "safeguard", "min_step_length", "max_step_length", "min_centering_step", "max_centering_step", "step_length_scaling", "trust_region_threshold", "soft_constraint_weight_full", "soft_constraint_weight_reduced"}; double vd[] = {1e-4, 1e-3, 1e-6, 1e-8, 1e-4, 1e-8, 1e-8, 5e-5, 5e-5, 1e-13, 1e-14, 6, 7e-8, 2e-7, 500, 1e-6, 0.999, 1e-4, 1, 0.99, 0.001, 1e4, 1e4}; for (int i = 0; i < 23; i++) n[kd[i]] = vd[i];
}
struct Lq { int T, nx, nu; std::vector<M> Q, R, P, A, B; std::vector<V> q, r; std::vector<double> c; };
static void fill(World& w, ForwardPass& f, FiniteDifferences& d, Lq& l) {
  f.initialize(&w.o, w.stg); d.initialize(&w.o, true, true, true, false); f.timestep_cost_.resize(l.T + 1); for (int t = 0; t <= l.T; t++) { f.timestep_cost_[t] = l.c[t]; d.cx(t) = l.q[t]; d.cxx(t) = l.Q[t]; if (t < l.T) { d.cu(t) = l.r[t]; d.cuu(t) = l.R[t]; d.cxu(t) = l.P[t].transpose(); d.fx(t) = l.A[t]; d.fu(t) = l.B[t]; } }
}
static Lq symLq(int T, int nx, int nu) {
  Lq l; l.T = T; l.nx = nx; l.nu = nu; for (int t = 0; t <= T; t++) { std::string s = std::to_string(t) + "_"; M Q = sm("Q" + s, nx, nx); for (int i = 0; i < nx; i++) for (int j = 0; j < i; j++) Q(i, j) = Q(j, i); l.Q.push_back(Q); l.q.push_back(sv("q" + s, nx)); l.c.push_back(sx_real(("c" + s).c_str())); if (t < T) { M R = sm("R" + s, nu, nu); for (int i = 0; i < nu; i++) for (int j = 0; j < i; j++) R(i, j) = R(j, i); l.R.push_back(R); l.P.push_back(sm("P" + s, nu, nx)); l.A.push_back(sm("A" + s, nx, nx)); l.B.push_back(sm("B" + s, nx, nu)); l.r.push_back(sv("r" + s, nu)); } } return l;
}
// value function after applying the returned law; every quantity recomputed from the returned gains by definition
static void checkBack(BackwardPass& b, Lq& l, double lam, bool optimal) {
  for (int t = l.T - 1; t >= 0; t--) {
    M S = b.Vxx_[t + 1]; V s = b.Vx_[t + 1]; V k = b.controlSeq().control(t).feedforward(); M K = b.controlSeq().control(t).feedback(); M H = l.R[t] + l.B[t].transpose() * S * l.B[t] + lam * M::Identity(l.nu, l.nu), G = l.P[t] + l.B[t].transpose() * S * l.A[t]; V g = l.r[t] + l.B[t].transpose() * s;
    if (optimal) { eqv(H * k, -g, "feedforward minimises the quadratic model"); eqm(H * K, -G, "feedback minimises the quadratic model"); }
    sx_eq(b.V_[t], l.c[t] + b.V_[t + 1] + 0.5 * k.dot(g), "value at the optimum"); eqv(b.Vx_[t], l.q[t] + l.A[t].transpose() * s + G.transpose() * k, "value gradient"); M X = l.Q[t] + l.A[t].transpose() * S * l.A[t] + G.transpose() * K; eqm(b.Vxx_[t], X, "value Hessian");
  }
}
extern "C" void e_backward1() {   // scalar problem, arbitrary data
  solverFile(); int T = sx_choose("T", 1, 2), nx = T == 1 ? sx_choose("nx", 1, 2) : 1; World w; mk(w, T, nx, 1); ForwardPass f; FiniteDifferences d; BackwardPass b; b.initialize(&w.o, w.stg); Lq l = symLq(T, nx, 1); double lam = sx_real_in("lam", 0, 100); fill(w, f, d, l); symTraj(w.o); ControlSequence ou = w.o.controlSeq(); b.optimizeController(f, d, lam);
  M S = l.Q[T]; double H = l.R[T - 1](0, 0) + (l.B[T - 1].transpose() * S * l.B[T - 1])(0, 0) + lam; bool bad = sx_branch(H <= 0);
  if (bad) { sx_assert(b.hasDiverged() && b.divergeIteration() == T - 1, "an indefinite Hessian is reported"); return; }
  if (T == 2) { double s1 = b.Vxx_[1](0, 0), H0 = l.R[0](0, 0) + l.B[0](0, 0) * s1 * l.B[0](0, 0) + lam; if (sx_branch(H0 <= 0)) { sx_assert(b.hasDiverged() && b.divergeIteration() == 0, "an indefinite Hessian is reported"); return; } }
  sx_assert(!b.hasDiverged(), "positive Hessians succeed"); if (b.hasDiverged()) return; sx_eq(b.V_[T], l.c[T], "terminal value"); eqv(b.Vx_[T], l.q[T], "terminal value"); eqm(b.Vxx_[T], l.Q[T], "terminal value"); checkBack(b, l, lam, true); eqs(w.o.controlSeq(), ou, "nominal controls unchanged");
}
static M m2(double a, double b, double c, double d) { M m(2, 2); m << a, b, c, d; return m; }
extern "C" void e_backward2() {   // two controls: a fixed positive definite Hessian at the last step, everything else arbitrary
  solverFile(); int k = sx_choose("case", 0, 2); World w; mk(w, 1, 2, 2); ForwardPass f; FiniteDifferences d; BackwardPass b; b.initialize(&w.o, w.stg); Lq l = symLq(1, 2, 2); double lam = k == 1 ? 3 : 0; l.B[0] = k == 2 ? m2(0, 0, 0, 0) : m2(1, 2, 0, 1); l.Q[1] = m2(1, 0, 0, 2); M H = k == 0 ? m2(4, 2, 2, 5) : k == 1 ? m2(4, -2, -2, 17) : m2(1, 2, 2, 5); l.R[0] = H - l.B[0].transpose() * l.Q[1] * l.B[0] - lam * M::Identity(2, 2); fill(w, f, d, l); b.optimizeController(f, d, lam); sx_assert(!b.hasDiverged(), "positive definite Hessians succeed"); if (!b.hasDiverged()) checkBack(b, l, lam, true);
}
extern "C" void e_backward_indef() {   // indefinite 2x2 Hessians, concrete diagonal first entry, arbitrary rest
  solverFile(); World w; mk(w, 1, 1, 2); ForwardPass f; FiniteDifferences d; BackwardPass b; b.initialize(&w.o, w.stg); Lq l = symLq(1, 1, 2); double lam = sx_real_in("lam", 0, 10); l.R[0](0, 0) = 4 - lam; l.Q[1](0, 0) = 0; fill(w, f, d, l); b.optimizeController(f, d, lam); double a = l.R[0](0, 1), e = l.R[0](1, 1) + lam; bool pd = sx_branch(4 * e - a * a > 0); sx_assert(b.hasDiverged() == !pd, "diverged iff the Hessian is not positive definite"); sx_assert(pd || b.divergeIteration() == 0, "step of the failure"); if (pd && !b.hasDiverged()) checkBack(b, l, lam, true);
}
extern "C" void e_backward_retry() {   // after a failure, a larger regularisation starts over; re-initialisation for another problem
  solverFile(); World w; mk(w, 2, 1, 1); ForwardPass f; FiniteDifferences d; BackwardPass b; int again = sx_choose("reuse", 0, 1); if (again) { World* v = new World; mk(*v, 1, 2, 2); b.initialize(&v->o, v->stg); } b.initialize(&w.o, w.stg); Lq l = symLq(2, 1, 1); l.R[0](0, 0) = -1; l.B[0](0, 0) = 0; l.R[1](0, 0) = 11; l.B[1](0, 0) = 0; fill(w, f, d, l); b.optimizeController(f, d, 0.5); sx_assert(b.hasDiverged() && b.divergeIteration() == 0, "an indefinite Hessian is reported"); b.optimizeController(f, d, 5.0); sx_assert(!b.hasDiverged() && b.divergeIteration() == -1, "a larger regularisation succeeds"); if (!b.hasDiverged()) checkBack(b, l, 5.0, true); sx_assert(b.Vx_.size() == 3u && b.Vxx_.size() == 3u && b.controlSeq().size() == 2, "sizes of the problem");
}
// ---- control limits: the model handed to the conic solver
static V modelX; static BackwardPass* curB; static V lexp, gexp; static M hexp; static V unom, ulo, uhi; static int modelCalls;
solver::ExitCode CC(__wrap_, MO)(solver::Model* m) {
  if (!stubM) return CC(__real_, MO)(m);
  modelCalls++; int nu = gexp.size(); V v = sv("v", nu); for (int i = 0; i < nu; i++) curB->vars_[i].set(solver::SolverDoubleParam_X, v[i]);
  auto& o = m->conic_problem_.objective_; double val = 0; for (size_t i = 0; i < o.qexpr_.size(); i++) { double e = o.qexpr_[i].getValue(); val += o.coeffs_[i] * e * e; } val += o.lexpr_.getValue(); V z = V::Zero(nu); for (int i = 0; i < nu; i++) curB->vars_[i].set(solver::SolverDoubleParam_X, 0.0); double val0 = o.lexpr_.getValue(); for (size_t i = 0; i < o.qexpr_.size(); i++) { double e = o.qexpr_[i].getValue(); val0 += o.coeffs_[i] * e * e; }
  sx_eq(val - val0, 0.5 * v.dot(hexp * v) + gexp.dot(v), "the model minimises the quadratic approximation of the cost-to-go");
  for (int i = 0; i < nu; i++) curB->vars_[i].set(solver::SolverDoubleParam_X, v[i]);
  int nle = m->conic_problem_.leqcons_.size(); (void)nle; bool in = true, want = true; for (auto& c : m->conic_problem_.lineqcons_) in = sx_and(in, c.getValue() <= 0); for (auto& c : m->conic_problem_.leqcons_) in = sx_and(in, c.getValue() == 0); for (int i = 0; i < nu; i++) want = sx_and(want, sx_and(unom[i] + v[i] >= ulo[i], unom[i] + v[i] <= uhi[i])); sx_assert(in == want, "the model restricts the control to its limits"); sx_assume(want); modelX = v;
  for (int i = 0; i < nu; i++) curB->vars_[i].set(solver::SolverDoubleParam_X, v[i]); return solver::ExitCode::Optimal;
}
extern "C" void e_limits() {
  solverFile(); int nu = sx_choose("nu", 1, 2); World w; mk(w, 1, 1, nu); w.stg.has_control_limits_ = true; ulo = sv("lo", nu); uhi = sv("hi", nu); for (int i = 0; i < nu; i++) sx_assume(ulo[i] < uhi[i]); w.stg.min_control_limits_ = ulo; w.stg.max_control_limits_ = uhi; ForwardPass f; FiniteDifferences d; BackwardPass b; b.initialize(&w.o, w.stg); curB = &b; Lq l = symLq(1, 1, nu); l.Q[1](0, 0) = 2; if (nu == 1) { l.R[0](0, 0) = 4; l.B[0](0, 0) = 0; } else { l.R[0] = m2(4, 2, 2, 5); l.B[0].setZero(); } fill(w, f, d, l); symTraj(w.o); unom = w.o.controlSeq().control(0).feedforward(); hexp = l.R[0]; gexp = l.r[0] + l.B[0].transpose() * l.q[1]; M G = l.P[0] + l.B[0].transpose() * l.Q[1] * l.A[0]; stubM = true; modelCalls = 0; b.optimizeController(f, d, 0.0); stubM = false; sx_assert(modelCalls == 1 && !b.hasDiverged(), "one constrained solve per step"); if (!modelCalls) return;
  eqv(b.controlSeq().control(0).feedforward(), modelX, "the constrained step is used"); V Kf = V::Zero(nu); for (int i = 0; i < nu; i++) { double u = unom[i] + modelX[i]; bool at = sx_branch(sx_or(u >= uhi[i] - 0.01, u <= ulo[i] + 0.01)); double k = b.controlSeq().control(0).feedback()(i, 0); if (at) sx_eq(k, 0, "no feedback for a control at its limit"); else { M K(nu, 1); if (nu == 1) K(0, 0) = -G(0, 0) / 4; else { K(0, 0) = -(5 * G(0, 0) - 2 * G(1, 0)) / 16; K(1, 0) = -(-2 * G(0, 0) + 4 * G(1, 0)) / 16; } sx_eq(k, K(i, 0), "feedback of free controls"); } }
}
// ---- control flow
static double repC; static bool anyAcc;
static void wrapF(ForwardPass* f, const StateSequence& x, const ControlSequence& u) {
  Call c; c.x = x; c.u = u; int k = calls.size(); c.cost = sx_real_in(nm("cost", k).c_str(), -1e6, 1e6); c.div = sx_choose(nm("div", k).c_str(), 0, 1); f->new_cost_ = c.cost; f->has_diverged_ = c.div; f->new_state_seq_ = x; f->new_control_seq_ = u; for (int t = 0; t < x.size(); t++) f->new_state_seq_.state(t).stateVector()[0] = 100.0 * (k + 1) + t; for (int t = 0; t < u.size(); t++) f->new_control_seq_.control(t).feedforward()[0] = 1000.0 * (k + 1) + t; calls.push_back(c); trace.push_back(3);
}
static int nB; static int bdivs[64], smalls[64];
static void wrapB(BackwardPass* b, double l) { lambdas.push_back(l); trace.push_back(2); int k = nB++; b->diverge_flag_ = bdivs[k] = sx_choose(nm("bdiv", k).c_str(), 0, 1); smalls[k] = b->diverge_flag_ ? 0 : sx_choose(nm("small", k).c_str(), 0, 1); b->diverge_iteration_ = b->diverge_flag_ ? 0 : -1; if (!b->diverge_flag_) for (int t = 0; t < b->control_seq_.size(); t++) { b->control_seq_.control(t).feedforward()[0] = smalls[k] ? 0.0 : 5.0e5 + t; b->control_seq_.control(t).feedback()(0, 0) = 7.0 + k; } }
static void flow(int iters, int coeffs, double maxReg) {
  solverFile(); World w; mk(w, 1, 1, 1); w.stg.lqr_max_iters_ = iters; w.stg.alpha_.resize(coeffs); for (int i = 0; i < coeffs; i++) w.stg.alpha_[i] = i == 0 ? 1 : 0.5; double incr = w.stg.bpass_mult_regularization_incr_, tol = sx_real_in("tol", 0.001, 10); w.stg.cost_change_tolerance_ = tol; w.stg.bpass_max_regularization_ = maxReg; symTraj(w.o); StateSequence x0 = w.o.stateSeq(); ControlSequence u0 = w.o.controlSeq();
  SolverLqr s; s.initialize(&w.o, w.stg); stubF = stubB = stubD = true; calls.clear(); lambdas.clear(); trace.clear(); nDeriv = nB = 0; s.optimize(); stubF = stubB = stubD = false;
  // replay of the trace
  size_t c = 0; int acc = -1; for (int i = 0; i < coeffs && c < calls.size(); i++, c++) { eqst(calls[c].x, x0, "initial rollout from the given states"); sx_eq(calls[c].u.control(0).feedforward()[0], w.stg.alpha_[i] * u0.control(0).feedforward()[0], "initial rollout with scaled controls"); if (!calls[c].div) { acc = c; c++; break; } }
  auto stateIs = [&](int k) { if (k < 0) { eqst(w.o.stateSeq(), x0, "trajectory is that of the last accepted step"); eqs(w.o.controlSeq(), u0, "trajectory is that of the last accepted step"); } else { sx_eq(w.o.stateSeq().state(0).stateVector()[0], 100.0 * (k + 1), "trajectory is that of the last accepted step"); sx_eq(w.o.stateSeq().state(1).stateVector()[0], 100.0 * (k + 1) + 1, "trajectory is that of the last accepted step"); sx_eq(w.o.controlSeq().control(0).feedforward()[0], 1000.0 * (k + 1), "trajectory is that of the last accepted step"); } };
  if (acc < 0) { sx_assert(c == (size_t)coeffs && c == calls.size() && nDeriv == 0 && lambdas.empty() && !s.converged_, "stops when no rollout stays bounded"); stateIs(-1); return; }
  double cost = calls[acc].cost, lam = w.stg.bpass_initial_regularization_, mult = w.stg.bpass_initial_mult_regularization_incr_; size_t bi = 0; int der = 0; bool need = true, done = false; std::vector<int> tr; for (size_t i = 0; i < c; i++) tr.push_back(3); int it = 0; bool updated = false; double curCtl = 1000.0 * (acc + 1), upd = 0; int fbk = 0;
  auto grow = [&]() { mult = mult * incr > incr ? mult * incr : incr; lam = lam * mult > w.stg.bpass_min_regularization_ ? lam * mult : w.stg.bpass_min_regularization_; };
  for (it = 0; it < iters && !done; it++) {
    if (need) { der++; need = false; tr.push_back(1); } bool bp = false; 
    while (!bp) { sx_assert(bi < lambdas.size(), "the backward pass is tried"); if (bi >= lambdas.size()) return; sx_eq(lambdas[bi], lam, "regularisation schedule"); tr.push_back(2); int dv = bdivs[bi]; if (!dv) { bp = true; upd = smalls[bi] ? 0.0 : 5.0e5; fbk = bi; updated = true; } bi++; if (dv) { grow(); if (lam > maxReg) break; } }
    double grad = upd / (curCtl + 1); if (bp || updated) { if (grad < w.stg.control_gradient_tolerance_) { done = true; break; } } else { done = true; break; }   // nothing to apply
    bool ok = false; double al = 1; if (bp) for (int i = 0; i < coeffs; i++) { sx_assert(c < calls.size(), "line search tries the step"); if (c >= calls.size()) return; tr.push_back(3); al = w.stg.alpha_[i]; sx_eq(calls[c].u.control(0).feedforward()[0], curCtl + al * upd, "line search applies the scaled update"); sx_eq(calls[c].u.control(0).feedback()(0, 0), 7.0 + fbk, "line search applies the scaled update"); if (acc >= 0) sx_eq(calls[c].x.state(0).stateVector()[0], 100.0 * (acc + 1), "line search starts from the accepted trajectory"); bool better = !calls[c].div && sx_branch(calls[c].cost < cost); c++; if (better) { ok = true; break; } }
    if (ok) { double ch = cost - calls[c - 1].cost; acc = c - 1; cost = calls[acc].cost; need = true; curCtl = 1000.0 * (acc + 1); if (coeffs == 1 || al < 1) { if (coeffs > 1 && al < 1) {} } if (coeffs > 1 && al > w.stg.alpha_.minCoeff()) { mult = mult / incr < 1 / incr ? mult / incr : 1 / incr; lam = lam > w.stg.bpass_min_regularization_ ? lam * mult : 0; } if (sx_branch(ch < tol)) { done = true; break; } }
    else { grow(); if (lam > maxReg) { done = true; break; } }
  }
  sx_assert(c == calls.size() && bi == lambdas.size() && nDeriv == der, "no further passes"); sx_assert(tr == trace, "order of the passes"); stateIs(acc); sx_eq(s.getLqrInfo().get(SolverLqrDoubleParam_Cost), cost, "reported cost is that of the trajectory"); sx_assert(s.getLqrInfo().get(SolverLqrIntParam_CurrentIteration) <= iters, "iteration limit"); sx_assert(s.converged_, "not reported as diverged");
}
extern "C" void e_flow1() { flow(2, 1, 4.0); }
extern "C" void e_flow2() { flow(1, 2, 8.0); }
extern "C" void e_flow3() { flow(3, 1, 2.5); }
extern "C" void e_flow_deep() { flow(3, 2, 20.0); }
// ---- settings and files
extern "C" void e_setting() {
  YAML::Node n = YAML::file("cfg_a.yaml")["vars"]; const char* ki[] = {"verbosity", "lqr_max_iters", "decimal_digits", "bpass_regularization_type", "state_dimension", "control_dimension"}; SolverLqrIntParam pi[] = {SolverLqrIntParam_Verbosity, SolverLqrIntParam_LqrMaxIterations, SolverLqrIntParam_PrecisionDigits, SolverLqrIntParam_BackPassRegulatizationType, SolverLqrIntParam_StateDimension, SolverLqrIntParam_ControlDimension}; for (int i = 0; i < 6; i++) n[ki[i]] = 11 + i;
  const char* kd[] = {"cost_change_tolerance", "divergence_limit_check", "bpass_min_regularization", "bpass_max_regularization", "control_gradient_tolerance", "bpass_initial_regularization", "min_expected_cost_improvement", "bpass_mult_regularization_incr", "bpass_initial_mult_regularization_incr"}; SolverLqrDoubleParam pd[] = {SolverLqrDoubleParam_CostChangeTolerance, SolverLqrDoubleParam_DivergenceLimitCheck, SolverLqrDoubleParam_BackPassMinRegularization, SolverLqrDoubleParam_BackPassMaxRegularization, SolverLqrDoubleParam_ControlGradientTolerance, SolverLqrDoubleParam_BackPassInitialRegularization, SolverLqrDoubleParam_MinExpectedCostImprovement, SolverLqrDoubleParam_BackPassMultRegularizationIncr, SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr}; V d = sv("d", 9); for (int i = 0; i < 9; i++) n[kd[i]] = d[i];
  n["linesearch_coeff"] = 2.0; n["linesearch_num_coeffs"] = 3; n["store_data"] = true; n["time_step"] = 0.25; int st = sx_choose("steps", 1, 3), part = sx_choose("part", 0, 1); n["time_horizon"] = 0.25 * st + (part ? 0.2 : 0.0); V x0 = sv("x0_", 2), lo = sv("lo", 2), hi = sv("hi", 2); n["initial_state"] = x0; bool lim = sx_choose("limits", 0, 1); n["has_control_limits"] = lim; if (lim) { n["min_control_limits"] = lo; n["max_control_limits"] = hi; } double up = sx_real("up"); n["user_parameters"]["gain"] = up;
  SolverLqrSetting s; s.initialize("cfg_a.yaml", "vars"); const SolverLqrSetting& c = s; for (int i = 0; i < 6; i++) sx_assert(s.get(pi[i]) == 11 + i && c.get(pi[i]) == 11 + i, "integer setting"); for (int i = 0; i < 9; i++) { sx_eq(s.get(pd[i]), d[i], "number setting"); sx_eq(c.get(pd[i]), d[i], "number setting"); }
  const V& al = c.get(SolverLqrVectorParam_LineSearchCoeffs); sx_assert(al.size() == 3, "line search coefficients"); if (al.size() == 3) { sx_eq(al[0], 1, "line search coefficients"); sx_eq(al[1], 0.5, "line search coefficients"); sx_eq(al[2], 1.0 / 16, "line search coefficients"); } sx_assert(c.get(SolverLqrIntParam_TimeDimension) == st, "number of steps"); sx_eq(c.get(SolverLqrDoubleParam_TimeStep), 0.25, "time step"); sx_eq(c.get(SolverLqrDoubleParam_TimeHorizon), 0.25 * st + (part ? 0.2 : 0.0), "horizon"); sx_assert(c.get(SolverLqrBoolParam_StoreData) && c.get(SolverLqrBoolParam_HasControlLimits) == lim && !c.get(SolverLqrBoolParam_UseRungeKuttaIntegration), "switches"); eqv(c.get(SolverLqrVectorParam_InitialState), x0, "initial state"); if (lim) { eqv(c.get(SolverLqrVectorParam_MinControlLimits), lo, "limits"); eqv(c.get(SolverLqrVectorParam_MaxControlLimits), hi, "limits"); } sx_assert(c.get(SolverLqrStringParam_ConfigFile) == "cfg_a.yaml" && c.get(SolverLqrStringParam_SaveLqrFile) == "cfg_a_lqr_results.yaml", "file names"); sx_eq(c.get(SolverLqrYamlParam_UserParameters)["gain"].as<double>(), up, "user parameters");
  double nv = sx_real("new"); int wi = sx_choose("which", 0, 8); s.get(pd[wi]) = nv; for (int i = 0; i < 9; i++) sx_eq(c.get(pd[i]), i == wi ? nv : d[i], "setting one parameter changes that one"); bool t1 = false, t2 = false; try { s.get(SolverLqrIntParam_CurrentIteration); } catch (std::runtime_error&) { t1 = true; } try { c.get(SolverLqrDoubleParam_Cost); } catch (std::runtime_error&) { t2 = true; } sx_assert(t1 && t2, "unknown parameters are rejected");
}
extern "C" void e_store() {   // what is stored is the trajectory, and loading restores the feedback
  solverFile(); World w; mk(w, 2, 2, 1); w.stg.cfg_file_ = "in.yaml"; w.stg.save_lqr_file_ = "/dev/null"; double keep = sx_real("keep"); YAML::file("in.yaml")["solverlqr_variables"]["other"] = keep; symTraj(w.o); SolverLqr s; s.initialize(&w.o, w.stg); YAML::saved().clear(); s.storeSolution(); sx_assert(YAML::saved().size() == 1u, "one file is written"); if (YAML::saved().size() != 1u) return; YAML::Node f = YAML::saved()[0]; YAML::Node n = f["solverlqr_variables"]; M X = n["states"].as<M>(), U = n["control_ff"].as<M>(); sx_assert(X.rows() == 2 && X.cols() == 3 && U.rows() == 1 && U.cols() == 2, "stored sizes"); for (int t = 0; t < 3; t++) eqv(X.col(t), w.o.stateSeq().state(t).stateVector(), "stored states"); for (int t = 0; t < 2; t++) { eqv(U.col(t), w.o.controlSeq().control(t).feedforward(), "stored controls"); eqm(n["control_fb_" + std::to_string(t)].as<M>(), w.o.controlSeq().control(t).feedback(), "stored feedback"); } sx_assert(n["tdim"].as<int>() == 2 && n["xdim"].as<int>() == 2 && n["udim"].as<int>() == 1, "stored sizes"); sx_eq(n["dt"].as<double>(), 0.1, "stored step"); sx_eq(n["other"].as<double>(), keep, "configuration kept");
  YAML::file("out.yaml")["solverlqr_variables"] = n; World v; mk(v, 2, 2, 1); SolverLqr r; r.initialize(&v.o, v.stg); r.loadSolution("out.yaml"); for (int t = 0; t < 2; t++) eqm(v.o.controlSeq().control(t).feedback(), w.o.controlSeq().control(t).feedback(), "feedback is restored");
}
