// Contact plans: loading, filling the dynamics sequence, swing trajectories; initial robot state; terrain regions.
#include "common.h"
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#undef private
#undef protected
using namespace momentumopt; typedef Eigen::Vector3d V3; typedef Eigen::VectorXd V; typedef Eigen::Quaterniond Q;
static const char* EFF[4] = {"rf", "lf", "rh", "lh"};
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real(nm(p.c_str(), i).c_str()); return v; }
template <class A, class B> static void eqv(const A& a, const B& b, const char* l) { sx_assert(a.size() == b.size(), l); if (a.size() == b.size()) for (int i = 0; i < a.size(); i++) sx_eq(a[i], b[i], l); }
static void eqq(const Q& a, const Q& b, const char* l) { sx_eq(a.w(), b.w(), l); sx_eq(a.x(), b.x(), l); sx_eq(a.y(), b.y(), l); sx_eq(a.z(), b.z(), l); }
static PlannerSetting& setting(int T, double dt, bool kin) { static PlannerSetting s; s = PlannerSetting(); s.cfg_file_ = "plan.yaml"; s.num_timesteps_ = T; s.time_step_ = dt; s.load_kinematics_ = kin; s.com_displacement_ = V3::Zero(); return s; }
// ---- loading
static std::vector<V> rows[4], vias[4];
static void planFile(const char* file, const std::string& tag, int mask, bool via) {
  YAML::Node n = YAML::file(file)["contact_plan"]; for (int e = 0; e < 4; e++) { rows[e].clear(); vias[e].clear(); int k = (mask >> (2 * e)) & 3; if (k > 2) k = 2;
    for (int c = 0; c < k; c++) { V v = sv(tag + EFF[e] + std::to_string(c) + "_", 11); v[9] = sx_choose((tag + "type" + EFF[e] + std::to_string(c)).c_str(), 0, 2); v[10] = 3 * c + e - 1; rows[e].push_back(v); }
    for (int c = 0; via && c < 2 - (e & 1); c++) { V v = sv(tag + "via" + EFF[e] + std::to_string(c) + "_", 8); v[0] = c + e - 2; vias[e].push_back(v); }
    n[std::string("effcnt_") + EFF[e]] = rows[e]; n[std::string("effvia_") + EFF[e]] = vias[e]; }
}
static void checkLoaded(ContactPlanFromFile& p, bool via) {
  int next = 0, nextVia = 0; for (int e = 0; e < 4; e++) { auto& c = p.contactSequence().endeffectorContacts(e); sx_assert(c.size() == rows[e].size() && p.contactSequence().numEndeffectorContacts(e) == (int)rows[e].size(), "every listed contact once, in order");
    for (size_t i = 0; i < c.size() && i < rows[e].size(); i++) { V r = rows[e][i]; const ContactState& s = c[i]; sx_eq(s.contactActivationTime(), r[0], "contact times"); sx_eq(s.contactDeactivationTime(), r[1], "contact times"); eqv(s.contactPosition(), r.segment(2, 3), "contact position"); eqq(s.contactOrientation(), Q(r[5], r[6], r[7], r[8]), "contact orientation w x y z"); sx_assert((int)s.contactType() == (int)r[9], "contact type"); sx_assert(s.terrainId() == (int)r[10], "terrain id"); sx_assert(s.optimizationId() == next++, "contacts are numbered consecutively"); sx_assert(s.selectedAsActive(), "loaded contacts are active"); }
    if (via) { auto& v = p.viapointSequence().endeffectorViapoints(e); sx_assert(v.size() == vias[e].size(), "every via point once, in order"); for (size_t i = 0; i < v.size() && i < vias[e].size(); i++) { V r = vias[e][i]; sx_assert(v[i].viapointId() == (int)r[0], "via id"); eqv(v[i].viapointPosition(), r.segment(1, 3), "via position"); eqq(v[i].viapointOrientation(), Q(r[4], r[5], r[6], r[7]), "via orientation"); sx_assert(v[i].optimizationId() == nextVia++, "via points are numbered consecutively"); } } }
  sx_assert(p.contactSequence().numOptimizationContacts() == next, "number of contacts"); if (via) sx_assert(p.viapointSequence().numOptimizationViapoints() == nextVia, "number of via points");
}
extern "C" void e_load() {
  static const int masks[4] = {0x00, 0x41, 0x12, 0x06}; bool kin = sx_choose("kinematics", 0, 1); PlannerSetting& s = setting(2, 0.1, kin); ContactPlanFromFile p; p.initialize(s); DynamicsState ini; TerrainDescription t; planFile("plan.yaml", "a", masks[sx_choose("plan", 0, 3)], kin); p.optimize(ini, t); checkLoaded(p, kin);
  if (sx_choose("again", 0, 1)) { YAML::file("plan.yaml") = YAML::Node(); planFile("plan.yaml", "b", 0x01, kin); p.optimize(ini, t); checkLoaded(p, kin); }
}
extern "C" void e_contact_state() {   // defaults, setters, placement matrix
  ContactState c; sx_assert(!c.selectedAsActive() && c.optimizationId() == -1 && c.terrainId() == -1 && c.contactType() == ContactType::FreeContact, "defaults"); eqv(c.contactPosition(), V3(0, 0, 0), "defaults"); eqq(c.contactOrientation(), Q(1, 0, 0, 0), "defaults");
  int k = sx_choose("turn", 0, 6); static const double q[7][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.5, -0.5, 0.5, -0.5}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {0.8, 0, 0, 0.6}}; Q o(q[k][0], q[k][1], q[k][2], q[k][3]); V3 pos = sv("p", 3); c.contactPosition(pos); c.contactOrientation(o); Eigen::Matrix4d m = c.contactPlacement(); Eigen::Matrix3d R = o.toRotationMatrix(); for (int i = 0; i < 3; i++) { sx_eq(m(i, 3), pos[i], "placement matrix"); sx_eq(m(3, i), 0, "placement matrix"); for (int j = 0; j < 3; j++) sx_eq(m(i, j), R(i, j), "placement matrix"); } sx_eq(m(3, 3), 1, "placement matrix");
  ContactState d; d.contactPlacement(m); eqv(d.contactPosition(), pos, "placement round trip"); Eigen::Matrix3d S = d.contactOrientation().toRotationMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sx_eq_tol(S(i, j), R(i, j), 1e-9, "placement round trip");
  double a = sx_real("a"), b = sx_real("b"); c.contactActivationTime(a); c.contactDeactivationTime(b); c.contactType(ContactType::FullContact); c.selectedAsActive(true); sx_eq(c.contactActivationTime(), a, "setters"); sx_eq(c.contactDeactivationTime(), b, "setters"); sx_assert(c.contactType() == ContactType::FullContact && c.selectedAsActive(), "setters"); eqv(c.contactPosition(), pos, "setters"); for (int i = 0; i < 3; i++) sx_assert((int)idToContactType(i) == i, "contact type of an id");
}
extern "C" void e_initial_state() {
  bool other = sx_choose("section", 0, 1); YAML::Node n = YAML::file("robot.yaml")[other ? "my_state" : "initial_robot_configuration"]; V com = sv("com", 3), lm = sv("lmom", 3), am = sv("amom", 3); n["com"] = com; n["lmom"] = lm; n["amom"] = am; V pose[4], f[4]; int mask = sx_choose("active", 0, 15);
  for (int e = 0; e < 4; e++) { pose[e] = sv(std::string("pose") + EFF[e], 8); pose[e][0] = (mask >> e) & 1; f[e] = sv(std::string("frc") + EFF[e], 3); n["eef_pose"][std::string("eef_") + EFF[e]] = pose[e]; n["eef_ctrl"][std::string("eef_frc_") + EFF[e]] = f[e]; }
  DynamicsState s; if (other) s.fillInitialRobotState("robot.yaml", "my_state"); else s.fillInitialRobotState("robot.yaml"); eqv(s.centerOfMass(), com, "centre of mass"); eqv(s.linearMomentum(), lm, "linear momentum"); eqv(s.angularMomentum(), am, "angular momentum");
  for (int e = 0; e < 4; e++) { sx_assert(s.endeffectorActivation(e) == bool((mask >> e) & 1), "activation"); eqv(s.endeffectorPosition(e), pose[e].segment(1, 3), "end-effector position"); eqq(s.endeffectorOrientation(e), Q(pose[e][4], pose[e][5], pose[e][6], pose[e][7]), "end-effector orientation"); eqv(s.endeffectorForce(e), f[e], "end-effector force"); eqv(s.endeffectorCoP(e), V3(0, 0, 0), "the rest starts at zero"); eqv(s.endeffectorTorque(e), V3(0, 0, 0), "the rest starts at zero"); eqv(s.endeffectorVelocity(e), V3(0, 0, 0), "the rest starts at zero"); sx_assert(s.endeffectorContactId(e) == -1, "no contact yet"); }
  DynamicsSequence q; q.resize(2); q.dynamicsState(1) = s; int T = sx_choose("T", 0, 3); q.resize(T); sx_assert(q.size() == T, "resizing gives fresh states"); for (int t = 0; t < T; t++) { eqv(q.dynamicsState(t).centerOfMass(), V3(0, 0, 0), "resizing gives fresh states"); sx_assert(!q.dynamicsState(t).endeffectorActivation(0), "resizing gives fresh states"); }
}
// ---- filling the sequence
static ContactState contact(const std::string& p, bool active) { ContactState c; c.time_ini_ = sx_real((p + "ini").c_str()); c.time_end_ = sx_real((p + "end").c_str()); c.position_ = sv(p + "pos", 3); V o = sv(p + "ori", 4); c.orientation_ = Q(o[0], o[1], o[2], o[3]); c.contact_type_ = ContactType::FlatContact; c.selected_as_active_ = active; c.optimization_id_ = 0; c.terrain_id_ = 0; return c; }
static void checkFilled(ContactPlanFromFile& p, DynamicsSequence& d, int T, double dt, const std::vector<DynamicsState>& before) {
  for (int e = 0; e < 4; e++) { auto& cs = p.contactSequence().endeffectorContacts(e); std::vector<int> ids; 
    for (int t = 0; t < T; t++) { double now = dt * (t + 1); int which = -1; for (size_t c = 0; c < cs.size(); c++) if (cs[c].selected_as_active_) if (sx_branch(sx_and(now >= cs[c].time_ini_, now < cs[c].time_end_))) which = c;
      const DynamicsState& s = d.dynamicsState(t); sx_assert(s.endeffectorActivation(e) == (which >= 0), "in contact exactly during an active contact's interval"); if (which >= 0 && s.endeffectorActivation(e)) { sx_assert(s.endeffectorContactId(e) == which, "contact index"); eqv(s.endeffectorPosition(e), cs[which].position_, "contact pose"); eqq(s.endeffectorOrientation(e), cs[which].orientation_, "contact pose"); ids.push_back(s.endeffectorActivationId(e)); } }
    int n = d.activeEndeffectorSteps()[e]; sx_assert(n >= (int)ids.size(), "every contact step has a control slot"); for (size_t i = 0; i < ids.size(); i++) { sx_assert(ids[i] >= 0 && ids[i] < n, "control slots are in range"); for (size_t j = 0; j < i; j++) sx_assert(ids[i] != ids[j], "control slots are distinct"); } }
  for (int t = 0; t < T; t++) { eqv(d.dynamicsState(t).centerOfMass(), before[t].centerOfMass(), "nothing else changes"); eqv(d.dynamicsState(t).linearMomentum(), before[t].linearMomentum(), "nothing else changes"); sx_eq(d.dynamicsState(t).time(), before[t].time(), "nothing else changes"); for (int e = 0; e < 4; e++) eqv(d.dynamicsState(t).endeffectorForce(e), before[t].endeffectorForce(e), "nothing else changes"); }
}
static DynamicsSequence fresh(int T, double dt) { DynamicsSequence d; d.resize(T); for (int t = 0; t < T; t++) { d.dynamicsState(t).time() = dt; d.dynamicsState(t).centerOfMass() = sv("com" + std::to_string(t), 3); d.dynamicsState(t).linearMomentum() = sv("lm" + std::to_string(t), 3); d.dynamicsState(t).endeffectorForce(1) = sv("f" + std::to_string(t), 3); } return d; }
static void ordered(std::vector<ContactState>& c) { for (size_t i = 0; i + 1 < c.size(); i++) sx_assume(c[i].time_end_ <= c[i + 1].time_ini_); for (auto& k : c) sx_assume(k.time_ini_ < k.time_end_); }
extern "C" void e_fill() {
  int k = sx_choose("case", 0, 2), T = k == 0 ? 3 : 2; double dt = sx_real_in("dt", 0.001, 10); PlannerSetting& s = setting(T, dt, false); ContactPlanFromFile p; p.initialize(s); int e = sx_choose("eff", 0, 3);
  auto& c = p.contactSequence().endeffectorContacts(e); c.push_back(contact("a", sx_choose("active_a", 0, 1))); if (k != 1) c.push_back(contact("b", sx_choose("active_b", 0, 1))); ordered(c); if (k == 1) { p.contactSequence().endeffectorContacts((e + 1) % 4).push_back(contact("o", true)); }
  DynamicsSequence d = fresh(T, dt); std::vector<DynamicsState> before = d.dynamicsSequence(); DynamicsState ini; p.fillDynamicsSequence(ini, d); checkFilled(p, d, T, dt, before);
}
extern "C" void e_fill_three() {   // three and four contacts of one end-effector over four steps
  int k = sx_choose("case", 0, 2), T = 4; double dt = 0.5; PlannerSetting& s = setting(T, dt, false); ContactPlanFromFile p; p.initialize(s); int e = k == 1 ? 3 : 1; auto& c = p.contactSequence().endeffectorContacts(e);
  c.push_back(contact("a", k != 1)); c.push_back(contact("b", k != 2)); c.push_back(contact("c", true)); if (k) c.push_back(contact("d", true)); ordered(c); sx_assume(c[0].time_ini_ >= 0); if (k) sx_assume(c.back().time_ini_ <= 2);
  DynamicsSequence d = fresh(T, dt); std::vector<DynamicsState> before = d.dynamicsSequence(); DynamicsState ini; p.fillDynamicsSequence(ini, d); checkFilled(p, d, T, dt, before);
}
extern "C" void e_fill_again() {   // the plan changed: nothing of the previous plan is left
  int T = 2; double dt = 0.5; PlannerSetting& s = setting(T, dt, false); ContactPlanFromFile p; p.initialize(s); auto& c = p.contactSequence().endeffectorContacts(1); c.push_back(contact("a", true)); ordered(c); DynamicsSequence d = fresh(T, dt); std::vector<DynamicsState> before = d.dynamicsSequence(); DynamicsState ini; p.fillDynamicsSequence(ini, d); c[0] = contact("b", sx_choose("active_b", 0, 1)); if (sx_choose("two", 0, 1)) c.push_back(contact("c", true)); ordered(c); p.fillDynamicsSequence(ini, d); checkFilled(p, d, T, dt, before);
}
// ---- swing phases (the trajectory generator is replaced by a simple one through the same way points; the real one is checked on its own)
#define GI _ZN11momentumopt19TrajectoryGenerator10initializeEdRKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEEdS5_S5_
#define GU _ZN11momentumopt19TrajectoryGenerator6updateEd
#define CC2(a, b) a##b
#define CC(a, b) CC2(a, b)
struct Sw { double a, b; V3 ini, end, via; V3 at(double t) const { double k = (t - a) / (b - a); return V3(ini * (1 - k) + end * k + via * (t - a) * (b - t)); } V3 v(double t) const { return V3(via * (t - a) + end - ini * 2); } V3 c(double t) const { return V3(via + ini * (t - b) + end * (t + 3)); } };
static Sw sw; static bool swSet;
extern "C" {
void CC(__real_, GI)(TrajectoryGenerator*, double, const V3&, double, const V3&, const V3&); void CC(__real_, GU)(TrajectoryGenerator*, double);
void CC(__wrap_, GI)(TrajectoryGenerator*, double a, const V3& i, double b, const V3& e, const V3& v) { sw.a = a; sw.b = b; sw.ini = i; sw.end = e; sw.via = v; swSet = true; }
void CC(__wrap_, GU)(TrajectoryGenerator* g, double t) { sx_assert(swSet, "trajectory set up before use"); g->pos_des_ = sw.at(t); g->vel_des_ = sw.v(t); g->acc_des_ = sw.c(t); }
}
static Q turn(int k) { static const double q[5][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0, 0, 1, 0}, {0.8, 0, 0, 0.6}, {-0.8, 0, 0, -0.6}}; return Q(q[k][0], q[k][1], q[k][2], q[k][3]); }
static void same3(const V3& a, const V3& b, const char* l) { for (int i = 0; i < 3; i++) sx_eq(a[i], b[i], l); }
static void flight(int T, const std::string& act, bool ini, bool vary) {   // act: 'x' contact, '.' flight, per step
  double dt = vary ? 0.5 : sx_real_in("dt", 0.01, 1); PlannerSetting& s = setting(T, dt, true); ContactPlanFromFile p; p.initialize(s); int e = sx_choose("eff", 0, 1) ? 2 : 0; s.com_displacement_ = sv("move", 3); auto& cs = p.contactSequence().endeffectorContacts(e); auto& vs = p.viapointSequence().endeffectorViapoints(e); swSet = false;
  std::vector<double> step; for (int t = 0; t < T; t++) step.push_back(vary ? sx_real_in(nm("step", t).c_str(), 0.01, 1) : dt);
  DynamicsState in; in.endeffectorActivation(e) = ini; in.endeffectorPosition(e) = sv("ini", 3); in.endeffectorOrientation(e) = turn(3); int nc = 0; for (int t = 0; t < T; t++) if (act[t] == 'x' && (t == 0 || act[t - 1] == '.')) { int q = t; while (q < T && act[q] == 'x') q++; ContactState c; c.time_ini_ = (t + 0.5) * dt; c.time_end_ = (q + 0.5) * dt; c.position_ = sv("c" + std::to_string(nc) + "_", 3); c.orientation_ = turn((nc + 1) % 5); c.selected_as_active_ = true; cs.push_back(c); nc++; }
  std::vector<V3> via(nc + 1); for (int v = -1; v < nc; v++) { via[v + 1] = sv("v" + std::to_string(v + 1) + "_", 3); } for (int v = nc - 1; v >= -1; v--) { ViapointState w; w.viapoint_id_ = v; w.position_ = via[v + 1]; vs.push_back(w); }
  DynamicsSequence d; d.resize(T); for (int t = 0; t < T; t++) d.dynamicsState(t).time() = step[t]; int other = e == 0 ? 1 : 0; V3 op = sv("other", 3); for (int t = 0; t < T; t++) d.dynamicsState(t).endeffectorPosition(other) = op; p.fillDynamicsSequence(in, d); p.updateEndeffectorTrajectories(in, d);
  auto at = [&](int t) { double r = 0; for (int i = 0; i <= t; i++) r += step[i]; return r; }; int c = -1;
  for (int t = 0; t < T; t++) { const DynamicsState& st = d.dynamicsState(t); eqv(st.endeffectorPosition(other), op, "other end-effectors untouched"); sx_assert(st.endeffectorActivation(e) == (act[t] == 'x'), "activation unchanged"); if (act[t] == 'x') { if (t == 0 || act[t - 1] == '.') c++; eqv(st.endeffectorPosition(e), cs[c].position_, "stays on the contact while in contact"); eqq(st.endeffectorOrientation(e), cs[c].orientation_, "stays on the contact while in contact"); eqv(st.endeffectorVelocity(e), V3(0, 0, 0), "at rest while in contact"); continue; }
    int b = t; while (b > 0 && act[b - 1] == '.') b--; int f = t; while (f + 1 < T && act[f + 1] == '.') f++; bool last = f == T - 1; V3 from = c < 0 ? in.endeffectorPosition(e) : cs[c].position_, to = last ? V3(in.endeffectorPosition(e) + s.com_displacement_) : cs[c + 1].position_; Q qf = c < 0 ? in.endeffectorOrientation(e) : cs[c].orientation_, qt = last ? in.endeffectorOrientation(e) : cs[c + 1].orientation_;
    if (b < f) { Sw g; g.a = at(b); g.b = at(f); g.ini = from; g.end = to; g.via = via[c + 1]; double now = at(t); same3(st.endeffectorPosition(e), g.at(now), "swing follows the way points of its flight phase"); same3(st.endeffectorVelocity(e), g.v(now), "swing velocity"); same3(st.endeffectorAcceleration(e), g.c(now), "swing acceleration"); if (t == b) same3(st.endeffectorPosition(e), from, "swing leaves from the previous contact"); if (t == f) same3(st.endeffectorPosition(e), to, "swing arrives at the next contact"); }
    double w = 2.0 * (t - b) / (f + 1.0 - b); if (w > 1) w = 1; Q o = qf.slerp(w, qt), r = st.endeffectorOrientation(e); sx_eq_tol(r.w(), o.w(), 1e-9, "swing orientation"); sx_eq_tol(r.x(), o.x(), 1e-9, "swing orientation"); sx_eq_tol(r.y(), o.y(), 1e-9, "swing orientation"); sx_eq_tol(r.z(), o.z(), 1e-9, "swing orientation"); }
}
static const struct { const char* a; bool ini; } SCHED[9] = {{"xx...xx", true}, {"..xx", false}, {"x..", true}, {"xx..x..xx", true}, {"..x...x..", false}, {"x...x", true}, {"xxx", true}, {"...x", false}, {"x..x..x..x", true}};
extern "C" void e_flight() { int i = sx_choose("schedule", 0, 8); flight(strlen(SCHED[i].a), SCHED[i].a, SCHED[i].ini, sx_choose("vary", 0, 1)); }
// ---- terrain
extern "C" void e_terrain() {   // half-spaces contain exactly the polygon; frame of the region
  int k = sx_choose("shape", 0, 3), n = k == 0 ? 3 : 4, tilt = sx_choose("tilt", 0, 2); Eigen::Matrix3d R; if (tilt == 0) R.setIdentity(); else if (tilt == 1) R << 0.6, 0, 0.8, 0, 1, 0, -0.8, 0, 0.6; else R << 2. / 3, -2. / 3, 1. / 3, 1. / 3, 2. / 3, 2. / 3, -2. / 3, -1. / 3, 2. / 3;
  V3 o = sv("o", 3); double w = sx_real_in("w", 0.1, 10), h = sx_real_in("h", 0.1, 10), sh = 0; if (k == 0) { w = h * 14 / 12; sh = -h * 5 / 12; sx_sqrt_hint(h * 13 / 12); sx_sqrt_hint(h * 15 / 12); } if (k == 1) { sh = h * 3 / 4; sx_sqrt_hint(h * 5 / 4); } if (k == 3) { sh = -h * 5 / 12; sx_sqrt_hint(h * 13 / 12); } std::vector<V3> v; v.push_back(V3(0, 0, 0)); v.push_back(V3(w, 0, 0)); v.push_back(V3(w + sh, h, 0)); if (n == 4) v.push_back(V3(sh, h, 0));
  Eigen::Matrix<double, Eigen::Dynamic, 3> m(n, 3); for (int i = 0; i < n; i++) m.row(i) = (o + R * v[i]).transpose(); sx_sqrt_hint(w * h); sx_sqrt_hint(w); sx_sqrt_hint(h); TerrainDescription t; t.addTerrainRegion(m); t.addTerrainRegion(m); sx_assert(t.numRegions() == 2 && t.terrainRegion(0).terrainId() == 0 && t.terrainRegion(1).terrainId() == 1, "regions are numbered in order");
  TerrainRegion& r = t.terrainRegion(sx_choose("which", 0, 1)); V3 c(0, 0, 0); for (auto& q : v) c += q; c /= n; c = o + R * c; for (int i = 0; i < 3; i++) sx_eq_tol(r.pointOnTerrain()[i], c[i], 1e-9, "reference point is the centre of the vertices");
  V3 nv = r.normalToTerrain(); sx_eq_tol(nv.dot(nv), 1, 1e-9, "unit normal"); for (int i = 0; i < n; i++) { V3 ed = (R * (v[(i + 1) % n] - v[i])); sx_eq_tol(nv.dot(ed), 0, 1e-7, "normal is perpendicular to the surface"); }
  sx_assert(r.terrainDescriptionMatrix().rows() == n && r.terrainDescriptionVector().size() == n, "one half-space per edge"); double a = sx_real_in("px", -20, 20), b = sx_real_in("py", -20, 20), z = sx_real_in("pz", -5, 5); V3 x = o + R * V3(a, b, z);
  for (int i = 0; i < n; i++) { V3 f = v[i], g = v[(i + 1) % n]; double side = (g[0] - f[0]) * (b - f[1]) - (g[1] - f[1]) * (a - f[0]), got = r.terrainDescriptionVector()[i] - r.terrainDescriptionMatrix().row(i).dot(x); double len = std::sqrt((g[0] - f[0]) * (g[0] - f[0]) + (g[1] - f[1]) * (g[1] - f[1])); sx_assume(len > 0); sx_eq_tol(got * len, side, 1e-6, "slack of a half-space is the distance to the edge, positive inside"); }
}
extern "C" void e_terrain_frame() {   // rectangles: orthonormal right-handed frame, third axis normal, first along the first edge
  int tilt = sx_choose("tilt", 0, 2); Eigen::Matrix3d R; if (tilt == 0) R.setIdentity(); else if (tilt == 1) R << 0.6, 0, 0.8, 0, 1, 0, -0.8, 0, 0.6; else R << 2. / 3, -2. / 3, 1. / 3, 1. / 3, 2. / 3, 2. / 3, -2. / 3, -1. / 3, 2. / 3;
  V3 o = sv("o", 3); double w = sx_real_in("w", 0.1, 10), h = sx_real_in("h", 0.1, 10); Eigen::Matrix<double, Eigen::Dynamic, 3> m(4, 3); V3 v[4] = {V3(0, 0, 0), V3(w, 0, 0), V3(w, h, 0), V3(0, h, 0)}; for (int i = 0; i < 4; i++) m.row(i) = (o + R * v[i]).transpose(); sx_sqrt_hint(w * h); sx_sqrt_hint(w); sx_sqrt_hint(h); TerrainDescription t; t.addTerrainRegion(m); Eigen::Matrix3d F = t.terrainRegion(0).terrainRotation(); for (int j = 0; j < 3; j++) { sx_eq_tol(F(0, j), -R(j, 0), 1e-7, "first axis against the first edge"); sx_eq_tol(F(1, j), -R(j, 1), 1e-7, "second axis against the second edge"); sx_eq_tol(F(2, j), R(j, 2), 1e-7, "third axis up"); }
}
extern "C" void e_terrain_file() {
  bool other = sx_choose("section", 0, 1); int n = sx_choose("regions", 0, 2); std::vector<Eigen::MatrixXd> rs; for (int i = 0; i < n; i++) { Eigen::MatrixXd m(3 + i, 3); m.setZero(); double x = sx_real_in(nm("x", i).c_str(), -5, 5); m(0, 0) = x; m(1, 0) = x + 1; m(2, 0) = x + 1; m(2, 1) = 1; m.row(0)[2] = m.row(1)[2] = m.row(2)[2] = i; if (i == 1) { m(3, 0) = x; m(3, 1) = 1; m(3, 2) = i; } rs.push_back(m); } YAML::file("t.yaml")[other ? "mine" : "terrain_description"]["regions"] = rs; TerrainDescription t; if (other) t.loadFromFile("t.yaml", "mine"); else t.loadFromFile("t.yaml"); sx_assert(t.numRegions() == n, "one region per listed polygon");
  for (int i = 0; i < n && i < t.numRegions(); i++) { V3 c(0, 0, 0); for (int k = 0; k < rs[i].rows(); k++) c += V3(rs[i].row(k)); c /= rs[i].rows(); sx_assert(t.terrainRegion(i).terrainId() == i, "region order"); for (int j = 0; j < 3; j++) sx_eq_tol(t.terrainRegion(i).pointOnTerrain()[j], c[j], 1e-9, "region order"); }
}
