// Orientation helpers and way-point trajectories.
#include "common.h"
#include <momentumopt/utilities/OrientationUtils.hpp>
#include <momentumopt/utilities/TrajectoryGenerator.hpp>
using namespace momentumopt; typedef Eigen::Quaterniond Q; typedef Eigen::Vector3d V3;
static double axisOf(int k, V3& a) { switch (k) { case 0: a = V3(1, 0, 0); return 1; case 1: a = V3(0, 1, 0); return 1; case 2: a = V3(0, 0, 1); return 1; case 3: a = V3(3, 4, 0); return 5; case 4: a = V3(1, -2, 2); return 3; default: a = V3(0, -4, 3); return 5; } }   // integer direction and its length
static V3 unit(const V3& a, double n) { return V3(a[0] / n, a[1] / n, a[2] / n); }
static Q rot(const V3& a, double n, double half) { double c = std::cos(half), s = std::sin(half); return Q(n * c, a.x() * s, a.y() * s, a.z() * s); }
static Q scale(const Q& q, double k) { return Q(q.w() * k, q.x() * k, q.y() * k, q.z() * k); }
static Q mul(const Q& a, const Q& b) { return Q(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w()); }
static V3 turn(const Q& q, const V3& v) { V3 u(q.x(), q.y(), q.z()), t = 2 * u.cross(v); return v + q.w() * t + u.cross(t); }
static void eq3(const V3& a, const V3& b, double tol, const char* l) { for (int i = 0; i < 3; i++) if (tol == 0) sx_eq_tol(a[i], b[i], 1e-9, l); else sx_eq_tol(a[i], b[i], tol, l); }
struct Case { V3 a; double n, half; Q qc, qd, qu; };   // desired = turn by 2*half about a, after the current orientation
static Case mk(double hmax) {
  Case c; int ka = sx_choose("axis", 0, 5), kb = sx_choose("current_axis", 0, 2); c.n = axisOf(ka, c.a); c.half = sx_real_in("half", 0.0, hmax); sx_assume(std::cos(c.half) > 0.07); sx_assume(std::sin(c.half) >= 0); double u = sx_real_in("current_half", -3.1, 3.1); V3 b; double m = axisOf(kb == 0 ? 2 : kb == 1 ? 1 : 4, b); c.qc = rot(b, m, u); c.qd = mul(rot(c.a, c.n, c.half), c.qc); c.a = unit(c.a, c.n); c.qu = Q(c.qc.w() / m, c.qc.x() / m, c.qc.y() / m, c.qc.z() / m); return c;
}
extern "C" void e_error() {   // rotation vector from current to desired, whatever the scale and sign of the quaternions
  Case c = mk(1.5); double kd = sx_choose("negate", 0, 1) ? -1.0 : 1.0, kc = sx_choose("scaled", 0, 1) ? 2.5 : 1.0; V3 e = orientationError(scale(c.qd, kd), scale(c.qc, kc)); double w = std::cos(c.half); bool small = sx_branch(w > 0.99); if (!small) eq3(e, 2 * c.half * c.a, 0, "error is the rotation vector"); else { double s = std::sin(c.half); sx_assume(s >= c.half - c.half * c.half * c.half / 6); sx_assume(s <= c.half); sx_assume(c.half <= 0.15); eq3(e, 2 * c.half * c.a, 2e-3, "error is the rotation vector, small angles"); }
}
extern "C" void e_error_bins() {   // the same with the half angle in one of fifteen tenths, sine and cosine bound to it there
  int k = sx_choose("tenth", 0, 14); double lo = 0.1 * k, hi = 0.1 * (k + 1); bool sc = sx_choose("scaled", 0, 1), rq = sx_choose("required", 0, 1); V3 a, b; double n = axisOf(sc ? 3 : 4, a), m = axisOf(4, b); double h = sx_real_in("half", lo, hi), u = sx_real_in("current_half", -3.1, 3.1), c = std::cos(h), s = std::sin(h);
  sx_assume(c <= std::cos(lo) + 1e-12); sx_assume(c >= std::cos(hi) - 1e-12); sx_assume(s >= std::sin(lo) - 1e-12); sx_assume(s <= std::sin(hi) + 1e-12); sx_assume(s <= h); sx_assume(s >= h - h * h * h / 6); Q qc = rot(b, m, u), qd = mul(rot(a, n, h), qc); a = unit(a, n);
  V3 e = rq ? requiredAngularVelocity(qd, qc, 0.25, false) * 0.25 : orientationError(scale(qd, sc ? -1.5 : 1.0), scale(qc, sc ? 2.5 : 1.0)); eq3(e, 2 * h * a, k == 0 ? 4e-4 : k == 1 ? 1e-3 : 1e-9, "error is the rotation vector, by tenths");
}
extern "C" void e_required() {   // constant angular velocity that covers the error in the given time
  Case c = mk(1.5); int kt = sx_choose("dt", 0, 1); double dt = kt ? 0.25 : 2.0; bool body = sx_choose("body", 0, 1); V3 w = requiredAngularVelocity(c.qd, c.qc, dt, body); double cw = std::cos(c.half); if (sx_branch(cw > 0.99)) { eq3(w * dt, body ? turn(c.qu.conjugate(), orientationError(c.qd, c.qc)) : orientationError(c.qd, c.qc), 1e-9, "velocity covers the error"); return; } V3 want = 2 * c.half * c.a; if (body) want = turn(c.qu.conjugate(), want); eq3(w * dt, want, 0, "velocity covers the error");
}
static void integ(const V3& a, double n, double half, const Q& qc, double dt, bool body, double tol) {
  V3 w = a * (2 * half / dt) / n; if (body) w = turn(qc.conjugate(), w); Q r = integrateAngularVelocity(qc, w, dt, body), want = mul(rot(a, n, half), qc); want = Q(want.w() / n, want.x() / n, want.y() / n, want.z() / n);
  double g = 1; if (sx_branch(r.w() * want.w() + r.x() * want.x() + r.y() * want.y() + r.z() * want.z() < 0)) g = -1; double d[4] = {r.w() - g * want.w(), r.x() - g * want.x(), r.y() - g * want.y(), r.z() - g * want.z()}; for (int i = 0; i < 4; i++) sx_eq_tol(d[i], 0, tol, "turned by rate times time");
}
extern "C" void e_integrate_rot() {   // constant angular velocity for a time: turn by rate times time about its axis
  V3 a, b; double n = axisOf(sx_choose("axis", 0, 5), a), m = axisOf(sx_choose("current_axis", 1, 2), b); double u = sx_real_in("current_half", -3.1, 3.1), half = sx_real_in("half", 0.0055, 1.5); sx_assume(std::cos(half) > 0.07); sx_assume(std::sin(half) >= 0.005); bool body = sx_choose("body", 0, 1); integ(a, n, half, rot(b, m, u), sx_choose("dt", 0, 1) ? 0.25 : 2.0, body, 1e-9);
}
extern "C" void e_integrate_small() {
  V3 a; double n = axisOf(sx_choose("axis", 0, 5), a); double half = sx_real_in("half", 0, 0.006); double s = std::sin(half), k = std::cos(half); sx_assume(s >= half - half * half * half / 6); sx_assume(s <= half); sx_assume(k >= 1 - half * half / 2); int kq = sx_choose("current", 0, 2); integ(a, n, half, kq == 0 ? Q(1, 0, 0, 0) : kq == 1 ? Q(0, 0, 1, 0) : Q(0.5, 0.5, -0.5, 0.5), 0.5, sx_choose("body", 0, 1), 1e-4);
}
// ---- way points
static void span(int k, double& t0, double& t1) { t0 = k == 0 ? 0 : k == 1 ? 1 : -0.5; t1 = k == 0 ? 1 : k == 1 ? 1.5 : 0.5; }
static int dirSym; static V3 s3(const char* p) { V3 v; for (int i = 0; i < 3; i++) v[i] = i == dirSym ? sx_real_in(nm(p, i).c_str(), -10, 10) : (i + 1) * 0.75 + (p[0] - 'a') * 0.3; return v; }   // one direction at a time
extern "C" void e_waypoints() {
  double t0, t1; int sp = sx_choose("span_dir", 0, 4); span(sp < 3 ? sp : 0, t0, t1); dirSym = sp < 3 ? sp : sp - 2; V3 a = s3("a"), b = s3("b"), v = s3("v"), z = V3::Zero(); TrajectoryGenerator g; int mode = sx_choose("mode", 0, sp == 0 ? 2 : 1); if (sp > 0) mode *= 2; if (mode == 1) g.initialize(3, b, 4, v, a); g.initialize(t0, a, t1, b, v);
  double d = mode == 2 ? 0.7 : 0.0; g.update(t0 - d); eq3(g.desPos(), a, 1e-6, "starts at the first way-point"); eq3(g.desVel(), z, 1e-6, "starts at rest"); eq3(g.desAcc(), z, 1e-5, "starts at rest"); g.update(t1 + d); eq3(g.desPos(), b, 1e-6, "ends at the last way-point"); eq3(g.desVel(), z, 1e-6, "ends at rest"); eq3(g.desAcc(), z, 1e-5, "ends at rest"); g.update(0.5 * (t0 + t1)); eq3(g.desPos(), v, 1e-6, "passes through the middle way-point halfway");
}
extern "C" void e_consistent() {   // velocity and acceleration are the derivatives of the position (degree at most six: exact stencils)
  double t0, t1; span(sx_choose("span", 0, 2), t0, t1); dirSym = sx_choose("direction", 0, 2); V3 a = s3("a"), b = s3("b"), v = s3("v"); TrajectoryGenerator g; g.initialize(t0, a, t1, b, v); double h = (t1 - t0) / 8, t = t0 + h * (3 + sx_choose("at", 0, 2)); static const double D1[7] = {-1. / 60, 3. / 20, -3. / 4, 0, 3. / 4, -3. / 20, 1. / 60}, D2[7] = {1. / 90, -3. / 20, 3. / 2, -49. / 18, 3. / 2, -3. / 20, 1. / 90}; V3 p1 = V3::Zero(), p2 = V3::Zero(); for (int k = -3; k <= 3; k++) { g.update(t + k * h); p1 += D1[k + 3] / h * g.desPos(); p2 += D2[k + 3] / (h * h) * g.desPos(); } g.update(t); eq3(g.desVel(), p1, 1e-4, "velocity is the derivative of the position"); eq3(g.desAcc(), p2, 1e-3, "acceleration is the second derivative of the position");
}
extern "C" void e_interpolator() {   // any set of position, velocity and acceleration constraints is met
  int k = sx_choose("set", 0, 3); Interpolator::InterpMat p, v, a; double t[6] = {0, 0.5, 1, 2, -1, 1.5}; int np = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : 2, nv = k == 0 ? 2 : k == 1 ? 1 : k == 2 ? 1 : 2, na = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 1 : 2; p.resize(np, 2); v.resize(nv, 2); a.resize(na, 2); for (int i = 0; i < np; i++) { p(i, 0) = t[i]; p(i, 1) = sx_real_in(nm("p", i).c_str(), -10, 10); } for (int i = 0; i < nv; i++) { v(i, 0) = t[(i + k) % 3]; v(i, 1) = sx_real_in(nm("v", i).c_str(), -10, 10); } for (int i = 0; i < na; i++) { a(i, 0) = t[(2 * i + 1) % 3]; a(i, 1) = sx_real_in(nm("a", i).c_str(), -10, 10); }
  Interpolator q; q.initialize(p, v, a); double P, W, A; for (int i = 0; i < np; i++) { q.interpolate(p(i, 0), P, W, A); sx_eq_tol(P, p(i, 1), 1e-5, "position constraint"); } for (int i = 0; i < nv; i++) { q.interpolate(v(i, 0), P, W, A); sx_eq_tol(W, v(i, 1), 1e-5, "velocity constraint"); } for (int i = 0; i < na; i++) { q.interpolate(a(i, 0), P, W, A); sx_eq_tol(A, a(i, 1), 1e-5, "acceleration constraint"); }
}
