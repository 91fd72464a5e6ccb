// Second-order / linear cone algebra and Nesterov-Todd scalings.
#include "solver_common.h"

// Cone shapes: linear part and second-order cones (bounded, enumerated)
static void shape(Cone& c, int which, int nv = 1, int ne = 1) {
  static const int L[] = {2, 1, 0, 1, 0}; static const int Q[][2] = {{0, 0}, {2, 0}, {3, 0}, {2, 2}, {2, 3}};
  Eigen::VectorXi q; int n = which == 0 ? 0 : (which < 3 ? 1 : 2);
  q.resize(n); for (int i = 0; i < n; i++) q[i] = Q[which][i];
  c.initialize(nv, ne, L[which], q);
}
static void fill(Eigen::VectorXd& v, int n, const char* p) { v.resize(n); for (int i = 0; i < n; i++) v[i] = sx_real(nm(p, i).c_str()); }
static double res(const Eigen::VectorXd& v, int o, int n) { double r = v[o] * v[o]; for (int j = 1; j < n; j++) r -= v[o + j] * v[o + j]; return r; }
static bool interior(Cone& c, const Eigen::VectorXd& v, double eps = 0.0) {
  bool in = true;
  for (int i = 0; i < c.sizeLpc(); i++) in = sx_and(in, v[i] > eps);
  for (int l = 0; l < c.numSoc(); l++) in = sx_and(in, sx_and(v[c.startSoc(l)] > eps, res(v, c.startSoc(l), c.sizeSoc(l)) > eps));
  return in;
}
// Jordan product, from its definition
static Eigen::VectorXd jordan(Cone& c, const Eigen::VectorXd& u, const Eigen::VectorXd& v) {
  Eigen::VectorXd w = Eigen::VectorXd::Zero(c.sizeCone());
  for (int i = 0; i < c.sizeLpc(); i++) w[i] = u[i] * v[i];
  for (int l = 0; l < c.numSoc(); l++) { int o = c.startSoc(l), n = c.sizeSoc(l); for (int j = 0; j < n; j++) w[o] += u[o + j] * v[o + j]; for (int j = 1; j < n; j++) w[o + j] = u[o] * v[o + j] + v[o] * u[o + j]; }
  return w;
}
static void eqv(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const char* l) { for (int i = 0; i < a.size(); i++) sx_eq(a[i], b[i], l); }

extern "C" void e_layout() {
  Cone c; shape(c, sx_choose("shape", 0, 4), 2, 1);
  int n = c.sizeLpc(); for (int l = 0; l < c.numSoc(); l++) n += c.sizeSoc(l);
  sx_assert(c.sizeCone() == n && c.sizeProb() == 3 + n && c.sizeConstraints() == 1 + n && c.extSizeProb() == 3 + n + 2 * c.numSoc() && c.extSizeCone() == n + 2 * c.numSoc(), "sizes");
  Vector v; v.initialize(c); ConicVector k; k.initialize(c); ExtendedVector e; e.initialize(c); OptimizationVector o; o.initialize(c);
  bool z = true; for (int i = 0; i < o.size(); i++) z = sx_and(z, o[i] == 0.0); for (int i = 0; i < e.size(); i++) z = sx_and(z, e[i] == 0.0);
  sx_assert(z, "vectors start at zero");
  // distinct parts of the primal-dual vector do not overlap and reads see writes
  Eigen::VectorXd x, y, zz, s; fill(x, 2, "x"); fill(y, 1, "y"); fill(zz, n, "z"); fill(s, n, "s"); double tau = sx_real("tau"), kap = sx_real("kappa");
  o.x() = x; o.y() = y; o.z() = zz; o.s() = s; o.tau() = tau; o.kappa() = kap;
  const OptimizationVector& co = o;
  eqv(o.x(), x, "x"); eqv(o.y(), y, "y"); eqv(o.z(), zz, "z"); eqv(o.s(), s, "s"); sx_eq(o.tau(), tau, "tau"); sx_eq(o.kappa(), kap, "kappa");
  eqv(co.x(), x, "const view x"); eqv(co.y(), y, "const view y"); eqv(co.z(), zz, "const view z"); eqv(co.s(), s, "const view s"); sx_eq(co.tau(), tau, "const view tau"); sx_eq(co.kappa(), kap, "const view kappa");
  for (int l = 0; l < c.numSoc(); l++) for (int j = 0; j < c.sizeSoc(l); j++) { sx_eq(o.zSoc(l)[j], zz[c.startSoc(l) + j], "cone blocks of z"); sx_eq(co.zSoc(l)[j], zz[c.startSoc(l) + j], "const cone blocks of z"); }
  for (int i = 0; i < c.sizeLpc(); i++) sx_eq(o.zLpc()[i], zz[i], "linear block of z");
  OptimizationVector o2 = o + o; eqv(o2.s(), 2.0 * s, "sum"); eqv(o2.x(), 2.0 * x, "sum");
  eqv(o.xyz().tail(n), zz, "xyz"); eqv(o.yz().head(1), y, "yz"); sx_eq(o.yztau()[1 + n], tau, "yztau"); sx_eq(o.xyztau()[3 + n], tau, "xyztau");
  // extended layout
  e.zRtoE(zz);
  int p = c.lpConeStart(); for (int i = 0; i < c.sizeLpc(); i++) sx_eq(e[p + i], zz[i], "extended linear block"); p += c.sizeLpc();
  for (int l = 0; l < c.numSoc(); l++) { for (int j = 0; j < c.sizeSoc(l); j++) sx_eq(e[p++], zz[c.startSoc(l) + j], "extended cone block"); sx_eq(e[p++], 0.0, "extension"); sx_eq(e[p++], 0.0, "extension"); }
  sx_assert(p == e.size(), "extended size");
}
extern "C" void e_product() {
  Cone c; shape(c, sx_choose("shape", 0, 4)); int n = c.sizeCone();
  Eigen::VectorXd u, v, w; fill(u, n, "u"); fill(v, n, "v"); w.resize(n);
  double mu = c.conicProduct(u, v, w); Eigen::VectorXd r = jordan(c, u, v);
  eqv(w, r, "conic product is the Jordan product");
  double m = 0; for (int i = 0; i < c.sizeLpc(); i++) m += fabs(r[i]); for (int l = 0; l < c.numSoc(); l++) m += fabs(r[c.startSoc(l)]);
  sx_eq(mu, m, "conic product reports the complementarity measure");
  ConicVector cu, cv; cu.initialize(c); cv.initialize(c); cu.z() = u; cv.z() = v;
  eqv(cu * cv, r, "operator* on cone vectors"); eqv(cv * cu, r, "product commutes"); eqv(cu + cv, u + v, "operator+"); eqv(-cu, -u, "unary minus");
  double a = sx_real("a"); Eigen::VectorXd e = Eigen::VectorXd::Zero(n); for (int i = 0; i < c.sizeLpc(); i++) e[i] = 1; for (int l = 0; l < c.numSoc(); l++) e[c.startSoc(l)] = 1;
  eqv(jordan(c, u, e), u, "the unit element"); eqv(cu + a, u + a * e, "adding a scalar adds a multiple of the unit element"); eqv(cu - a, u - a * e, "subtracting a scalar"); cu += a; eqv(cu, u + a * e, "in-place scalar");
}
extern "C" void e_division() {
  Cone c; shape(c, sx_choose("shape", 0, 4)); int n = c.sizeCone();
  Eigen::VectorXd u, w, v(n); fill(u, n, "u"); fill(w, n, "w"); sx_assume(interior(c, u, 1e-12));
  v.setZero();
  c.conicDivision(u, w, v);
  eqv(jordan(c, u, v), w, "u o (u \\ w) = w for u in the interior of the cone");
  ConicVector cu, cw; cu.initialize(c); cw.initialize(c); cu.z() = u; cw.z() = w;
  eqv(cu / cw, v, "operator/ divides by its left operand");
}
extern "C" void e_residual() {
  Cone c; shape(c, 3); int n = sx_choose("n", 2, 4); Eigen::VectorXd u, v; fill(u, n, "u"); fill(v, n, "v");
  double r = u[0] * v[0]; for (int i = 1; i < n; i++) r -= u[i] * v[i];
  sx_eq(c.conicResidual(u, v), r, "bilinear residual"); sx_eq(c.conicResidual(u), res(u, 0, n), "quadratic residual");
  double d = Cone::normSoc(u);   // u0 - |u1|
  double t = u[0] - d; double q = 0; for (int i = 1; i < n; i++) q += u[i] * u[i];
  sx_assert(sx_and(t >= 0.0, t * t == q), "distance to the cone boundary is u0 - |u1|");
}
extern "C" void e_projection() {
  Cone c; shape(c, sx_choose("shape", 0, 4)); int n = c.sizeCone();
  Eigen::VectorXd s, t; fill(s, n, "s"); t = s; c.conicProjection(t);
  sx_assert(interior(c, t), "the projected point is strictly inside the cone");
  double k = -1; bool first = true, same = true;
  for (int i = 0; i < c.sizeLpc(); i++) { if (first) { k = t[i] - s[i]; first = false; } same = sx_and(same, t[i] - s[i] == k); }
  for (int l = 0; l < c.numSoc(); l++) { int o = c.startSoc(l); if (first) { k = t[o] - s[o]; first = false; } same = sx_and(same, t[o] - s[o] == k); for (int j = 1; j < c.sizeSoc(l); j++) same = sx_and(same, t[o + j] == s[o + j]); }
  sx_assert(same, "the point moves along the unit element only"); sx_assert(k >= 1.0, "by at least one");
  // never further than needed: some block would leave the cone when moved by k-1 less a bit, unless k == 1
  bool tight = k == 1.0;
  for (int i = 0; i < c.sizeLpc(); i++) tight = sx_or(tight, s[i] + k - 1.0 == 0.0);
  for (int l = 0; l < c.numSoc(); l++) { int o = c.startSoc(l); double a = s[o] + k - 1.0, q = 0; for (int j = 1; j < c.sizeSoc(l); j++) q += s[o + j] * s[o + j]; tight = sx_or(tight, sx_and(a >= 0.0, a * a == q)); }
  sx_assert(tight, "by no more than one plus the largest violation");
}

// Every pair of interior points of a second-order cone is z = zt^2 v, s = sg^2 (2 w w' - J) v with zt, sg > 0 and v, w
// on the unit hyperboloid (w is the normalised Nesterov-Todd point); the hyperboloid is parametrised by the open unit ball.
static Eigen::VectorXd hyper(int n, const char* p) {
  Eigen::VectorXd x(n - 1); double q = 0; for (int i = 0; i < n - 1; i++) { x[i] = sx_real(nm(p, i).c_str()); q += x[i] * x[i]; }
  sx_assume(q < 1.0); Eigen::VectorXd u(n); u[0] = (1.0 + q) / (1.0 - q); for (int i = 1; i < n; i++) u[i] = 2.0 * x[i - 1] / (1.0 - q); return u;
}
static void scalingPoint(Cone& c, Eigen::VectorXd& s, Eigen::VectorXd& z) {
  sx_option("guard_const", 1e-13);
  int n = c.sizeCone(); s.resize(n); z.resize(n);
  for (int i = 0; i < c.sizeLpc(); i++) { s[i] = sx_real(nm("s", i).c_str()); z[i] = sx_real(nm("z", i).c_str()); sx_assume(sx_and(s[i] >= 1e-6, z[i] >= 1e-6)); }
  for (int l = 0; l < c.numSoc(); l++) {
    int o = c.startSoc(l), m = c.sizeSoc(l);
    Eigen::VectorXd w = hyper(m, l ? "w2_" : "w_"), v = hyper(m, l ? "v2_" : "v_"); double sg = sx_real(nm("sg", l).c_str()), zt = sx_real(nm("zt", l).c_str());
    sx_assume(sx_and(sg >= 1e-3, zt >= 1e-3));
    double g = 0; for (int i = 0; i < m; i++) g += w[i] * v[i];
    for (int i = 0; i < m; i++) { z[o + i] = zt * zt * v[i]; s[o + i] = sg * sg * (2.0 * w[i] * g - (i ? -v[i] : v[i])); }
    sx_sqrt_hint(sg * sg); sx_sqrt_hint(zt * zt); sx_sqrt_hint(sg / zt); sx_sqrt_hint(g);
  }
}
static void scaling(int sh) {
  Cone c; shape(c, sh); int n = c.sizeCone();
  Eigen::VectorXd s, z, lam(n), d, wz(n), wwz(n), wd(n), wwd(n); scalingPoint(c, s, z); fill(d, n, "d");
  lam.setZero();
  ConeStatus st = c.updateNTScalings(s, z, lam);
  sx_assert(st == ConeStatus::Inside, "interior points are accepted");
  if (st != ConeStatus::Inside) return;
  c.conicNTScaling(z, wz); eqv(wz, lam, "lambda = W z");
  c.conicNTScaling(wz, wwz); eqv(wwz, s, "W W z = s (W z = W^-1 s)");
  c.conicNTScaling(d, wd); double a = 0, b = 0; for (int i = 0; i < n; i++) { a += wd[i] * z[i]; b += d[i] * wz[i]; }
  sx_eq(a, b, "W is symmetric");
  ConicVector op = c.W() * d; eqv(op, wd, "scaling operator applies W");
  // the sparse extended system used by the KKT matrix represents W^2 once the two extra components per cone are eliminated
  c.conicNTScaling(wd, wwd);
  Eigen::VectorXd x = Eigen::VectorXd::Zero(c.extSizeCone()), y = Eigen::VectorXd::Zero(c.extSizeCone());
  for (int i = 0; i < c.sizeLpc(); i++) x[i] = d[i];
  for (int l = 0; l < c.numSoc(); l++) {
    int o = c.startSoc(l), e = o + 2 * l, m = c.sizeSoc(l); double S = 0;
    for (int i = 0; i < m; i++) x[e + i] = d[o + i];
    for (int i = 1; i < m; i++) S += c.soc(l).scalingSoc(i) * d[o + i];
    x[e + m] = -c.soc(l).v1() * S; x[e + m + 1] = c.soc(l).u0() * d[o] + c.soc(l).u1() * S;
  }
  c.conicNTScaling2(x, y);
  for (int i = 0; i < c.sizeLpc(); i++) sx_eq(y[i], wwd[i], "squared scaling, linear part");
  for (int l = 0; l < c.numSoc(); l++) {
    int o = c.startSoc(l), e = o + 2 * l, m = c.sizeSoc(l);
    for (int i = 0; i < m; i++) sx_eq(y[e + i], wwd[o + i], "squared scaling, cone part");
    sx_eq(y[e + m], 0.0, "first extra row"); sx_eq(y[e + m + 1], 0.0, "second extra row");
  }
}
extern "C" void e_scaling_lp() { scaling(0); }
extern "C" void e_scaling_soc2() { scaling(1); }
extern "C" void e_scaling_soc3() { scaling(2); }
extern "C" void e_scaling_two() { scaling(3); }
extern "C" void e_scaling_outside() {
  sx_option("guard_const", 1e-13);
  int sh = sx_choose("shape", 1, 3); Cone c; shape(c, sh); int n = c.sizeCone();
  Eigen::VectorXd s, z, lam(n); fill(s, n, "s"); fill(z, n, "z"); lam.setZero();
  bool lp = true; for (int i = 0; i < c.sizeLpc(); i++) lp = sx_and(lp, sx_and(s[i] > 0.0, z[i] > 0.0));
  sx_assume(lp);
  int l = c.numSoc() - 1;   // the last cone is violated, the ones before it are at an interior point
  for (int k = 0; k < l; k++) { int o = c.startSoc(k); s[o] = 5; s[o + 1] = 3; z[o] = 13; z[o + 1] = -5; }
  sx_assume(sx_or(res(s, c.startSoc(l), c.sizeSoc(l)) <= 0.0, res(z, c.startSoc(l), c.sizeSoc(l)) <= 0.0));
  sx_assert(c.updateNTScalings(s, z, lam) == ConeStatus::Outside, "points on or outside the boundary are reported");
}
