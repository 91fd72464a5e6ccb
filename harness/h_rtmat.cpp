// Matrix helpers of the real-time optimizer against their definitions.
#include "common.h"
#include <yaml-cpp/yaml.h>
#include <solver/rt_optimizer/RtMatrix.hpp>
using namespace rt_solver;
template<class Mt> static void sym(Mt& m, const char* p) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = sx_real(nm(p, i, j).c_str()); }
typedef RtMatrix<5, 3>::d MA; typedef RtVector<5>::d VA; typedef RtMatrix<3, 3>::d MQ; typedef RtVector<3>::d VQ;
static void same(double a, double b, const char* l) { sx_eq(a, b, l); }
extern "C" void e_append() {
  int r = sx_choose("rows", 0, 2), a = sx_choose("added", 0, 2), how = sx_choose("how", 0, 3), col = 0; MA A(r, 3), S; VA v(r), t(a); sym(A, "A"); sym(v, "v"); sym(t, "t");
  if (how >= 2) col = sx_choose("column", 0, 1); S.resize(a, how >= 2 ? 2 : 3); sym(S, "S"); MA A0 = A; VA v0 = v;
  if (how == 0) RtAffineUtils::append(A, v, S, t); else if (how == 1) { RtAffineUtils::append(A, v, S); t.setZero(); } else if (how == 2) RtAffineUtils::appendAtColumn(A, v, S, t, col); else { RtAffineUtils::appendAtColumn(A, v, S, col); t.setZero(); }
  sx_assert(A.rows() == r + a && A.cols() == 3 && v.size() == r + a, "sizes after appending"); if (A.rows() != r + a || A.cols() != 3 || v.size() != r + a) return;
  for (int i = 0; i < r; i++) { for (int j = 0; j < 3; j++) same(A(i, j), A0(i, j), "previous rows are kept"); same(v[i], v0[i], "previous constants are kept"); }
  for (int i = 0; i < a; i++) { for (int j = 0; j < 3; j++) { bool in = j >= col && j < col + S.cols(); same(A(r + i, j), in ? S(i, j - col) : 0.0, "appended rows at their column, zero elsewhere"); } same(v[r + i], t[i], "appended constants"); }
  MA B(r, 3); for (int i = 0; i < r; i++) B.row(i) = A0.row(i); if (how < 2) RtMatrixUtils::append(B, S); else RtMatrixUtils::appendAtColumn(B, S, col);
  sx_assert(B.rows() == r + a && B.cols() == 3, "matrix-only append: sizes"); if (B.rows() == r + a && B.cols() == 3) for (int i = 0; i < r + a; i++) for (int j = 0; j < 3; j++) same(B(i, j), A(i, j), "matrix-only append");
}
// rows that are zero go, rows that are not stay, in order, with their constants
static void rowsGone(int which) {
  int r = sx_choose("rows", 1, 4); MA A(r, 3); VA v(r); std::vector<int> keep; 
  for (int i = 0; i < r; i++) { v[i] = sx_real(nm("v", i).c_str()); int k = sx_choose(nm("kind", i).c_str(), 0, 2); A.row(i).setZero(); if (k) { keep.push_back(i); double e = sx_real(nm("e", i).c_str()); sx_assume(k == 1 ? e >= 1e-2 : e <= -1e-2); A(i, i % 3) = e; A(i, (i + 1) % 3) = sx_real(nm("f", i).c_str()); } }
  MA A0 = A; VA v0 = v; if (which == 0) RtAffineUtils::removeZeroRows(A, v); else if (which == 1) RtAffineUtils::removeZeroRows<5, 3>(A, v, 1e-6); else RtMatrixUtils::removeZeroRows<5, 3>(A, 1e-6);
  int k = keep.size(); sx_assert(A.rows() == k && A.cols() == 3 && (which == 2 || v.size() == k), "exactly the zero rows are removed"); if (A.rows() != k || A.cols() != 3 || (which < 2 && v.size() != k)) return;
  for (int i = 0; i < k; i++) { for (int j = 0; j < 3; j++) same(A(i, j), A0(keep[i], j), "remaining rows keep their order and content"); if (which < 2) same(v[i], v0[keep[i]], "remaining constants belong to their rows"); }
}
extern "C" void e_zero_rows() { rowsGone(0); }
extern "C" void e_zero_rows_thresh() { rowsGone(1); }
extern "C" void e_zero_rows_matrix() { rowsGone(2); }
extern "C" void e_add_norm() {   // 1/2 x'Hx + g'x  +  1/2 |Ax + a|_W^2
  int r = sx_choose("rows", 1, 2), n = sx_choose("vars", 1, 3), w = sx_choose("weighted", 0, 3); MQ H(n, n); VQ g(n); MA A(r, n); VA a(r); MQ W = MQ::Identity(r, r); sym(A, "A"); sym(a, "a"); sym(g, "g"); sym(H, "H"); if (w & 1) sym(W, "W"); MQ H0 = H; VQ g0 = g;
  if (w == 0) RtQuadraticUtils::addFromNorm(H, g, A, a); else if (w == 1) RtQuadraticUtils::addFromWeightedNorm(H, g, A, a, W); else if (w == 2) { RtQuadraticUtils::addFromNorm(H, A); a.setZero(); } else { RtQuadraticUtils::addFromWeightedNorm(H, A, W); a.setZero(); }
  for (int i = 0; i < n; i++) { double e = g0[i]; for (int p = 0; p < r; p++) for (int q = 0; q < r; q++) e += A(p, i) * W(p, q) * a[q]; same(g[i], e, "linear part of the added squared norm");
    for (int j = 0; j < n; j++) { double h = H0(i, j); for (int p = 0; p < r; p++) for (int q = 0; q < r; q++) h += A(p, i) * W(p, q) * A(q, j); same(H(i, j), h, "quadratic part of the added squared norm"); } }
}
extern "C" void e_substitute() {   // x = S y + s
  int n = sx_choose("vars", 1, 2), k = sx_choose("newvars", 1, 3), r = sx_choose("rows", 1, 2); MQ H(n, n), S(n, k); VQ g(n), s(n), y(k); sym(H, "H"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) H(i, j) = H(j, i); sym(S, "S"); sym(g, "g"); sym(s, "s"); sym(y, "y");
  MA A(r, n); VA a(r); sym(A, "A"); sym(a, "a"); VQ x(n); for (int i = 0; i < n; i++) { x[i] = s[i]; for (int j = 0; j < k; j++) x[i] += S(i, j) * y[j]; }
  double want = 0, c0 = 0, got = 0; for (int i = 0; i < n; i++) { want += g[i] * x[i]; c0 += g[i] * s[i]; for (int j = 0; j < n; j++) { want += 0.5 * H(i, j) * x[i] * x[j]; c0 += 0.5 * H(i, j) * s[i] * s[j]; } }
  double aff[2]; for (int p = 0; p < r; p++) { aff[p] = a[p]; for (int i = 0; i < n; i++) aff[p] += A(p, i) * x[i]; }
  RtQuadraticUtils::substitute(H, g, S, s); RtAffineUtils::substitute(A, a, S, s);
  sx_assert(H.rows() == k && H.cols() == k && g.size() == k && A.rows() == r && A.cols() == k && a.size() == r, "sizes after substitution"); if (H.rows() != k || H.cols() != k || g.size() != k || A.cols() != k) return;
  for (int i = 0; i < k; i++) { got += g[i] * y[i]; for (int j = 0; j < k; j++) got += 0.5 * H(i, j) * y[i] * y[j]; } same(got + c0, want, "substituted quadratic takes the same values up to its constant");
  for (int p = 0; p < r; p++) { double v = a[p]; for (int j = 0; j < k; j++) v += A(p, j) * y[j]; same(v, aff[p], "substituted affine map takes the same values"); }
}
extern "C" void e_vectors() {
  int r = sx_choose("rows", 0, 2), a = sx_choose("added", 1, 2); VA v(r), t(a); sym(v, "v"); sym(t, "t"); VA v0 = v; RtVectorUtils::append(v, t); sx_assert(v.size() == r + a, "size"); for (int i = 0; i < r + a; i++) same(v[i], i < r ? v0[i] : t[i - r], "vector append");
  double c = sx_real("c"); int n = sx_choose("n", 1, 3), m = sx_choose("m", 1, 3); MQ M(1, 1); M(0, 0) = c; RtMatrixUtils::setZero(M, n, m); bool ok = M.rows() == n && M.cols() == m; sx_assert(ok, "setZero size"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(M(i, j), 0, "setZero");
  RtMatrixUtils::setConstant(M, m, n, c); sx_assert(M.rows() == m && M.cols() == n, "setConstant size"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) same(M(i, j), c, "setConstant"); RtMatrixUtils::setOnes(M, n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(M(i, j), 1, "setOnes");
  RtMatrixUtils::setIdentity(M, n); sx_assert(M.rows() == n && M.cols() == n, "setIdentity size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(M(i, j), i == j, "setIdentity"); RtMatrixUtils::setIdentity(M); sx_assert(M.rows() == 3 && M.cols() == 3, "full size"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) same(M(i, j), i == j, "setIdentity");
  RtVectorUtils::setZero(v); sx_assert(v.size() == 5, "full size"); for (int i = 0; i < 5; i++) same(v[i], 0, "vector setZero"); RtVectorUtils::setConstant(v, 3, c); sx_assert(v.size() == 3, "vector setConstant size"); for (int i = 0; i < 3; i++) same(v[i], c, "vector setConstant");
}
typedef RtMatrix<3, 3>::d Ms; struct Svd : Eigen::JacobiSVD<Ms> { using B = Eigen::JacobiSVD<Ms>; using B::m_singularValues; using B::m_isInitialized; using B::m_info; using B::m_computeFullV; using B::m_matrixV; };
// null space from a decomposition
extern "C" void e_svd() {
  Svd svd; int n = sx_choose("n", 1, 3); VQ sv(n); for (int i = 0; i < n; i++) { sv[i] = sx_real_in(nm("s", i).c_str(), 0, 1000); if (i) sx_assume(sv[i] <= sv[i - 1]); } sx_assume(sv[0] > 1e-3);
  svd.m_singularValues = sv; svd.m_isInitialized = true; svd.m_info = Eigen::Success; svd.m_computeFullV = true; svd.m_matrixV = Ms::Identity(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) svd.m_matrixV(i, j) = sx_real(nm("V", i, j).c_str());
  Ms mat = Ms::Zero(n, 3), K; double th = sx_real_in("threshold", 2, 1e9); int rank = 0; for (int i = 0; i < n; i++) if (rank == i && sx_branch(sx_and(sv[i] > 0, sv[0] <= th * sv[i]))) rank++;
  sx_option("div0_exclude", 1); int r = RtMatrixUtils::computeNullspaceMap(mat, K, static_cast<const Svd::B&>(svd), th); sx_assert(r == rank, "rank counts the singular values within the condition threshold"); sx_assert(K.rows() == 3 && K.cols() == 3 - rank, "null space has the complementary dimension"); if (K.cols() != 3 - rank) return;
  for (int i = 0; i < 3; i++) for (int j = 0; j < K.cols(); j++) same(K(i, j), svd.m_matrixV(i, rank + j), "null space is spanned by the last right singular vectors");
}
