// Blocks of optimisation variables: consecutive indices, column by column; bounds and guesses are those given.
#include "common.h"
#define private public
#define protected public
#include <solver/interface/OptVar.hpp>
#undef private
#undef protected
typedef solver::OptimizationVariable OV; typedef OV::OptMatrix M; typedef OV::OptVector V;
static M sm(const std::string& p, int r, int c) { M m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = sx_real((p + std::to_string(i) + "_" + std::to_string(j)).c_str()); return m; }
static V sv(const std::string& p, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = sx_real((p + std::to_string(i)).c_str()); return v; }
static void same(const M& a, const M& b, const char* l) { sx_assert(a.rows() == b.rows() && a.cols() == b.cols(), l); if (a.rows() == b.rows() && a.cols() == b.cols()) for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) sx_eq(a(i, j), b(i, j), l); }
// one of the seven ways of defining a block; the bounds and the guess it must end up with
static void define(OV& v, int form, int r, int c, int& at, const std::string& n, M& lo, M& up, M& g) {
  lo.resize(r, c); up.resize(r, c); g = M::Zero(r, c); if (form == 0 || form == 3 || form == 4) { double a = sx_real((n + "lo").c_str()), b = sx_real((n + "up").c_str()); lo.setConstant(a); up.setConstant(b); if (form == 3) { double q = sx_real((n + "guess").c_str()); g.setConstant(q); v.initialize('C', r, c, a, b, at, q); } else if (form == 4) { g = sm(n + "g", r, c); M q = g; v.initialize('C', r, c, a, b, at, q); } else v.initialize('C', r, c, a, b, at); }
  else if (form == 1 || form == 5) { V a = sv(n + "lo", r), b = sv(n + "up", r); for (int j = 0; j < c; j++) { lo.col(j) = a; up.col(j) = b; } if (form == 5) { g = sm(n + "g", r, c); M q = g; v.initialize('I', r, c, a, b, at, q); } else v.initialize('I', r, c, a, b, at); }
  else { lo = sm(n + "lo", r, c); up = sm(n + "up", r, c); M a = lo, b = up; if (form == 6) { g = sm(n + "g", r, c); M q = g; v.initialize('B', r, c, a, b, at, q); } else v.initialize('B', r, c, a, b, at); } }
extern "C" void e_index() {   // any rows, columns and start: consecutive, in column order, out-of-range indices clamped
  int r = sx_int("rows", 1, 12), c = sx_int("cols", 1, 12), start = sx_int("start", 0, 1000), i = sx_int("row", -2, 14), j = sx_int("col", -2, 14), k = sx_int("row2", 0, 11), l = sx_int("col2", 0, 11); OV v; v.type_ = 'C'; v.rows_ = r; v.cols_ = c; v.indexPosition_ = start; sx_assume(k < r); sx_assume(l < c);
  int id = v.id(i, j), id2 = v.id(k, l); sx_assert(id2 == start + l * r + k, "index of an entry"); sx_assert(sx_and(id2 >= start, id2 < start + r * c), "indices stay inside the block"); int ci = i < 0 ? 0 : i >= r ? r - 1 : i, cj = j < 0 ? 0 : j >= c ? c - 1 : j; sx_assert(id == start + cj * r + ci, "out-of-range entries are clamped"); sx_assert(sx_imp(id == id2, sx_and(ci == k, cj == l)), "different entries have different indices"); sx_assert(v.getNumElements() == r * c, "number of entries"); }
extern "C" void e_define() {   // three blocks in a row
  OV v[3]; M lo[3], up[3], g[3]; int at = sx_choose("start", 0, 2), f0 = sx_choose("form", 0, 6), start = at; int R[] = {2, 3, 1}, C[] = {2, sx_choose("empty", 0, 1) ? 0 : 1, 3}, first[4]; for (int b = 0; b < 3; b++) { first[b] = at; define(v[b], (f0 + b) % 7, R[b], C[b], at, nm("b", b), lo[b], up[b], g[b]); } first[3] = at; sx_assert(at == start + 4 + 3 * C[1] + 3, "blocks take consecutive indices");
  for (int b = 0; b < 3; b++) { M a, u, q; int n; char t; v[b].getValues(a, u, q, n, t); same(a, lo[b], "lower bounds"); same(u, up[b], "upper bounds"); same(q, g[b], "initial guess"); int fo = (f0 + b) % 7; sx_assert(t == (fo == 1 || fo == 5 ? 'I' : fo == 2 || fo == 6 ? 'B' : 'C'), "variable type"); sx_assert(n == R[b] * C[b] && v[b].getNumRows() == R[b] && v[b].getNumCols() == C[b] && v[b].getStartIndex() == first[b] && first[b + 1] == first[b] + n, "size of a block"); if (n) sx_assert(v[b].id(R[b] - 1, C[b] - 1) == first[b + 1] - 1 && v[b].id(0, 0) == first[b], "blocks take consecutive indices"); } }
extern "C" void e_guess() {
  OV v; M lo, up, g; int at = 0, c = 3; define(v, sx_choose("form", 0, 6), 2, c, at, "b", lo, up, g); int again = sx_choose("again", 0, 1); if (again) { M q = sm("n", 3, 4); v.setGuessValue(q); g = q.block(0, 0, 2, c); } M r; v.getGuessValue(r); same(r, g, "guess is the last one set"); int k = sx_choose("column", 0, 2), how = sx_choose("how", 0, 2); V col; v.getGuessValueByCol(k, col); for (int i = 0; i < 2; i++) sx_eq(col[i], g(i, k), "guess by column"); sx_assert(col.size() == 2, "guess by column");
  if (how == 0) v.constraintIndexToCurrentValue(k); else if (how == 1) { double x = sx_real("value"); v.setAndConstraintIndexToCurrentValue(k, x); g.col(k).setConstant(x); } else { V x = sv("value", 2); v.setAndConstraintIndexToCurrentValue(k, x); g.col(k) = x; } lo.col(k) = g.col(k); up.col(k) = g.col(k); M a, u, q; int n; char t; v.getValues(a, u, q, n, t); same(a, lo, "fixed columns have both bounds at the value"); same(u, up, "fixed columns have both bounds at the value"); same(q, g, "guess is the last one set"); }
