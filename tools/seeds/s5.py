PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="ldl-absolute-pivot", property="P06", edits=[("solver/src/solver/optimizer/SparseCholesky.cpp","sign[k]*D[k] <= eps_ ? sign[k]*delta_ : D[k];","std::abs(D[k]) <= eps_ ? sign[k]*delta_ : D[k];")],
 needs="a pivot with the wrong sign that is not tiny", what="pivots of the wrong sign are no longer replaced by the regularisation value of the prescribed sign",
 demo_cpp=PRE+'''
#define private public
#include <solver/optimizer/SparseCholesky.hpp>
int main() { SolverSetting st; st.set(SolverDoubleParam_DynamicRegularization, 2e-7); st.set(SolverDoubleParam_DynamicRegularizationThresh, 1e-13);
  Eigen::SparseMatrix<double> A(2, 2); A.insert(0, 0) = 1; A.insert(0, 1) = 2; A.insert(1, 1) = 3; A.makeCompressed(); Eigen::VectorXd sg(2), b(2), x(2); sg << 1, 1; b << 1, 1;
  linalg::SparseCholesky c; c.analyzePattern(A, st); c.factorize(A, sg); c.solve(b, x.data());
  // second pivot 3 - 4 = -1 has the wrong sign: replaced by +2e-7, so (A+E)x = b with E22 = 1 + 2e-7
  double r0 = x[0] + 2 * x[1] - 1, r1 = 2 * x[0] + (4 + 2e-7) * x[1] - 1; std::printf("%g %g\\n", r0, r1); if (std::fabs(r0) > 1e-3 || std::fabs(r1) > 1e-3) fail("regularised system"); return 0; }
''')
