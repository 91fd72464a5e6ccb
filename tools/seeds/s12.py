PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="rtqp-delete-rotation", property="P13", edits=[("solver/include/solver/rt_optimizer/RtQPSolver.hpp","              for (k = j + 1; k < iq; k++) {","              for (k = j + 1; k < iq - 1; k++) {")],
 needs="a constraint dropped from an active set with at least two later constraints, which needs three or more active constraints", what="the last column of the triangular factor is not rotated when a constraint is removed, so later step directions and the returned point are wrong",
 demo_cpp=PRE.replace("static bool close", "#include <solver/rt_optimizer/RtQPSolver.hpp>\nstatic bool close")+'''
int main() { unsigned r = 99; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return 2 * (double)(r >> 8) / (1 << 24) - 1; }; const int N = 4, M = 8; int bad = 0, solved = 0;
  for (int t = 0; t < 3000; t++) { rt_solver::RtQPSolver<N, 0, M> q; auto& b = static_cast<rt_solver::RtQPSolverInterface<N, 0, M>&>(q); q.reset(N, 0, M); Eigen::MatrixXd L(N, N), C(M, N); Eigen::VectorXd g(N), c(M); for (int i = 0; i < N; i++) { g[i] = 5 * rnd(); for (int j = 0; j < N; j++) L(i, j) = rnd(); } for (int i = 0; i < M; i++) { c[i] = -0.1 - std::fabs(rnd()); for (int j = 0; j < N; j++) C(i, j) = rnd(); }
    Eigen::MatrixXd H = L * L.transpose() + 0.3 * Eigen::MatrixXd::Identity(N, N); b.objectiveQuadPart() = H; b.objectiveLinPart() = g; b.ineqConstraintsMat() = C; b.ineqConstraintsVec() = c;
    if (!q.optimize()) { bad++; continue; } solved++; Eigen::VectorXd x = b.solution(); double viol = (C * x + c).maxCoeff(); if (viol > 1e-6) { bad++; continue; }
    // projected-gradient certificate: no feasible descent along the segments to many feasible points
    double f = 0.5 * x.dot(H * x) + g.dot(x); Eigen::VectorXd y = x; Eigen::VectorXd lam = Eigen::VectorXd::Zero(M); Eigen::MatrixXd Hi = H.inverse(), D = C * Hi * C.transpose(); Eigen::VectorXd d = c - C * Hi * g; for (int k = 0; k < 4000; k++) for (int i = 0; i < M; i++) lam[i] = std::max(0.0, lam[i] + (d[i] - D.row(i).dot(lam)) / D(i, i));
    double dual = -0.5 * (g + C.transpose() * lam).dot(Hi * (g + C.transpose() * lam)) + lam.dot(c); if (f > dual + 1e-5 * (1 + std::fabs(f))) bad++; }
  std::printf("%d solved, %d wrong\\n", solved, bad); if (bad) fail("not the minimiser"); return 0; }
''')
