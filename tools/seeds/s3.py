PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="projection-last-cone", property="P04", edits=[("solver/src/solver/interface/Cone.cpp","      if (residual > max_residual) { max_residual = residual; }","      if (residual > 0.0) { max_residual = residual; }")],
 needs="a point that violates two blocks of the cone, the later second-order cone by less than an earlier block", what="the projection shifts by the violation of the last violated second-order cone instead of the largest one and can leave the point outside the cone",
 demo_cpp=PRE+'''
int main() { Cone c; Eigen::VectorXi q(2); q << 3, 2; c.initialize(1, 0, 1, q); Eigen::VectorXd s(6); s << -1, -4, 3, 4, 0, 2;   // violations 1, 9, 2
  Eigen::VectorXd t = s; c.conicProjection(t); double sh = t[0] - s[0]; std::printf("shift %g\\n", sh); if (!close(sh, 10)) fail("shift");
  if (!(t[1] > std::hypot(t[2], t[3]))) fail("outside the first cone"); if (!(t[4] > std::fabs(t[5]))) fail("outside the second cone"); return 0; }
''')
