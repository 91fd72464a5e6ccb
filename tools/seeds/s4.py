PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="scaling-outside-and", property="P05", edits=[("solver/src/solver/interface/Cone.cpp","	  if ( sresidual<=0 || zresidual<=0 ) { return ConeStatus::Outside; }","	  if ( (sresidual<=0 || zresidual<=0) && l==0 ) { return ConeStatus::Outside; }")],
 needs="at least two second-order cones, with a pair that is on or outside the boundary only in a cone after the first", what="pairs outside the second or a later second-order cone are accepted as interior",
 demo_cpp=PRE+'''
int main() { Cone c; Eigen::VectorXi q(2); q << 2, 2; c.initialize(1, 0, 0, q); Eigen::VectorXd s(4), z(4), l(4); s << 2, 1, 1, 1; z << 3, 1, 2, 0;   // second cone: s on the boundary
  if (c.updateNTScalings(s, z, l) != ConeStatus::Outside) fail("boundary point of the second cone accepted"); s << 2, 1, 2, 1; if (c.updateNTScalings(s, z, l) != ConeStatus::Inside) fail("interior"); return 0; }
''')
