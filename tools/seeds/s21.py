exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="via-point-time", property="P22", edits=[(MS+"utilities/TrajectoryGenerator.cpp","                 0.5*(tini+tend), via_position(dir),","                 0.5*tend,        via_position(dir),")],
 needs="a swing that does not begin at time zero", what="the via point is passed at half the final time instead of half way between the two contacts, for later swings even before they begin",
 files=FILES, demo_sh=sh([MS+"utilities/TrajectoryGenerator"]), demo_cpp=HEAD+"#include <momentumopt/utilities/TrajectoryGenerator.hpp>"+END+'''
int main() { for (double t0 : {0.0, 0.5, 2.0}) { TrajectoryGenerator g; V3 a(0.1, 0.2, 0), b(0.4, 0.1, 0.1), v(0.2, 0.2, 0.3); g.initialize(t0, a, t0 + 0.6, b, v); g.update(t0 + 0.3); if ((g.desPos() - v).norm() > 1e-5) fail("via point"); g.update(t0); if ((g.desPos() - a).norm() > 1e-5 || g.desVel().norm() > 1e-5) fail("start"); g.update(t0 + 0.6); if ((g.desPos() - b).norm() > 1e-5 || g.desVel().norm() > 1e-4) fail("end"); } return 0; }
''')
