exec(open("/verif/tools/seeds/mompre.py").read())
S=dict(id="log-map-threshold", property="P21", edits=[(MS+"utilities/OrientationUtils.cpp","    if (std::abs(1.0-normalized_quaternion.w()) < 0.01) {","    if (std::abs(1.0-normalized_quaternion.w()) < 0.05) {")],
 needs="an orientation difference between about 0.3 and 0.6 rad", what="the small-angle formula of the rotation vector is used for angles where it is off by more than one percent",
 files=FILES, demo_sh=sh([MS+"utilities/OrientationUtils"]), demo_cpp=HEAD+"#include <momentumopt/utilities/OrientationUtils.hpp>"+END+'''
int main() { for (double a = 0.02; a < 3.1; a += 0.07) for (int ax = 0; ax < 3; ax++) { V3 e = V3::Zero(); e[ax] = a; V3 r = orientationError(Q(std::cos(a / 2), e[0] / a * std::sin(a / 2), e[1] / a * std::sin(a / 2), e[2] / a * std::sin(a / 2)), Q(1, 0, 0, 0)); if ((r - e).norm() > 0.005 * a) { std::printf("angle %g gives %g\\n", a, r.norm()); return 1; } } return 0; }
''')
