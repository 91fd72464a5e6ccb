PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="centering-step-key", property="P40", edits=[("solver/src/solver/interface/SolverSetting.cpp",'max_centering_step_ = solver_vars["max_centering_step"].as<double>();','max_centering_step_ = solver_vars["max_step_length"].as<double>();')],
 needs="a file whose largest centering step differs noticeably from its largest step length (they are 1.0 and 0.999 in the default file)", what="the largest centering step is read from the key of the largest step length",
 demo_cpp=PRE+'''
#include <cstdlib>
#include <cstring>
#include <unistd.h>
int main() { char dir[] = "/tmp/demoXXXXXX"; if (!mkdtemp(dir)) return 2; std::string f = std::string(dir) + "/s.yaml"; std::ifstream in("/repo/momentumopt/config/default_solver_setting.yaml"); std::stringstream t; t << in.rdbuf(); std::string s = t.str(); auto p = s.find("max_centering_step:"); auto q = s.find("\\n", p); s = s.substr(0, p) + "max_centering_step: 0.5" + s.substr(q); { std::ofstream o(f); o << s; } SolverSetting g; g.initialize(f); double v = g.get(SolverDoubleParam_MaximumCenteringStep), w = g.get(SolverDoubleParam_MaximumStepLength); unlink(f.c_str()); rmdir(dir); if (v != 0.5 || w != 0.999) fail("centering step is not the one of the file"); return 0; }
''')
