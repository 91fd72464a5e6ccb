PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="strong-wolfe-side", property="P16", edits=[("solver/src/solver/optimizer/LbfgsSolver.cpp","	  if(dg > -param->wolfe * dginit) {","	  if(dg > -dginit) {")],
 needs="the backtracking line search with the strong Wolfe condition and a step beyond the minimum along the direction", what="steps whose slope is up to the initial one in size are accepted as satisfying the strong Wolfe condition",
 demo_cpp=PRE.replace("using namespace solver;", "#include <solver/optimizer/LbfgsSolver.hpp>\nusing namespace solver;")+'''
typedef Eigen::VectorXd VX; static VX x0, g0; static int steps = 0; static double a = 1; static lbfgs_parameter_t p;
static double fun(const VX& v, VX& g) { double f = 0; for (int i = 0; i < v.size(); i++) { double w = 1 + a * i; f += w * v[i] * v[i] + 0.3 * std::pow(v[i], 4); g[i] = 2 * w * v[i] + 1.2 * std::pow(v[i], 3); } return f; }
static double ev(void*, const double* x, double* g, const int n, const double) { VX v = Eigen::Map<const VX>(x, n), h(n); double f = fun(v, h); for (int i = 0; i < n; i++) g[i] = h[i]; return f; }
static int pr(void*, const double* x, const double* g, const double, const double, const double, const double step, int n, int, int) { VX v = Eigen::Map<const VX>(x, n), h = Eigen::Map<const VX>(g, n), d = (v - x0) / step; steps++; if (std::fabs(h.dot(d)) > p.wolfe * std::fabs(g0.dot(d)) * (1 + 1e-6) + 1e-12) { std::printf("a=%g step %d\\n", a, steps); fail("accepted step violates the strong Wolfe condition"); } x0 = v; g0 = h; return 0; }
int main() { for (double w : {0.3, 0.5, 0.7}) for (double k : {0.1, 0.5, 1.0, 3.0}) { a = k; int n = 4; double* x = lbfgs_malloc(n); for (int i = 0; i < n; i++) x[i] = 1.5 - 0.9 * i; x0 = Eigen::Map<VX>(x, n); g0 = VX(n); fun(x0, g0); double f; lbfgs_parameter_init(&p); p.linesearch = LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE; p.wolfe = w; p.max_iterations = 15; lbfgs(n, x, &f, ev, pr, nullptr, &p); } std::printf("%d steps\\n", steps); return steps > 10 ? 0 : 2; }
''')
