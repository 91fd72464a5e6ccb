PRE=open("/verif/tools/seeds/pre.txt").read()
S=dict(id="first-guess-wins", property="P27", edits=[("solver/include/solver/interface/OptVar.hpp","      void setGuessValue(const OptMatrix& guess) { guessMat_ = guess.block(0,0,rows_,cols_); guessValueInitialized_ = true; }","      void setGuessValue(const OptMatrix& guess) { if (!guessValueInitialized_) { guessMat_ = guess.block(0,0,rows_,cols_); } guessValueInitialized_ = true; }")],
 needs="a second guess for the same block, e.g. the solution of the second optimization", what="only the first guess of a block is kept, so later solutions are never stored",
 demo_cpp=PRE+'''#include <solver/interface/OptVar.hpp>
int main() { OptimizationVariable v; int n = 0; v.initialize('C', 2, 3, -1.0, 1.0, n); OptimizationVariable::OptMatrix g(2, 3), h; for (int k = 0; k < 3; k++) { for (int i = 0; i < 6; i++) g(i % 2, i / 2) = i + 10 * k; v.setGuessValue(g); v.getGuessValue(h); for (int i = 0; i < 6; i++) if (h(i % 2, i / 2) != g(i % 2, i / 2)) fail("the guess is not the last one set"); } return 0; }
''')
