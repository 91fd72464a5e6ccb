"""Properties: single source for properties.jsonl, MANIFEST.json (bin/gen)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="symbolic execution of LLVM bitcode + SMT (z3), native replay", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))


SI = "solver/src/solver/interface/"; SO = "solver/src/solver/optimizer/"
prop("P01", "Variables keep their bounds, clamped guess and shared value",
     "A variable is accepted exactly when its lower bound does not exceed its upper bound, gets the next column index, and starts at its initial guess clamped to the bounds. Copies of a variable handle share one value, setting one attribute leaves the others as they were, and reading a variable that was never created by a model is rejected with an error.",
     ["inputs", "histories"], "All real bounds and guesses, both variable types, two successive additions, verbose on and off.",
     "Tests add variables with a few literal bounds and never a guess outside them.",
     [SI + "Model.cpp", SI + "Var.cpp"], [("clamping and validation of new variables", SI + "Model.cpp Model::addVar"), ("shared variable storage", SI + "Var.cpp")],
     observe=["Model::addVar", "Var::get"])
prop("P02", "Expression arithmetic preserves the value of the expression",
     "Every arithmetic operation on variables and linear expressions (sum, difference, negation, scaling, division, constants on either side, in-place forms, cleaning, also of an expression with itself) yields an expression whose value at any assignment is that operation applied to the operands' values, lists each variable at most once, and leaves its operands unchanged. A quadratic expression evaluates to the weighted sum of its squared terms, accumulates its linear part, drops terms with zero weight, and is zero once cleared.",
     ["inputs", "histories"], "All real coefficients and assignments over three variables, up to three terms per operand with repetitions, all sequences of three in-place operations.",
     "Tests evaluate a handful of literal expressions; cancellation, repeated variables and zero factors are input dependent.",
     [SI + "Exprs.cpp"], [("linear expression operators", SI + "Exprs.cpp LinExpr"), ("quadratic terms", SI + "Exprs.cpp DCPQuadExpr")], observe=["LinExpr::getValue", "DCPQuadExpr::getValue"])
prop("P03", "The standard conic form is equivalent to the modelled problem",
     "The standard conic form built for a model has exactly the modelled feasible set projected onto the user's variables, for linear (in)equalities, convex quadratic, second-order-cone and binary constraints in any mixture and order of addition, and its cost minimised over the auxiliary variables equals the modelled objective up to its constant. Non-convex quadratic constraints are represented by their convex side plus, from the current point, the linearised lower bound with the trust region of the iteration, or plus a penalty of the configured weight on the squared linearised violation. Setting the objective again replaces it, and constraints with an unsupported sense are rejected without any effect.",
     ["inputs", "configurations", "programs"], "All real coefficients, constants and points; two or three user variables, up to three constraints of each kind, three orders of addition, trust-region iteration 0-2.",
     "Tests solve a few literal problems to numerical optima; equivalence over all coefficients is never exercised.",
     [SI + "ConicProblem.cpp"], [("building the matrices", SI + "ConicProblem.cpp buildProblem")], observe=["matrices A, G, b, h, c handed to the solver"])
prop("P04", "Cone algebra: product, division, projection and vector layout",
     "On products of the nonnegative orthant and second-order cones, the cone product is the Jordan product, division inverts it for a left operand in the cone's interior, and adding a scalar adds that multiple of the unit element. Moving a point into the cone shifts it along the unit element only, by one plus its largest violation, and leaves it strictly inside. The named parts of the primal-dual, conic and extended vectors are disjoint, and reading a part (also through a const object) returns what was written to it.",
     ["inputs", "configurations"], "All real vectors over five cone shapes (up to two linear entries and up to two second-order cones of sizes 2-3, sizes 2-4 for residuals).",
     "Tests only see cones through complete solves; single operations over all vectors are not reached.",
     [SI + "Cone.cpp", "solver/include/solver/interface/Cone.hpp"], [("cone product and division", "Cone.cpp conicProduct/conicDivision"), ("projection", "Cone.cpp conicProjection"), ("vector views", "Cone.hpp")])
prop("P05", "Scalings map the slack and the multiplier to one scaled point",
     "For every pair of points in the interior of the cone, the computed scaling is a symmetric linear map that takes the multiplier to the scaled point and the scaled point to the slack, and the pair is accepted. The sparse extended form used in the linear systems represents exactly the square of that map once its extra components are eliminated. Pairs with a second-order-cone block on or outside the boundary are reported as outside.",
     ["inputs", "configurations"], "All pairs of interior points (rational parametrisation of the cone) on which no safe-division guard triggers, and all boundary or exterior points, for cones up to two linear entries and two second-order cones of size 2-3 (thorough: size 4).",
     "The scalings are recomputed in every iteration for points no test fixes in advance.",
     [SI + "Cone.cpp"], [("scaling update", "Cone.cpp updateNTScalings"), ("scaling application", "Cone.cpp conicNTScaling, conicNTScaling2")])
prop("P06", "Sparse LDL' factorisation solves the (regularised) symmetric system",
     "Factorising a symmetric matrix given by its upper triangle and solving with it yields the exact solution of the system whenever every pivot has its prescribed sign and exceeds the regularisation threshold. Otherwise exactly the offending pivots are replaced by the regularisation value with the prescribed sign, and the returned vector solves that perturbed system. Both solve functions agree and a factorisation can be repeated on the same object.",
     ["inputs", "configurations"], "All real entries, right-hand sides and both prescribed signs: dense 2x2 matrices with any pivots; all sparsity patterns for n = 3 and 4 and five patterns for n = 5 with pivots above the threshold.",
     "Tests never call the factorisation directly; fill-in and regularisation depend on values and patterns.",
     [SO + "SparseCholesky.cpp"], [("symbolic analysis", SO + "SparseCholesky.cpp analyzePattern"), ("numeric factorisation with dynamic regularisation", SO + "SparseCholesky.cpp factorize")])
prop("P07", "The KKT system assembled and solved is the one of the interior-point step",
     "The matrix that is factorised is the permuted upper triangle of the regularised KKT matrix of the problem data and the current scaling, with two extra rows per second-order cone; after any sequence of scaling updates and resets it holds exactly the current values. The direction returned by the solve satisfies the KKT equations A'dy + G'dz = bx, A dx = by, G dx - W^2 dz = bz (identity in place of W^2 at initialisation) up to the configured regularisation.",
     ["inputs", "configurations", "histories"], "All real data and scalings for five problem shapes (matrix); for linear cones all data, right-hand sides and refinement counts 0-2; for second-order cones fixed data and every right-hand side in a box.",
     "The tests only see the final optimum, which tolerates wrong entries in single iterations.",
     [SO + "LinSolver.cpp"], [("assembly", SO + "LinSolver.cpp buildProblem"), ("scaling update", SO + "LinSolver.cpp updateMatrix, initializeMatrix"), ("iterative refinement", SO + "LinSolver.cpp solve")])
prop("P08", "Equilibration is an exactly reversible change of variables",
     "Equilibration multiplies rows and columns of the data by positive factors, uses one factor per second-order cone, scales the cost and right-hand sides consistently, and removing it restores the data. Un-scaling a point divided by its homogenising variable maps residuals and duality gap of the scaled problem to those of the original problem.",
     ["inputs", "configurations"], "All real data (nonzero equality coefficients) for small LP, SOC and mixed shapes with 0-2 equilibration rounds; all iterates and positive factors for un-scaling.",
     "Tests compare final optima at loose tolerances on well-scaled problems.",
     [SO + "EqRoutine.cpp"], [("Ruiz equilibration", SO + "EqRoutine.cpp ruizEquilibration"), ("back substitution", SO + "EqRoutine.cpp scaleVariables, unsetEquilibration")])

prop("P09", "A solver status is backed by the measures of the returned point",
     "The statistics the interior-point solver records for an iterate (costs, gaps, primal and dual residuals, infeasibility measures) equal their definitions on that iterate. Optimal, PrimalInf, DualInf and their reduced-accuracy versions are returned only when the recorded measures of the returned point meet the corresponding configured tolerances (full or reduced), and the check changes neither the iterate nor its record.",
     ["inputs", "histories"], "All iterates of small LP, equality and SOC problems; all recorded measures; whole runs of 1, 4 and 60 iterations on five fixed problems for every choice of the six tolerances and an optional failing factorisation.",
     "Tests solve a few feasible problems with default tolerances and only look at the optimum.",
     [SO + "IPSolver.cpp"], [("statistics", SO + "IPSolver.cpp computeResiduals, updateStatistics"), ("termination", SO + "IPSolver.cpp convergenceCheck, optimize"), ("best iterate", SO + "IPSolver.cpp saveIterateAsBest, restoreBestIterate")])
prop("P10", "Interior-point steps stay in the cone and shrink all residuals alike",
     "The line search returns a step within the configured limits; unless it hit the lower limit, moving the scaled slacks and multipliers and the homogenising variables tau and kappa by that step keeps them in the cone. With exact linear algebra one iteration scales the primal, dual and gap residuals by the same factor 1 - step (1 - centering).",
     ["inputs"], "All directions and all scaled points for linear cones of 2; all directions from fixed points for SOC of 2 and 3; all tau, kappa and their directions; Newton steps for a one-variable LP over a free cost or right-hand side.",
     "Tests never look at single steps; a step leaving the cone is only visible as an occasional failure to converge.",
     [SO + "IPSolver.cpp"], [("line search", SO + "IPSolver.cpp lineSearch"), ("predictor-corrector", SO + "IPSolver.cpp rhsAffineStep, rhsCenteringPredictorStep, optimize")])
BNBA = [SO + "BnBSolver.cpp", SO + "NcvxBnBSolver.cpp", SI + "Model.cpp"]
prop("P11", "Branch and bound returns the best integral solution it can certify",
     "Given exact conic subproblem answers, a model with binaries returned as Optimal yields binaries that are exactly integral, a feasible assignment, the solution of its own subproblem and its cost, and no other feasible assignment is better by more than the configured absolute gap; PrimalInf is returned only if no assignment is feasible. When the node limit stops the search, the best solution seen so far is returned and is never reported as infeasible; this holds for the convex and the trust-region (nonconvex) variant.",
     ["inputs", "histories"], "All costs of up to two binaries with any feasible subset of assignments, relaxations answered arbitrarily but consistently (fractional, integral or infeasible), node limits 1 to 10, absolute gap 0.5.",
     "The tests contain one mixed-integer problem; wrong pruning, lost incumbents or scaled bounds only show for particular cost and feasibility patterns.",
     BNBA, [("node bounds", SO + "BnBSolver.cpp updateNodeBounds"), ("branching", SO + "BnBSolver.cpp createBranches, selectNodeToExplore, updateProblemData"), ("nonconvex variant", SO + "NcvxBnBSolver.cpp")])
prop("P12", "One conic solve per requested pass; the last solution is written back",
     "Optimising a continuous model performs one conic solve for the warm start (only with trust-region or soft constraints), one for the main solve (if the iteration limit is positive) and one per requested refinement, returns the status of the last solve, and afterwards every user variable holds its own column of the last solution while initial guesses stay as given. When nothing is solved the status is Indeterminate and the guesses are kept.",
     ["configurations", "inputs", "histories"], "All combinations of constraint kind, warm start, 0-2 refinements and main solve on/off, arbitrary solutions and statuses of each pass, three variables.",
     "Tests use one configuration and a well-posed problem per kind.",
     [SI + "ConicProblem.cpp", SI + "Model.cpp"], [("passes", SI + "ConicProblem.cpp optimize"), ("write-back", SI + "ConicProblem.cpp solveProblem")])

RT = "solver/include/solver/rt_optimizer/"
prop("P13", "Real-time QP solver returns the optimum or correctly says infeasible",
     "For a strictly convex QP with linearly independent equality rows, the dual active-set solver always terminates without touching memory outside its arrays. If it reports success, the returned point satisfies every equality and inequality up to a small tolerance and is the minimiser (multipliers of the right sign exist); if it reports failure, no point satisfies all constraints strictly. The answer and isOptimized() agree, and the same solver object can be reused for further problems, also after a failed or degenerate one.",
     ["inputs", "histories"], "1 to 3 variables, up to 3 constraints of every mix of equalities and inequalities, arbitrary right-hand sides and linear costs, fixed well-conditioned and nearly dependent rows, symbolic rows in the smallest cases; three 4-dimensional polyhedra of 8 faces with costs in a plane.",
     "Tests solve a handful of hierarchies; dropped constraints, blocked steps and dependent rows depend on the right-hand sides.",
     [RT + "RtQPSolver.h", RT + "RtQPSolver.hpp"], [("active set iterations", RT + "RtQPSolver.h optimize"), ("adding and deleting constraints", RT + "RtQPSolver.h addConstraint, deleteConstraint")], observe=["RtQPSolver::optimize", "RtQPSolver::solution", "RtQPSolver::isOptimized"])
prop("P14", "Fixed-capacity matrix helpers do what their names say",
     "Appending puts the new rows or columns after the old ones and changes nothing else. Removing zero rows deletes exactly the rows whose entries are all zero (or below the threshold) and keeps the other rows, with their constants, in order. addFromNorm adds A'A and A'b to a quadratic cost, substituting x = Nz + x0 into an affine map gives the same values, and the computed null-space map is an orthonormal basis of the null space of a well-conditioned matrix.",
     ["inputs"], "Matrices up to 4 by 3 with arbitrary entries and every zero-row pattern.",
     "Tests reach these helpers only through three hierarchies without zero rows.",
     [RT + "RtMatrix.hpp"], [("row and column helpers", RT + "RtMatrix.hpp RtMatrixUtils, RtVectorUtils, RtAffineUtils, RtQuadraticUtils")])
prop("P15", "Hierarchical solver respects strict priorities",
     "Solving a hierarchy of linear equality and inequality tasks leaves the equality residuals of higher priorities unchanged and never increases their inequality violations (up to the solver's relaxation), and among the points doing so each priority minimises the squared norm of its own equality residuals and inequality violations. This holds whichever way the singular-value thread and the main thread interleave. The rows a model hands over for a rank are the differences of the two sides of the constraints of that rank with '>' turned around, columns of unused variables are dropped with the others kept in order, unknown senses are rejected, and a rank declared without slacks is solved exactly by the least-norm step.",
     ["inputs", "schedules", "histories"], "Two variables, up to three priorities (nine for a repeated row) with fixed rows and arbitrary right-hand sides in [-10,10], including contradicting inequalities; both thread schedules; models with up to two expression constraints over all senses, ranks and shapes.",
     "The tests compare three fixed hierarchies with stored numbers; violations of higher priorities show only when inequalities conflict and later priorities push on them.",
     [RT + "RtHQPSolver.h", RT + "RtModel.h"], [("task recursion", RT + "RtHQPSolver.h solveNextTask"), ("singular values in a second thread", RT + "RtHQPSolver.h doSVDComputations"), ("row assembly", RT + "RtModel.h addCostsToHierarchy, reduceColumns, solve")], observe=["RtHQPSolver::solution", "RtModel::solve"])

prop("P16", "L-BFGS only accepts sufficient decrease and reports its status truthfully",
     "For any objective, lbfgs() ends with the last accepted point (the start if none), every accepted step is a descent direction with sufficient decrease (and the curvature condition of the chosen line search), so the result is never worse than the start. Success and already-minimised are returned only if the gradient norm is at most epsilon times max(1, norm of x), iteration and line-search limits are kept, a nonzero progress code stops at once and is returned, and invalid parameters are rejected before anything is evaluated. Search directions after the first are those of the limited-memory inverse Hessian; the solver class minimises objective plus weight times squared bound violations and its gradient is exact for quadratics.",
     ["inputs", "histories"], "One variable with every objective and gradient value at every evaluation (values in [-100,100], gradients in [-10,10]), up to 3 iterations with 1-2 trials each, all four line searches (objectives with zero curvature along an accepted step excluded), each kind of invalid parameter; directions for two variables, memory 1-3, up to 3 updates; penalty for two variables and one constraint with all values.",
     "Tests minimise three smooth functions; failing line searches, cancellation, limits and wrong memory wrap-around do not occur or are hidden by later iterations.",
     [SO + "LbfgsSolver.cpp"], [("iterations and stopping", SO + "LbfgsSolver.cpp lbfgs"), ("line searches", SO + "LbfgsSolver.cpp line_search_backtracking, line_search_morethuente"), ("penalty", SO + "LbfgsSolver.cpp LbfgsSolver::evaluate")], observe=["lbfgs", "LbfgsSolver::optimize"])

LQ = "solver_lqr/src/solver_lqr/"
prop("P17", "LQR rollouts follow the dynamics, the control law, its limits and costs",
     "Applying a controller starts from the first nominal state, applies nominal feedforward plus feedback times the deviation from the nominal state, clamps each control to its limits when limits are on, advances by the Euler or classical Runge-Kutta step, and reports the cost of every step, the terminal cost with zero control, their sum, and divergence iff a state after the first exceeds the limit; nominal sequences and the problem's own trajectory stay unchanged. Adding control sequences adds feedforward terms and takes the feedback of the right operand, scaling leaves feedback alone, the gradient norm is the time average of the largest relative feedforward change, and (re)initialising a problem gives zero sequences of exactly the requested lengths.",
     ["inputs", "histories"], "1-2 states, 1-2 controls, horizons of 1-2 steps, arbitrary linear or quadratic dynamics, quadratic costs, controllers, limits and divergence limits.",
     "No stable test runs this package; its own test compares one two-link arm problem.",
     [LQ + "ForwardPass.cpp", LQ + "OcpDescription.cpp"], [("rollout", LQ + "ForwardPass.cpp applyController"), ("integration", LQ + "OcpDescription.cpp internal_dynamics"), ("sequence algebra", LQ + "OcpDescription.cpp ControlSequence")], observe=["ForwardPass::applyController", "OcpBase::internal_dynamics"])
prop("P18", "Finite differences are exact for quadratic costs and dynamics",
     "For costs and dynamics of degree two, the computed gradients, Jacobians and Hessians of every step (terminal cost with zero control) equal the analytic ones, for exactly the derivatives that were requested, without changing the nominal trajectory. Initialising the same object for another problem makes it differentiate that problem.",
     ["inputs", "histories"], "1-2 states, 1-2 controls, 1-2 steps, all coefficients and nominal trajectories arbitrary; second dynamics derivatives with no more controls than states.",
     "A swapped perturbation shows only in mixed terms of asymmetric problems, which no test has.",
     [LQ + "FiniteDifferences.cpp"], [("first derivatives", LQ + "FiniteDifferences.cpp computeDynamicsFirstDerivatives, computeObjectiveFirstDerivatives"), ("second derivatives", LQ + "FiniteDifferences.cpp computeDynamicsSecondDerivatives, computeObjectiveSecondDerivatives")], observe=["FiniteDifferences::cx", "FiniteDifferences::fx", "FiniteDifferences::computeDerivatives"])
prop("P19", "Backward pass solves the linear-quadratic problem, or reports indefiniteness",
     "For arbitrary quadratic cost and linear dynamics data, going backwards from the terminal cost, the returned feedforward and feedback minimise the regularised quadratic model of each step, and value, value gradient and value Hessian are those of that law. The pass is reported as diverged, with the time step, iff the (regularised) control Hessian of a step is not positive definite, and a later call with other data or regularisation starts afresh. With control limits, the step is the minimiser handed back by the conic solver for 1/2 v'Hv + g'v subject to exactly the limits on nominal control plus v, and feedback rows of controls within 0.01 of a limit are zero.",
     ["inputs", "histories"], "One control with 1-2 states over 1-2 steps and arbitrary data; two controls with fixed or partly symbolic Hessians and arbitrary other data; retry and re-initialisation histories; the conic solver answers the limited problem with an arbitrary feasible point.",
     "No stable test runs this package; sign or transpose errors still converge on easy problems through the line search.",
     [LQ + "BackwardPass.cpp"], [("Riccati recursion", LQ + "BackwardPass.cpp optimizeController"), ("limits", LQ + "BackwardPass.cpp findConstrainedControls")], observe=["BackwardPass::optimizeController", "BackwardPass::controlSeq"])
prop("P20", "LQR iterations only accept improvements and end with the accepted trajectory",
     "optimize() first takes the first scaled initial controller whose rollout stays bounded (and stops, leaving the trajectory alone, if none does), then repeats derivatives (only after a change), backward passes with growing regularisation until one succeeds or the maximum is passed, and a line search over current controls plus scaled update that accepts the first bounded rollout with lower cost. The problem's trajectory and the reported cost are always those of the last accepted rollout, iteration and regularisation limits are kept, and it stops when the control update or the cost change is below its tolerance. Settings read from a file end up in the parameter of that name (line search coefficients c^-(i^2), floor(horizon/step) steps), changing one parameter changes no other, a stored solution contains exactly the trajectory, and loading restores the feedback.",
     ["inputs", "histories"], "Arbitrary answers of the three passes (any bounded cost, any divergence pattern, small or large updates) for 1-3 iterations and 1-2 line search coefficients; all values of the settings read; one stored trajectory with arbitrary entries.",
     "No stable test runs this package; rejected steps, failed factorisations and divergence do not occur in its own test.",
     [LQ + "SolverLqr.cpp", LQ + "SolverLqrSetting.cpp"], [("iterations", LQ + "SolverLqr.cpp optimize"), ("files", LQ + "SolverLqr.cpp storeSolution, loadSolution"), ("settings", LQ + "SolverLqrSetting.cpp initialize, get")], observe=["SolverLqr::optimize", "SolverLqrSetting::get"])

MU = "momentumopt/src/momentumopt/utilities/"
prop("P21", "Orientation error and angular velocity integration agree with rotations",
     "orientationError is the rotation vector (world coordinates, angle below pi) that takes the current orientation to the desired one, whatever the sign and scale of the quaternions, up to 2e-3 for small angles. requiredAngularVelocity is that rotation vector divided by the time, or the same vector in body coordinates, and integrating an angular velocity given in world or body coordinates turns the orientation by rate times time about its axis.",
     ["inputs"], "Every rotation angle up to 3 rad about six directions (also by tenths with sine and cosine bounded to the angle), every current orientation about two or three axes, scaled and negated quaternions, both frames, two time steps.",
     "No test calls these functions; a wrong frame or Jacobian only shows away from the identity.",
     [MU + "OrientationUtils.cpp"], [("logarithm and exponential", MU + "OrientationUtils.cpp logarithmicMap, exponentialMap"), ("angular velocities", MU + "OrientationUtils.cpp requiredAngularVelocity, integrateAngularVelocity")], observe=["orientationError", "requiredAngularVelocity", "integrateAngularVelocity"])
prop("P22", "Way-point trajectories meet their way-points smoothly and stay finite",
     "A generated trajectory starts and ends at the given positions with zero velocity and acceleration, passes the via-point halfway, holds the end values outside its time span, and its velocity and acceleration are the first and second derivatives of its position, also when the object is reused. An interpolator meets every position, velocity and acceleration constraint it was given, including at time zero.",
     ["inputs", "histories"], "Arbitrary way-points in [-10,10] over three time spans (one starting at zero, one containing zero), three interior times, four sets of 4-6 constraints with arbitrary values.",
     "No test calls these classes; terms that are 0/0 at time zero never occur elsewhere.",
     [MU + "TrajectoryGenerator.cpp"], [("constraints", MU + "TrajectoryGenerator.cpp Interpolator::initialize"), ("evaluation", MU + "TrajectoryGenerator.cpp Interpolator::interpolate"), ("generator", MU + "TrajectoryGenerator.cpp TrajectoryGenerator")], observe=["TrajectoryGenerator::update", "Interpolator::interpolate"])

CO = "momentumopt/src/momentumopt/cntopt/"; DO = "momentumopt/src/momentumopt/dynopt/"; SE = "momentumopt/src/momentumopt/setting/"
prop("P23", "Contact plans are read completely and turned into the right activations",
     "Every contact, via-point and initial-state entry of a plan file ends up, in order and with consecutive ids, in the end-effector and field it was written for. Filling a dynamics sequence marks an end-effector active at a time step exactly when one of its contacts covers that time, with that contact's pose, type and ids and consecutive slots for the force variables. Loading another plan or filling a sequence that was filled before leaves nothing of the earlier one behind.",
     ["inputs", "histories"], "Up to two contacts and via-points per end-effector with arbitrary numbers, arbitrary initial states, fixed patterns of contact intervals over up to four steps, two plans in a row.",
     "No stable test loads a plan; stale activations show only when a sequence is filled twice.",
     [CO + "ContactPlanFromFile.cpp", CO + "ContactPlanInterface.cpp", CO + "ContactState.cpp", DO + "DynamicsState.cpp"],
     [("reading plans", CO + "ContactState.cpp ContactSequence::loadFromFile, ViapointSequence::loadFromFile"), ("activations", CO + "ContactPlanInterface.cpp fillDynamicsSequence"), ("initial state", DO + "DynamicsState.cpp fillInitialRobotState")], observe=["ContactPlanInterface::contactSequence", "DynamicsSequence::dynamicsState"])
prop("P24", "Swing motions link consecutive contacts through their via-points",
     "Between two contacts of an end-effector, its position, velocity and acceleration follow the trajectory from the end of the earlier contact through the via-point to the beginning of the next one, and its orientation turns from the first contact's to the next one's. After the last contact the end-effector moves to its initial position displaced by the centre-of-mass displacement; while in contact it rests at the contact. Other end-effectors are left alone.",
     ["inputs"], "Nine schedules of up to two contacts and flight phases of at least two steps; way-points, initial positions and the motion between way-points arbitrary; a via-point for every flight phase and an initial activation that agrees with the plan.",
     "No stable test generates swing motions from a plan; a shifted interval or a wrong via-point index still gives smooth motion.",
     [CO + "ContactPlanInterface.cpp"], [("flight phases", CO + "ContactPlanInterface.cpp updateEndeffectorTrajectories, generateFlightPhase")], observe=["ContactPlanInterface::updateEndeffectorTrajectories"])
prop("P25", "Terrain regions contain exactly their polygon",
     "The half-spaces of a terrain region contain a point of the region's plane exactly when it lies in the polygon of its vertices. The region's orientation is a rotation whose third direction is the unit normal of that plane, and a terrain file yields all of its regions in order.",
     ["inputs"], "Triangles and parallelograms of arbitrary size and origin, three tilts, arbitrary test point; files with up to two regions.",
     "No stable test builds a terrain region.",
     [CO + "TerrainDescription.cpp"], [("half-spaces", CO + "TerrainDescription.cpp TerrainRegion::initialize"), ("file", CO + "TerrainDescription.cpp loadFromFile")], observe=["TerrainRegion::terrainDescriptionMatrix"])
prop("P26", "Planner settings hold what the file says, each under its own name",
     "After initialize, every planner parameter has the value written under its key (with the documented derived values such as the number of time steps), for each combination of optional sections, also when the object is initialised again from another file. get returns the value of the named parameter, writing through it changes this parameter and no other, and a missing key or unknown parameter is reported rather than silently defaulted.",
     ["inputs", "histories", "configurations"], "All real-valued and vector parameters arbitrary; finite patterns of booleans, counts and horizons; two files in a row.",
     "No test reads settings back; two swapped keys of the same type go unnoticed.",
     [SE + "PlannerSetting.cpp"], [("reading", SE + "PlannerSetting.cpp initialize"), ("access", SE + "PlannerSetting.cpp get")], observe=["PlannerSetting::initialize", "PlannerSetting::get"])
prop("P27", "Optimization variable tables map every entry to its own solver variable",
     "Blocks of optimization variables take consecutive, disjoint index ranges; every (row, column) has its own index inside its block, column by column, and rows or columns out of range are clamped. Whichever of the seven forms defines a block, its bounds, guess, size and type are the given ones, guesses are the last ones set, and fixing a column sets both its bounds to the guess.",
     ["inputs"], "Indices for all sizes up to 12 by 12; three blocks in a row of each form with arbitrary bounds, guesses and values.",
     "The stable tests use no optimization variable tables.",
     ["solver/include/solver/interface/OptVar.hpp", SI + "OptVar.cpp"], [("indices", "solver/include/solver/interface/OptVar.hpp id, getRowBndInd, getColBndInd"), ("bounds and guesses", SI + "OptVar.cpp initialize")], observe=["OptimizationVariable::initialize", "OptimizationVariable::setGuess"])
prop("P28", "Motion plans obey centroidal dynamics, friction, torque and kinematic limits",
     "The constraints handed to the solver hold for exactly the physically meant motions: centre of mass, linear and angular momentum follow from the previous step by the contact forces, contact torques and gravity, and end-effectors out of contact exert nothing. Each contact force lies in the friction cone of its contact frame (flat contacts), the centre of pressure and contact torque stay in their ranges, legs do not exceed their reach and the centre of mass keeps its minimum height. The convex relaxation of the angular momentum is exact at equality and relinearised around the stored solution in later passes.",
     ["inputs", "configurations", "histories"], "1-3 steps, up to three contacts in eight schedules and fixed contact orientations, both friction cones, all heuristics; arbitrary states, weights, limits, contact positions and solver point, forces up to 1000 times the weight; second passes around two fixed points.",
     "The stable tests do not run the planner at all; a constraint that is missing or has a wrong sign can be inactive in any single plan.",
     [DO + "DynamicsOptimizer.cpp"], [("constraints", DO + "DynamicsOptimizer.cpp internalOptimize"), ("contact location", DO + "DynamicsOptimizer.cpp contactLocation")], observe=["DynamicsOptimizer::optimize"])
prop("P29", "The planner minimises the weighted sum of its documented cost terms",
     "The objective of every solve is the sum of each setting weight times the squared quantity the weight is named after, at every time step: momenta and their rates, final momenta, final displacement of the centre of mass, via-points, tracking of a kinematic reference, forces and their changes, time steps, and the angular momentum bounds. Weights of inactive contacts, disabled heuristics and absent references contribute nothing.",
     ["inputs", "configurations", "histories"], "The scenarios of P28, all weights and references and the evaluation point arbitrary; second passes included.",
     "The stable tests do not run the planner; a dropped or duplicated cost term still gives a plausible plan.",
     [DO + "DynamicsOptimizer.cpp"], [("objective", DO + "DynamicsOptimizer.cpp internalOptimize, updateTrackingObjective")], observe=["DynamicsOptimizer::optimize"])
prop("P30", "Plans read back are the optimised ones and satisfy the dynamics",
     "After optimize, the stored sequence holds the solver's centre of mass and momenta, with contact forces, centres of pressure and torques in world units, and the angular momentum (and, with optimised timing once converged, the momenta) recomputed from these forces, whatever the sequence held before. The exit code of the solver is returned, relinearisation repeats no more often than the refinement limit and ends early only once converged, and a saved file contains exactly the sequence, the time steps and the goal.",
     ["inputs", "histories"], "1-3 steps, up to three contacts in eight schedules, an arbitrary answer of the solver in up to three passes, two optimisations in a row.",
     "The stable tests do not run the planner; shifts by one step or writes past the end do not change whether a plan is found.",
     [DO + "DynamicsOptimizer.cpp", DO + "DynamicsState.cpp"], [("storing", DO + "DynamicsOptimizer.cpp storeSolution, saveToFile"), ("passes", DO + "DynamicsOptimizer.cpp optimize"), ("initialisation", DO + "DynamicsOptimizer.cpp initialize")], observe=["DynamicsOptimizer::optimize", "DynamicsOptimizer::dynamicsSequence"])
PK = "momentumopt/python/momentumopt/kinoptpy/"
prop("P31", "Momentum feedback linearises the planned motion it is given",
     "The feedback problem starts from the given centroidal state with the planned forces as nominal controls and rejects plans of another length. Its dynamics are the centroidal dynamics under gravity and the active contacts, its cost the weighted squared deviations from the plan plus the squared forces, with the final weights and no control term at the end. The gain returned for a step is the one computed for this step, clamped to the horizon.",
     ["inputs", "configurations"], "1-3 steps, up to four end-effectors, four contact patterns; arbitrary plans, states, forces and weights.",
     "No test uses the momentum feedback; reading past the plan or the wrong step gives plausible gains.",
     [DO + "DynamicsFeedback.cpp"], [("start", DO + "DynamicsFeedback.cpp setStatesAndControls"), ("model", DO + "DynamicsFeedback.cpp dynamics, objective"), ("gains", DO + "DynamicsFeedback.cpp forceGain")], observe=["DynamicsFeedbackWrapper::forceGain"])
prop("P32", "The feedback state space of the base is a consistent manifold",
     "Quaternion to rotation, product, exponential and logarithm of the Python gain computation satisfy their defining laws: rotations are orthogonal and multiplicative, log inverts exp up to sign, and incrementing a state by the difference of two states gives the second one. The discrete step moves base, momenta and orientation by the contact forces and gravity in the documented order, and rollouts apply it at every step.",
     ["inputs"], "Arbitrary unit quaternions, rotation vectors, states, forces and time steps; the full step at five orientations and arbitrary yaw; up to three steps.",
     "The tests check a few random quaternions to seven digits; branches for small or near-pi rotations and the sign ambiguity are rarely hit.",
     [PK + "lqr_gain_manifold.py"], [("manifold", PK + "lqr_gain_manifold.py increment_x, diff_x, exp_quaternion, log_quaternion"), ("step", PK + "lqr_gain_manifold.py integrate_step")], observe=["CentroidalLqr.increment_x", "CentroidalLqr.diff_x", "CentroidalLqr.integrate_step"])
prop("P33", "Whole-body feedback gains are the Riccati gains of the linearised plan",
     "Derivatives of dynamics and cost used for the Python gains equal the true derivatives of the step and of the cost in the tangent space, with the right sign. The backward pass combines them by the Riccati recursion so that the stored gains minimise the quadratic model, and the cost weighs exactly the deviations its matrices name.",
     ["inputs"], "Arbitrary states, forces and weights (angular velocity along one axis at a time); gains for one and two steps.",
     "The tests compare derivatives with the same finite differences at a single point, so a wrong sign or a drifting evaluation point passes.",
     [PK + "lqr_gain_manifold.py"], [("derivatives", PK + "lqr_gain_manifold.py dynamics_derivatives, cost_derivatives"), ("backward pass", PK + "lqr_gain_manifold.py compute_gains")], observe=["CentroidalLqr.dynamics_derivatives", "CentroidalLqr.compute_gains"])
prop("P34", "Foot trajectories stand on planned contacts and swing between them",
     "For every contact schedule each end-effector rests with zero velocity at the planned contact position during its contacts and moves between consecutive contacts along a continuous trajectory that starts and ends there and passes the swing height above its start halfway. Spline pieces meet all their boundary conditions, lists of pieces return the piece of the queried time, and interpolated sequences pass through their knots.",
     ["inputs", "histories"], "All activation patterns of 6 steps for one and 4 steps for two end-effectors (8 in thorough); arbitrary positions and heights; polynomial boundary values arbitrary.",
     "No test runs the trajectory generator; schedules whose last contact stays closed or whose first phase is a swing never occur in examples.",
     [PK + "momentum_kinematics_optimizer.py", PK + "min_jerk_traj.py"], [("contact plan", PK + "momentum_kinematics_optimizer.py get_contact_plan_from_dyn_optimizer"), ("swing", PK + "momentum_kinematics_optimizer.py generate_eff_traj")], observe=["EndeffectorTrajectoryGenerator"])
prop("P35", "Inverse kinematics solves the weighted tracking problem it documents",
     "For every state, reference, weight and contact flag the returned velocity (second order: acceleration) minimises the documented regularised weighted sum of momentum, foot and joint tracking errors, and in flight it keeps the given momentum exactly. Every call uses the kinematics of its own configuration whatever was computed before, and the quadratic-program wrapper passes on exactly the stated objective and constraints. The second-order solver integrates its accelerations at one millisecond and stores the resulting states.",
     ["inputs", "histories"], "One or two feet and joints, arbitrary weights and gains, up to three calls in a row, second-order trajectories of 2-3 steps; toy robot with arbitrary polynomial kinematics.",
     "No test runs the Python kinematics; a wrong sign or a stale Jacobian still converges on typical motions.",
     [PK + "inverse_kinematics.py", PK + "second_order_ik.py", PK + "qp.py"], [("first order", PK + "inverse_kinematics.py compute"), ("second order", PK + "second_order_ik.py step, solve"), ("solver", PK + "qp.py quadprog_solve_qp")], observe=["PointContactInverseKinematics.compute", "SecondOrderInverseKinematics.step"])
prop("P36", "Kinematic plans follow the dynamics plan and store what their states give",
     "At each step the kinematic optimiser tracks the centre of mass, momenta and foot references of that step, with posture and orientation regularisation; in flight it keeps the last contact momentum changed by gravity. Postures are the integration of the solved velocities from the initial posture, and every stored quantity (centre of mass, momenta, foot positions and velocities, kinematics sequence) is that of the stored posture and velocity, also when plans are optimised one after another. The initial posture search starts from the configured default posture and stops when converged or at its iteration limit.",
     ["inputs", "histories"], "1-4 steps, five contact patterns with flight phases, up to two feet, two plans in a row; arbitrary plans and solutions.",
     "No test runs the kinematic optimiser; results taken from the previous step look plausible.",
     [PK + "momentum_kinematics_optimizer.py"], [("tracking", PK + "momentum_kinematics_optimizer.py optimize"), ("storing", PK + "momentum_kinematics_optimizer.py fill_kinematic_result"), ("initial posture", PK + "momentum_kinematics_optimizer.py optimize_initial_position")], observe=["MomentumKinematicsOptimizer.optimize"])
prop("P37", "Exported trajectories interpolate the plan at the right times",
     "Every exported quantity at time t is the piecewise linear curve through the values of the planned states at their times (the sum of the durations before them), constant before the first and after the last state. The written files hold one row per millisecond of that curve for exactly the quantity in their name, forces scaled by the robot weight, leg order swapped as documented, and a leg marked in contact exactly while its vertical force is positive.",
     ["inputs"], "1-4 states, arbitrary times and query times; files on eight time grids.",
     "No test runs the exporters, and a wrong quantity, index or scale produces a plausible file.",
     ["momentumopt/python/momentumopt/motion_execution.py", PK + "create_data_file.py", "momentumopt/python/momentumopt/motion_planner.py"], [("interpolation", "momentumopt/python/momentumopt/motion_execution.py desired_state, interpolate"), ("files", PK + "create_data_file.py create_file, create_qp_files, create_lqr_files"), ("times", "momentumopt/python/momentumopt/motion_planner.py create_time_vector")], observe=["desired_state", "interpolate", "create_file", "create_qp_files"])
prop("P38", "The planner hands every setting on and alternates on the newest plans",
     "Each weight, gain and via-point list of the configuration reaches the attribute of the kinematic solver it is named after, for first- and second-order inverse kinematics. The planner first optimises the dynamics without kinematics and then, the configured number of times, kinematics and dynamics, each tracking the newest result of the other from the same initial state and contact plan. It returns, times and writes the last plans, and computes feedback gains only on request and around the last dynamics plan.",
     ["inputs", "histories"], "All parameter values; 0, 1, 2 and 5 iterations; 1-4 states.",
     "No test runs the Python planner; a swapped gain or a plan one iteration old goes unnoticed.",
     ["momentumopt/python/momentumopt/motion_planner.py", "momentumopt/python/momentumopt/kino_dyn_planner.py"], [("settings", "momentumopt/python/momentumopt/motion_planner.py init_from_settings"), ("alternation", "momentumopt/python/momentumopt/motion_planner.py optimize_motion"), ("entry points", "momentumopt/python/momentumopt/kino_dyn_planner.py parse_arguments, build_optimization, optimize_motion")], observe=["MotionPlanner.optimize_motion", "MotionPlanner.init_from_settings"])
MK = "momentumopt/src/momentumopt/kinopt/"
prop("P39", "The C++ kinematics optimizer solves the tracking problems it describes",
     "The posture and trajectory programs of KinematicsOptimizer penalise exactly the weighted deviations from the momentum, center of mass, contact, posture, velocity and regularisation references, computed with the robot's own Jacobians, and move only the listed active joints within their limits, with the feet above the floor and the body constraints respected. Stored states follow from the solved velocities, postures and accelerations, and the motion file holds them. Refinement stops exactly when the error or its improvement is within the tolerance, and an optimizer can be destroyed whether or not it was initialised.",
     ["inputs", "histories"], "Toy robot with arbitrary Jacobians at every evaluation, one or two steps, four lists of active joints, zero to two feet, arbitrary weights and references.",
     "No test builds a kinematics optimizer; a wrong joint index or weight only changes the motion quality.",
     [MK + "KinematicsOptimizer.cpp", MK + "KinematicsInterface.cpp", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp"], [("programs", MK + "KinematicsOptimizer.cpp optimizePosture, optimizeTrajectory"), ("stored states", MK + "KinematicsOptimizer.cpp storeSolution"), ("refinement", MK + "KinematicsOptimizer.cpp optimize")], observe=["KinematicsOptimizer::optimize", "KinematicsOptimizer::kinematicsSequence"])
prop("P40", "Solver settings hold what the file says, each under its own name",
     "Loading solver settings puts the value of every key of the chosen section into the parameter of that name, replacing whatever was loaded before and touching no other settings object. Writing one parameter changes that parameter and no other, for every value, and parameters that do not exist are refused with an exception and change nothing.",
     ["inputs", "histories"], "All 23 number, 7 integer and 2 boolean parameters with arbitrary values; two loads in a row, two objects, every single parameter rewritten; an arbitrary choice of section.",
     "No stable test reads a solver parameter back; swapped tolerances still converge on easy problems.",
     [SI + "SolverSetting.cpp"], [("reading", SI + "SolverSetting.cpp initialize"), ("access", SI + "SolverSetting.cpp get, set")], observe=["SolverSetting::initialize", "SolverSetting::get", "SolverSetting::set"])
