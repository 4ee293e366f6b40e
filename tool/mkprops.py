import json
D="nmpc_ddp/include/nmpc_ddp/"; F="nmpc_fmpc/include/nmpc_fmpc/"; G="nmpc_cgmres/include/nmpc_cgmres/"
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
p("C01","The DDP plan is a consistent rollout of the user's model",
 "After every DDP solve that returns, the published plan starts at the given current state, every later state is exactly what the user's dynamics returns for the previous state and input at that step's time, and every stage and terminal cost entry is exactly what the user's cost functions return at that same time, state and input. A plan adopted after a line search is the plan that was rolled out and costed, in full: states, inputs and costs always belong together.",
 ["inputs","configurations","histories"],"every problem, initial input sequence, horizon, configuration and iteration outcome",
 "Tests look at closed-loop behaviour of three demo systems; none compares the plan with an independent rollout, and never after failed or rejected iterations.",
 [D+"DDPSolver.hpp"],[("initial rollout in DDPSolver::solve",D+"DDPSolver.hpp solve"),("candidate rollout",D+"DDPSolver.hpp forwardPass"),("three-list adoption of the candidate",D+"DDPSolver.hpp procOnce step 4")],["controlData()"])
p("C02","DDP only adopts candidates that pass the cost-decrease test",
 "An iteration replaces the published plan only by a line-search candidate whose actual cost reduction passes the acceptance test (ratio of actual to expected reduction above the configured threshold; sign of the actual reduction when no reduction was expected), step scales are tried in the configured order and the first one that passes is used. With the default threshold the total cost therefore never increases, and a candidate whose cost is NaN, or an iteration in which nothing passes, leaves the plan untouched.",
 ["inputs","configurations","histories"],"every cost landscape, including NaN costs, every step-scale list and threshold",
 "Tests converge on smooth problems where the first scale is accepted; NaN costs, negative expected reduction and rejection of every scale are never reached.",
 [D+"DDPSolver.hpp"],[("line search and acceptance",D+"DDPSolver.hpp procOnce steps 3-4"),("expected cost update dV_",D+"DDPSolver.hpp backwardPass")],["controlData()","traceDataList()"])
p("C03","The DDP search direction is the documented iLQR/DDP recursion",
 "For every problem the feedforward terms, feedback gains and expected cost change used by an iteration are those of the published Gauss-Newton DDP recursion: Q-function expansion from the model derivatives at each step, state- or input-space regularisation according to the configured type, gains from the regularised input Hessian, value expansion from the unregularised one, with a symmetrised value Hessian. The control law applied in the rollout is u + alpha*k + K*(x_new - x_old).",
 ["inputs","configurations"],"all derivative values, dimensions, both regularisation types, any regularisation coefficient",
 "Tests only use regularisation type 1 with tiny coefficients on problems with zero cross terms, where many wrong recursions still converge.",
 [D+"DDPSolver.hpp"],[("backward recursion",D+"DDPSolver.hpp backwardPass"),("forward law",D+"DDPSolver.hpp forwardPass")],["controlData()"])
p("C04","DDP regularisation schedule and outcome are reported truthfully",
 "Each failed backward pass or rejected line search increases the regularisation coefficient by the documented quadratic schedule, each accepted step decreases it (to exactly zero once below the minimum), and both coefficients restart from their configured initial values in every solve. solve returns true only if an iteration terminated by the small-gradient test (relative feedforward norm and regularisation both below their thresholds, gains finite) or by an accepted step with a cost reduction below the threshold; exceeding the maximum coefficient or exhausting the iterations returns false.",
 ["inputs","configurations","histories"],"every sequence of backward failures, rejections and acceptances",
 "Regularisation failures and the failure return are never exercised by the tests; success is only asserted implicitly.",
 [D+"DDPSolver.hpp"],[("lambda schedule and return codes",D+"DDPSolver.hpp procOnce"),("retval == 1",D+"DDPSolver.hpp solve")],["return value of solve","traceDataList()"])
p("C05","DDP respects time-varying input limits when they are enabled",
 "When input constraints are enabled, every input of a plan adopted by an iteration lies within the limits the user's limit function returns for that step's time. The feedforward term is the box-constrained minimiser of the regularised quadratic model within the remaining room to those limits, and the feedback gain is zero on clamped input dimensions and the free-subspace gain elsewhere.",
 ["inputs","configurations"],"all limits (time-varying), gains, states, step scales",
 "The single constrained test checks the applied first input with a tolerance on one system, not the whole plan nor feedback pushing inputs out of the box.",
 [D+"DDPSolver.hpp",D+"BoxQP.h"],[("BoxQP call and gain scatter",D+"DDPSolver.hpp backwardPass"),("clamping in rollout",D+"DDPSolver.hpp forwardPass")],["controlData().u_list"])
p("C06","BoxQP always returns a point inside the box",
 "For every Hessian, gradient, bounds with lower <= upper and initial guess (feasible or not), every iterate and the returned point of the box-constrained QP solver satisfy lower <= x <= upper in each component, whatever the exit code.",
 ["inputs"],"all finite H, g, bounds, initial guesses and configurations",
 "Tests use a handful of fixed matrices with loose comparison to a reference solver.",
 [D+"BoxQP.h"],[("cwiseMin/cwiseMax projection of initial guess and candidates",D+"BoxQP.h solve")],["return value of BoxQP::solve"])
p("C07","BoxQP exit code, free set and factorisation are truthful",
 "The exit code names the event that stopped the solver: a positive (success) code is set only when its documented condition holds, indefiniteness or an ascent direction gives a negative code, and a failed line search or exhausted iterations give their own codes. The published free set is exactly the complement of the dimensions at a bound with the gradient pushing outwards, and when it is non-empty on a non-negative code the published Cholesky factor is that of the Hessian restricted to it.",
 ["inputs","configurations"],"all problems, all exits",
 "Tests only look at the solution vector; exit codes 1, 2, -1, -2 and the free-set/factor pairing are never asserted.",
 [D+"BoxQP.h"],[("retval_ assignments, free_idxs_, llt_free_",D+"BoxQP.h solve")],["retval_","free_idxs_","llt_free_"])
p("C08","BoxQP iterates by projected Newton steps with sufficient decrease",
 "Each BoxQP iteration moves from x along the exact Newton direction of the free subspace (clamped dimensions do not move), projected to the box, with the step shrunk by the configured factor until the objective 0.5 x'Hx + g'x has decreased by the configured Armijo fraction or the step falls below its minimum. The relative-improvement and gradient-norm stopping tests use the configured thresholds.",
 ["inputs","configurations"],"all H, g, bounds, initial guesses, configurations",
 "On the few tested problems wrong directions or step rules still reach the solution within the iteration limit.",
 [D+"BoxQP.h"],[("search direction and Armijo loop",D+"BoxQP.h solve")],["return value of BoxQP::solve","traceDataList()"])
p("C09","FMPC reports success only when every KKT residual is small",
 "FMPC returns Succeeded only if the Euclidean norm of all KKT residuals of the returned variables - initial state, dynamics defects, inequality-plus-slack residuals, stationarity in states, inputs and terminal state, and complementarity with zero barrier - evaluated with the user's model at the correct times is at most the configured threshold. A NaN residual never counts as success.",
 ["inputs","configurations"],"all problems, iterates and thresholds",
 "Tests assert success status on well-posed demos but never recompute the KKT residuals of the returned point.",
 [F+"FmpcSolver.hpp"],[("residual evaluation",F+"FmpcSolver.hpp procOnce step 1"),("norm",F+"FmpcSolver.hpp calcKktError"),("threshold test",F+"FmpcSolver.hpp procOnce")],["return value of solve","variable()","traceDataList()"])
p("C10","The FMPC step is the exact Newton step of the perturbed KKT system",
 "The update direction computed in an iteration (states, inputs, multipliers, slacks, inequality multipliers) is the solution of the KKT system linearised at the current variables with the current barrier parameter, obtained by the published Riccati recursion: backward elimination of slacks, inputs and states, then forward substitution from the measured initial state. This holds for either linear solver branch and for steps without inputs or without inequalities.",
 ["inputs","configurations"],"all derivative values, multipliers, slacks, barrier parameters and dimensions",
 "Convergence tests pass with many inexact Newton matrices; the LU fallback and zero-dimensional steps are never run.",
 [F+"FmpcSolver.hpp"],[("Riccati backward",F+"FmpcSolver.hpp backwardPass"),("forward substitution",F+"FmpcSolver.hpp forwardPass")],["variable()","coeffList()"])
p("C11","FMPC keeps slacks and inequality multipliers positive",
 "Starting from positive slacks and inequality multipliers, every FMPC update keeps them positive: the primal and dual step sizes never exceed one nor 0.995 of the distance to the boundary of any slack respectively multiplier component over the whole horizon, a step size that is not in (0,1] aborts the update, and any component that would still come out negative is raised to the smallest positive number.",
 ["inputs"],"all iterates and directions, every step and component",
 "Tests observe only final trajectories; a boundary violated by a rare component is not visible.",
 [F+"FmpcSolver.hpp"],[("fraction-to-boundary rule and clamp",F+"FmpcSolver.hpp updateVariables")],["variable().s_list","variable().nu_list"])
p("C12","FMPC failure statuses are truthful and failed steps are never applied",
 "The FMPC status names what happened: backward, forward and update failures each return their own status, MaxIterationReached is returned exactly when every allowed iteration ran without success or error. With NaN checking enabled a step containing NaN or infinity in any of its blocks, or gains containing them, is never applied, and after an error status the returned variables are those of the last completed iteration.",
 ["inputs","configurations","fault_sequences"],"every point at which a computation fails, every block holding the non-finite value",
 "No test produces a NaN, a factorisation failure or any error status.",
 [F+"FmpcSolver.hpp"],[("containsNaN, status returns",F+"FmpcSolver.hpp backwardPass/forwardPass/procOnce/solve")],["return value of solve","variable()"])
p("C13","FMPC merit function, slope and line search are consistent",
 "With line search enabled, the merit value is objective plus log barrier plus scaled l1 norm of all equality residuals, the same function is evaluated for the current and trial points, and the slope used is its exact directional derivative along the step, including components whose residual is zero. The primal step is the first in the halving sequence from the fraction-to-boundary step that satisfies the Armijo condition (or falls below the minimum), and the constraint scale follows the configured rule; states, inputs and slacks all use that step.",
 ["inputs","configurations"],"all iterates, directions, both scale rules",
 "The line search and merit function are never executed by any test.",
 [F+"FmpcSolver.hpp",F+"MathUtils.h"],[("setupMeritFunc, calcMeritFunc, line search loop",F+"FmpcSolver.hpp"),("l1NormDirectionalDeriv",F+"MathUtils.h")],["variable()"])
p("C14","FMPC barrier parameter and complementarity initialisation follow the rule",
 "When barrier updating is on, every iteration uses half the average complementarity product over all inequality components of the horizon, clamped to [1e-8, 1e6]; otherwise the barrier keeps its initial value. When complementarity initialisation is requested, slacks and multipliers start strictly positive from the constraint values at the guess, as documented, before anything else uses them.",
 ["inputs","configurations"],"all guesses, dimensions (including none) and configuration toggles",
 "Complementarity initialisation is never switched on in a test and the barrier value is not observed.",
 [F+"FmpcSolver.hpp"],[("barrier update",F+"FmpcSolver.hpp procOnce"),("initialisation",F+"FmpcSolver.hpp solve")],["variable()"])
p("C15","Malformed initial guesses are rejected before they are used",
 "A solve whose initial guess has a wrong sequence length, a wrong per-step dimension at that step's time, or (for FMPC) a negative slack or inequality multiplier throws an exception before the guess is indexed, passed to the user's model or iterated on. A well-formed guess is never rejected.",
 ["inputs","configurations"],"every list, every step, dynamic and fixed dimensions, both solvers",
 "Tests never pass a malformed guess.",
 [D+"DDPSolver.hpp",F+"FmpcSolver.hpp"],[("length and dimension checks",D+"DDPSolver.hpp solve"),("checkVariable",F+"FmpcSolver.hpp")],["exceptions from solve"])
p("C16","A solve depends only on its arguments, configuration and problem",
 "The result of a solve (plan or variables, status, trace without timings) is a function of the arguments, the configuration and the user's model only: nothing left over from an earlier solve on the same object and no uninitialised storage influences it. Repeating a solve on a used solver gives the result a fresh solver gives.",
 ["histories","configurations"],"every sequence of earlier solves, including failed ones, changed horizons and changed options",
 "Tests warm-start in a fixed pattern and never compare a reused solver with a fresh one.",
 [D+"DDPSolver.hpp",D+"BoxQP.h",F+"FmpcSolver.hpp",G+"Gmres.h"],[("re-initialisation at the start of each solve",D+"DDPSolver.hpp solve; "+F+"FmpcSolver.hpp solve; "+D+"BoxQP.h solve; "+G+"Gmres.h solve")],["solve results"])
p("C17","The solvers never index outside the sequences and matrices they hold",
 "For every horizon length, dimension and option, every element, row, column or segment the library accesses in a sequence or matrix lies inside it; plans have horizon+1 states and costs and horizon inputs after a solve.",
 ["inputs","configurations"],"all horizons >= 1, dimensions, iteration counts",
 "Release builds disable the container assertions and tests use one or two horizons.",
 [D+"DDPSolver.hpp",D+"BoxQP.h",F+"FmpcSolver.hpp",G+"Gmres.h","nmpc_cgmres/src/CgmresSolver.cpp"],[("resizes in solve/setup and loop bounds","solve, setup")],["controlData()","variable()"])
p("C18","Every solver loop terminates",
 "No solve can run forever: every loop of the library is bounded by a configured iteration count, a horizon or dimension, or a quantity that each pass moves towards its exit test by the configured factor.",
 ["inputs","configurations"],"all inputs including NaN-free degenerate data; factors in their documented ranges",
 "A hang is only seen on the one input that causes it.",
 [D+"DDPSolver.hpp",D+"BoxQP.h",F+"FmpcSolver.hpp",G+"Gmres.h","nmpc_cgmres/src/CgmresSolver.cpp"],[("loop guards","all loops")],["solve returns"])
p("C19","Print level 0 is silent and verbosity never changes results",
 "With print level 0 the DDP, BoxQP and FMPC solvers write nothing to standard output or error, including from the components they use internally, on any path. The print level has no influence on results, statuses or traces.",
 ["inputs","configurations"],"every path, every print level",
 "Tests do not capture output and run at one level.",
 [D+"DDPSolver.hpp",D+"BoxQP.h",F+"FmpcSolver.hpp"],[("print_level guards","all std::cout sites")],["stdout"])
p("C20","Traces and dump files describe the iterations that ran",
 "A solve leaves one trace entry per iteration (plus the initial one for DDP) whose values are those of that iteration, on every exit including early termination and failure. Dumped files have one header token per column, in the column order, under the names the plotting scripts read, and one row per trace entry; the C/GMRES run log has one line per dump interval with matching time, state, input and error.",
 ["inputs","configurations","histories"],"every exit of every iteration, every trace field",
 "Tests write dumps but nothing reads them.",
 [D+"DDPSolver.hpp",F+"FmpcSolver.hpp","nmpc_cgmres/src/CgmresSolver.cpp","nmpc_ddp/scripts/plotDDPTraceData.py"],[("trace appends and dumpTraceDataList","procOnce, dumpTraceDataList, CgmresSolver::run")],["traceDataList()","dump files"])
p("C21","Headers compose and the documented dimension combinations compile",
 "Every public header compiles when included alone, in several translation units, and together with all the others. Every documented dimension combination - fixed or dynamic input and inequality dimensions, all different from one another - instantiates completely, in every member function.",
 ["programs","configurations"],"all user programs including any header subset; all documented dimension combinations",
 "Each test includes one solver header first-in-order and instantiates a few dimension sets; templates not instantiated are not even type-checked.",
 [D+"BoxQP.h",D+"DDPSolver.h",F+"FmpcSolver.h",F+"MathUtils.h",G+"CgmresSolver.h",G+"Gmres.h",G+"OdeSolver.h"],[("includes, namespaces, dimension-generic code","all headers")],["compilation of user programs"])
p("C22","GMRES computes the minimum-residual solution over the Krylov space",
 "For every linear operator, right-hand side, initial guess, iteration limit and tolerance, the GMRES solver performs the published algorithm: modified Gram-Schmidt Arnoldi with optional reorthogonalisation, Givens or QR least squares, and returns the guess plus the basis combination solving the projected problem. It stops when the residual is at most tolerance times the norm of b or after min(limit, dimension) steps, and its error list holds the initial and per-step residuals; both variants compute the same solution.",
 ["inputs","configurations"],"all operators, vectors, limits, tolerances, both variants",
 "Tests run random well-conditioned systems to full dimension, where truncated, restarted or unrefined variants still agree.",
 [G+"Gmres.h"],[("Gmres::solve",G+"Gmres.h")],["x","err_list_"])
p("C23","The ODE solvers perform exact Euler and classical Runge-Kutta steps",
 "One step of the Euler solver returns x + dt*f(t,x,u); one step of the Runge-Kutta solver returns the classical fourth-order combination with stages at t, t+dt/2 (twice) and t+dt, for positive and negative steps, with the input held.",
 ["inputs"],"all right-hand sides, times, states, inputs, step signs",
 "Tests use the ODE solvers only inside C/GMRES with small steps on autonomous systems, where wrong stage times or weights are invisible.",
 [G+"OdeSolver.h"],[("EulerOdeSolver::solve, RungeKuttaOdeSolver::solve",G+"OdeSolver.h")],["ret"])
p("C24","C/GMRES optimality residuals follow the state and costate sweep",
 "The optimality residual over the horizon is obtained by integrating states forward from the given state with the planned inputs, integrating costates backward from the terminal-cost gradient along the same states and inputs, and evaluating the Hamiltonian gradient at each stage with that stage's time, state, input and the costate of the next stage. The horizon length at time t is the steady length times (1 - exp(-ratio*t)), divided evenly.",
 ["inputs","configurations"],"all models, times, inputs, horizon divisions",
 "Only an autonomous demo model is tested, with a loose closed-loop check.",
 ["nmpc_cgmres/src/CgmresSolver.cpp"],[("calcDhDuList","nmpc_cgmres/src/CgmresSolver.cpp")],["DhDu_list_"])
p("C25","C/GMRES updates the input by the continuation equation",
 "Each control step solves the forward-difference continuation equation (stabilised by zeta) for the input rates of the whole horizon by GMRES with the configured iteration limit, warm-started from the previous rates, advances all planned inputs by dt times the rate and applies the first. Setup solves the stationarity condition at the initial state and fills the horizon with it; a run simulates the plant with the applied input, hands both states to the controller and advances time by dt.",
 ["inputs","histories","configurations"],"all models, parameters and time steps",
 "One closed-loop demo with tolerance; feedback hides errors in the equation.",
 ["nmpc_cgmres/src/CgmresSolver.cpp"],[("setup, run, calcControlInput, eqAmulFunc","nmpc_cgmres/src/CgmresSolver.cpp")],["u","u_list_"])
p("C26","Model callbacks get the current plan's own times, states and inputs",
 "In every iteration the user's derivative, dynamics, cost and constraint functions are evaluated, per step i, at time t0 + i*dt with exactly the state and input the plan holds at step i, the terminal functions at t0 + N*dt with the last state, and every derivative block is delivered to the quantity it is named after.",
 ["inputs","configurations"],"time-varying problems, all horizons, all iterations of both optimisers",
 "The demo models barely depend on time, so shifted times or swapped blocks go unnoticed.",
 [D+"DDPSolver.hpp",F+"FmpcSolver.hpp"],[("derivative loops",D+"DDPSolver.hpp procOnce; "+F+"FmpcSolver.hpp procOnce")],["callback arguments"])
p("C27","Results are published read-only",
 "Users can read but not modify the plan, variables, coefficients, traces and durations of a solver through its accessors, on const and non-const solvers alike, while the configuration is writable only on a non-const solver; the model callbacks cannot be used to modify the problem of a DDP or FMPC solver.",
 ["programs"],"all user programs",
 "A test can only show that permitted accesses compile, not that forbidden ones do not.",
 [D+"DDPSolver.h",D+"BoxQP.h",F+"FmpcSolver.h",D+"DDPProblem.h",F+"FmpcProblem.h"],[("const accessors and const virtuals","headers")],["compilation of user programs"])
na=[("C28","Solvers converge to a local optimum on well-posed problems","On problems satisfying the usual second-order conditions, repeated iterations converge to a local optimum from guesses near it.","inputs","convergence depends on the numerical values along the whole iteration",D+"DDPSolver.hpp"),
("C29","Results are accurate to floating-point round-off","Computed steps and residuals agree with exact arithmetic up to a small multiple of machine precision.","inputs","needs bounds on conditioning of runtime data",D+"DDPSolver.hpp"),
("C30","A solve finishes within the control period","Each solve finishes within the control period for the demo-sized problems.","configurations","wall-clock time",F+"FmpcSolver.hpp"),
("C31","Receding-horizon control stabilises the demo systems","Closed-loop control with any of the solvers drives the demo systems to their references and keeps them there.","inputs","closed-loop trajectories of nonlinear systems","nmpc_cgmres/src/CgmresSolver.cpp")]
for id,t,s,q,w,f in na:
    p(id,t,s,[q],"all well-posed problems","Tests sample single trajectories; "+w+".",[f],[("the whole algorithm",f)])
p("C32","Problem queries and solver accessors tell the truth",
 "A problem reports the time step it was constructed with, the state dimension and the fixed input and inequality dimensions it was declared with, the same with and without a time argument; for a dynamic dimension, the query without time, and the query with time when it is not overridden, throw instead of returning a number. A solver's accessors return the published data of its last solve - plan, variables, coefficients, trace, configuration - and never an internal candidate, step or copy.",
 ["configurations","histories"],"all dimension combinations and solver histories",
 "The demo problems override the dynamic queries and read plans right after successful solves, where candidate and plan coincide.",
 [D+"DDPProblem.h",F+"FmpcProblem.h",D+"DDPSolver.h",F+"FmpcSolver.h",D+"BoxQP.h"],[("dimension and time-step queries",D+"DDPProblem.h; "+F+"FmpcProblem.h"),("accessors",D+"DDPSolver.h; "+F+"FmpcSolver.h; "+D+"BoxQP.h")],["inputDim","ineqDim","dt","controlData()","variable()"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
