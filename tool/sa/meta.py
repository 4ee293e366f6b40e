"""What each check's evidence says about the rule it applied."""
VG = ("Static analysis: /repo's current source is parsed and type-checked (libTooling); every analysed function is abstractly interpreted over all paths into gated value graphs "
      "(one closed graph per member, container element, return value, throw condition and output stream; loops become recurrences, Eigen expressions element-wise terms, user model "
      "functions uninterpreted). Each graph is compared with that of the reference semantics in /verif/spec by congruence modulo bound names and ring laws; graphs that are not congruent "
      "are compared by random interpretation of the graphs (Gulwani and Necula), and a deviation is reported only with a separating valuation. Internal deviations count only if a public "
      "operation's observable depends on the deviating output.")
EV = " Element accesses and model calls are obligations of their own, with their path condition, loop context and extent in the graph."
ASSUME = ["reference semantics /verif/spec (the repaired code, reviewed against the documentation and papers) states the intended behaviour",
          "real-number arithmetic with NaN and infinity; rounding is not modelled", "user model functions are pure functions of their arguments",
          "instances <3,2>, <3,dynamic>, <3,2,4>, <3,dynamic,dynamic> represent the templates (distinct dimensions, so index mix-ups cannot cancel)"]
M = {}


def m(pid, rule, expl=VG, assume=()):
    M[pid] = {"rule": rule, "explanation": expl, "assume": list(assume)}


m("C01", "control_data_ (states, inputs, costs) after solve and each iteration, and the candidate of forwardPass, equal the reference rollout")
m("C02", "the published plan, return code and accepted-candidate data of an iteration equal the reference acceptance test, including NaN and zero expected decrease")
m("C03", "gains, expected decrease and success of backwardPass and the inputs and states of forwardPass equal the reference recursion")
m("C04", "lambda, dlambda, return codes and their defaults equal the reference schedule")
m("C05", "constrained gains, clamped inputs and BoxQP results equal the reference; limit function taken at the step's own time")
m("C06", "the point BoxQP returns and traces equals the reference's clamped point")
m("C07", "exit code, free set and published factor of BoxQP equal the reference on every exit")
m("C08", "iterates, step counts, search directions and stopping tests of BoxQP equal the reference")
m("C09", "KKT error, its summands, the success test and the status equal the reference")
m("C10", "Riccati coefficients, gains and the step equal the reference in both solver branches, for empty inputs and inequalities")
m("C11", "slacks and multipliers after an update and the step-size rule equal the reference")
m("C12", "every status and every NaN test equals the reference; variables after an error status equal the reference's")
m("C13", "merit value, slope, scale and line search equal the reference")
m("C14", "barrier parameter and initial slacks and multipliers equal the reference")
m("C15", "the throw condition of a solve equals the reference's; on a rejected guess no access leaves its sequence and no model function is called first", VG + EV)
m("C16", "no deviating result depends on members, statics or uninitialised storage the reference does not depend on; coefficients and traces are re-initialised by each solve")
m("C17", "under every valuation 0 <= index, index + length <= extent at every access site, and every published sequence has the reference's size", VG + EV)
m("C18", "every loop's exit test becomes true under every valuation under which the reference's does", VG + EV)
m("C19", "the path condition of every write to std::cout, std::cerr, printf is false when every print level is 0 (three-valued and interval evaluation of the condition with all other symbols "
  "unknown), through all internal components; no result depends on the print level")
m("C20", "trace entries, dump streams (token by token) and the run log equal the reference; scripts read the files, separators and columns that are written")
m("C21", "every witness translation unit type-checks; headers define no strong symbol", "Type-level witnesses: translation units generated from the list of public headers and documented dimension "
  "combinations are type-checked against /repo's current headers, with complete explicit instantiation of every member function.")
m("C22", "both GMRES variants' solution, error list and iteration count equal the reference")
m("C23", "the Euler and Runge-Kutta steps equal the reference combination, stage by stage")
m("C24", "state, costate and gradient sweep and horizon length equal the reference")
m("C25", "setup, continuation equation operator and right-hand side, input update and simulation loop equal the reference")
m("C26", "the set of argument tuples at which each model function is evaluated equals the reference's; derivative blocks land in the members they are named after", VG + EV)
m("C27", "each type-level assertion in witness/access.cpp holds", "Type-level witnesses: static assertions over the accessor types, member access and constness of the callbacks, type-checked against /repo's current headers.")
m("C32", "the value and throw condition of every problem query and the data every solver accessor returns equal the reference's, for fixed and dynamic dimensions")
