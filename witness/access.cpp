// Read-only publication (C27): every assertion is a fact about the types a user's program sees.
// An accessor satisfies it by returning a const reference or a value.
#include <nmpc_ddp/DDPSolver.h>
#include <nmpc_fmpc/FmpcSolver.h>
#include <type_traits>

template<class R>
constexpr bool readonly = !std::is_lvalue_reference<R>::value ? !std::is_pointer<R>::value
                                                              : std::is_const<std::remove_reference_t<R>>::value;
template<class R>
constexpr bool writable = std::is_lvalue_reference<R>::value && !std::is_const<std::remove_reference_t<R>>::value;

#define RESULT(S, NAME)                                                                                             \
  static_assert(readonly<decltype(std::declval<S &>().NAME())>, #S "::" #NAME " lets its result be modified");      \
  static_assert(readonly<decltype(std::declval<const S &>().NAME())>, #S "::" #NAME " (const) lets its result be modified")

// a member that outside code can name would be writable
#define HIDDEN(TAG, MEMBER)                                                                                         \
  template<class T, class = void>                                                                                   \
  struct Sees_##TAG : std::false_type {};                                                                           \
  template<class T>                                                                                                 \
  struct Sees_##TAG<T, std::void_t<decltype(std::declval<T &>().MEMBER)>> : std::true_type {}

template<class T, class C, class = void>
struct ConfigAssignable : std::false_type {};
template<class T, class C>
struct ConfigAssignable<T, C, std::void_t<decltype(std::declval<T>().config() = std::declval<C>())>> : std::true_type {};

HIDDEN(control_data, control_data_);
HIDDEN(candidate, candidate_control_data_);
HIDDEN(trace, trace_data_list_);
HIDDEN(duration, computation_duration_);
HIDDEN(variable, variable_);
HIDDEN(coeff, coeff_list_);
HIDDEN(config, config_);
HIDDEN(lambda, lambda_);
HIDDEN(barrier, barrier_eps_);
HIDDEN(klist, k_list_);

using D = nmpc_ddp::DDPSolver<4, 2>;
using Dd = nmpc_ddp::DDPSolver<4, Eigen::Dynamic>;
using F = nmpc_fmpc::FmpcSolver<4, 2, 3>;
using Fd = nmpc_fmpc::FmpcSolver<4, Eigen::Dynamic, Eigen::Dynamic>;
using B = nmpc_ddp::BoxQP<3>;

RESULT(D, controlData);
RESULT(Dd, controlData);
RESULT(D, traceDataList);
RESULT(Dd, traceDataList);
RESULT(D, computationDuration);
RESULT(F, variable);
RESULT(Fd, variable);
RESULT(F, coeffList);
RESULT(Fd, coeffList);
RESULT(F, traceDataList);
RESULT(Fd, traceDataList);
RESULT(F, computationDuration);
RESULT(B, traceDataList);

#define CONFIG(S)                                                                                                   \
  static_assert(writable<decltype(std::declval<S &>().config())>, #S "::config cannot be changed by the user");     \
  static_assert(readonly<decltype(std::declval<const S &>().config())>, #S "::config can be changed on a const solver")
CONFIG(D);
CONFIG(Dd);
CONFIG(F);
CONFIG(Fd);
CONFIG(B);

#define NOACCESS(S, TAG) static_assert(!Sees_##TAG<S>::value, #S " exposes its internal " #TAG " for writing")
NOACCESS(D, control_data);
NOACCESS(D, candidate);
NOACCESS(D, trace);
NOACCESS(D, duration);
NOACCESS(D, config);
NOACCESS(D, lambda);
NOACCESS(D, klist);
NOACCESS(F, variable);
NOACCESS(F, coeff);
NOACCESS(F, trace);
NOACCESS(F, duration);
NOACCESS(F, config);
NOACCESS(F, barrier);
NOACCESS(B, trace);
NOACCESS(B, config);

// model callbacks are const: they can be called on a const problem
using PD = nmpc_ddp::DDPProblem<4, 2>;
using PF = nmpc_fmpc::FmpcProblem<4, 2, 3>;
template<class P>
void callable(const P & p, const Eigen::Matrix<double, 4, 1> & x, const Eigen::Matrix<double, 2, 1> & u)
{
  Eigen::Matrix<double, 4, 4> A, Q;
  Eigen::Matrix<double, 4, 2> M, N;
  Eigen::Matrix<double, 2, 2> R;
  Eigen::Matrix<double, 4, 1> lx;
  Eigen::Matrix<double, 2, 1> lu;
  std::vector<Eigen::Matrix<double, 4, 4>> xx;
  std::vector<Eigen::Matrix<double, 2, 2>> uu;
  std::vector<Eigen::Matrix<double, 4, 2>> xu;
  (void)p.dt();
  (void)p.inputDim();
  (void)p.inputDim(0.0);
  (void)p.stateEq(0.0, x, u);
  (void)p.runningCost(0.0, x, u);
  (void)p.terminalCost(0.0, x);
  p.calcStateEqDeriv(0.0, x, u, A, M);
  if constexpr(std::is_same<P, PD>::value) p.calcStateEqDeriv(0.0, x, u, A, M, xx, uu, xu);
  p.calcRunningCostDeriv(0.0, x, u, lx, lu);
  p.calcRunningCostDeriv(0.0, x, u, lx, lu, Q, R, N);
  p.calcTerminalCostDeriv(0.0, x, lx);
  p.calcTerminalCostDeriv(0.0, x, lx, Q);
}
template void callable<PD>(const PD &, const Eigen::Matrix<double, 4, 1> &, const Eigen::Matrix<double, 2, 1> &);
template void callable<PF>(const PF &, const Eigen::Matrix<double, 4, 1> &, const Eigen::Matrix<double, 2, 1> &);
void ineq(const PF & p, const Eigen::Matrix<double, 4, 1> & x, const Eigen::Matrix<double, 2, 1> & u)
{
  Eigen::Matrix<double, 3, 4> C;
  Eigen::Matrix<double, 3, 2> Dm;
  (void)p.ineqDim();
  (void)p.ineqDim(0.0);
  (void)p.ineqConst(0.0, x, u);
  p.calcIneqConstDeriv(0.0, x, u, C, Dm);
}
// dumping a trace does not need (and cannot get) write access
void dump(const D & d, const F & f)
{
  d.dumpTraceDataList("");
  f.dumpTraceDataList("");
}
