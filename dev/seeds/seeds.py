"""Planted changes: id, property, edits, demonstration."""
D = "nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp"
B = "nmpc_ddp/include/nmpc_ddp/BoxQP.h"
F = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp"
FH = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h"
M = "nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"
G = "nmpc_cgmres/include/nmpc_cgmres/Gmres.h"
O = "nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"
C = "nmpc_cgmres/src/CgmresSolver.cpp"
SEEDS = []
def S(id, prop, edits, use, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, use=use, needs=needs, breaks=breaks, demo=demo, **k))

S("s01-terminal-cost-stale", "C01", [(D, "    control_data_.cost_list = candidate_control_data_.cost_list;\n",
  "    control_data_.cost_list.head(config_.horizon_steps) = candidate_control_data_.cost_list.head(config_.horizon_steps);\n")], "DDP",
  "an accepted step (the terminal cost entry of the first rollout survives it)", "the published terminal cost is not the user's terminal cost of the published last state",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 8;
  X x0(1.0, -0.5);
  s.solve(0.3, x0, std::vector<U>(8, U(0.2, -0.1)));
  expect(consistent(s, *p, 0.3, x0), "plan is a rollout with its own costs");
  return fails != 0;
}
''')

S("s02-ascent-accepted", "C02", [(D, "cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);", "cost_update_ratio = 1;")], "DDP",
  "a step that is not expected to decrease the cost and does increase it: an initial input outside its limits, so that entering the box costs",
  "a candidate with a higher cost replaces the plan",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  p->luu = 40;
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 1;
  s.config().max_iter = 3;
  s.config().with_input_constraint = true;
  s.setInputLimitsFunc([](double) { return std::array<U, 2>{U(3, 3), U(4, 4)}; });
  s.solve(0, X(0, 0), std::vector<U>(1, U(0, 0)));
  const auto & tr = s.traceDataList();
  bool ok = true;
  for(size_t i = 1; i < tr.size(); i++) ok = ok && tr[i].cost <= tr[i - 1].cost;
  expect(ok, "total cost never increases");
  return fails != 0;
}
''')

RECUR = r'''
// one iteration of the published recursion, independently
static std::vector<U> reference(const DProb & p, double t0, const X & x0, std::vector<U> u, int reg, double lambda)
{
  int N = u.size();
  std::vector<X> x(N + 1);
  x[0] = x0;
  for(int i = 0; i < N; i++) x[i + 1] = p.stateEq(t0 + i * p.dt(), x[i], u[i]);
  X Vx;
  M2 Vxx;
  p.calcTerminalCostDeriv(t0 + N * p.dt(), x[N], Vx, Vxx);
  std::vector<U> k(N);
  std::vector<M2> K(N);
  for(int i = N - 1; i >= 0; i--)
  {
    double t = t0 + i * p.dt();
    M2 fx, fu, lxx, luu, lxu;
    X lx;
    U lu;
    p.calcStateEqDeriv(t, x[i], u[i], fx, fu);
    p.calcRunningCostDeriv(t, x[i], u[i], lx, lu, lxx, luu, lxu);
    M2 I = M2::Identity();
    U Qu = lu + fu.transpose() * Vx;
    X Qx = lx + fx.transpose() * Vx;
    M2 Qux = lxu.transpose() + fu.transpose() * Vxx * fx, Quu = luu + fu.transpose() * Vxx * fu,
       Qxx = lxx + fx.transpose() * Vxx * fx;
    M2 Vr = Vxx + (reg == 2 ? lambda : 0.0) * I;
    M2 Quxr = lxu.transpose() + fu.transpose() * Vr * fx, Quur = luu + fu.transpose() * Vr * fu + (reg == 1 ? lambda : 0.0) * I;
    k[i] = -Quur.inverse() * Qu;
    K[i] = -Quur.inverse() * Quxr;
    Vx = Qx + K[i].transpose() * Quu * k[i] + K[i].transpose() * Qu + Qux.transpose() * k[i];
    Vxx = Qxx + K[i].transpose() * Quu * K[i] + K[i].transpose() * Qux + Qux.transpose() * K[i];
    Vxx = (0.5 * (Vxx + Vxx.transpose())).eval();
  }
  std::vector<U> un(N);
  X xn = x0;
  for(int i = 0; i < N; i++)
  {
    un[i] = u[i] + k[i] + K[i] * (xn - x[i]);
    xn = p.stateEq(t0 + i * p.dt(), xn, un[i]);
  }
  return un;
}
static void compare(int reg, double lambda, const char * what)
{
  auto p = std::make_shared<DProb>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 6;
  s.config().max_iter = 1;
  s.config().reg_type = reg;
  s.config().initial_lambda = lambda;
  X x0(1.0, -0.5);
  std::vector<U> u(6, U(0.2, -0.1));
  s.solve(0.3, x0, u);
  auto ref = reference(*p, 0.3, x0, u, reg, lambda);
  bool ok = s.traceDataList().back().alpha == 1;
  for(int i = 0; i < 6; i++) ok = ok && (ref[i] - s.controlData().u_list[i]).norm() < 1e-9;
  expect(ok, what);
}
'''
S("s03-gain-unregularised", "C03", [(D, "K = -1 * llt_Quu_F.solve(Qux_reg);", "K = -1 * llt_Quu_F.solve(Qux);")], "DDP",
  "state-space regularisation (reg_type 2) with a noticeable coefficient", "the feedback gain is not that of the regularised model",
  RECUR + r'''
int main()
{
  compare(1, 0.5, "input regularisation");
  compare(2, 0.5, "state regularisation");
  return fails != 0;
}
''')

S("s05-room-to-limit", "C05", [(D, "u_limits[0] - control_data_.u_list[i], u_limits[1] - control_data_.u_list[i],\n", "u_limits[0] - control_data_.u_list[i], u_limits[1],\n")], "DDP",
  "input limits with a nominal input away from zero", "the feedforward term is not the constrained minimiser within the room left to the limits",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  p->luu = 2;
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 1;
  s.config().max_iter = 1;
  s.config().initial_lambda = 0;
  s.config().with_input_constraint = true;
  s.setInputLimitsFunc([](double) { return std::array<U, 2>{U(-9, -9), U(0.25, 0.25)}; });
  // one step, quadratic in the input: a single iteration reaches the constrained optimum
  X x0(-8, -8);
  s.solve(0, x0, std::vector<U>(1, U(-3, -3)));
  U best(-9, -9);
  for(double c0 = 1e300, a = -9; a <= 0.25; a += 0.125)
    for(double b = -9; b <= 0.25; b += 0.125)
    {
      double c = p->runningCost(0, x0, U(a, b)) + p->terminalCost(0.1, p->stateEq(0, x0, U(a, b)));
      if(c < c0) c0 = c, best = U(a, b);
    }
  std::fprintf(stderr, "u %g %g best %g %g\n", s.controlData().u_list[0][0], s.controlData().u_list[0][1], best[0], best[1]);
  expect((s.controlData().u_list[0] - best).norm() < 0.2, "constrained optimum of the quadratic model");
  return fails != 0;
}
''')

S("s06-backtracked-step-unclamped", "C06", [(B, "        step_num++;\n        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);", "        step_num++;\n        x_candidate = x + step * search_dir;")], "DDP",
  "a line search that has to shrink its step while the step still leaves the box", "the accepted point lies outside the box",
r'''
int main()
{
  bool ok = true;
  srand(1);
  for(int n = 0; n < 20000 && ok; n++)
  {
    nmpc_ddp::BoxQP<3> qp;
    qp.config().print_level = 0;
    Eigen::Matrix3d A = Eigen::Matrix3d::Random(), H = A * A.transpose() + 1e-3 * Eigen::Matrix3d::Identity();
    Eigen::Vector3d g = Eigen::Vector3d::Random() * 3, lo = -Eigen::Vector3d::Random().cwiseAbs(), up = Eigen::Vector3d::Random().cwiseAbs(), x0 = Eigen::Vector3d::Random();
    qp.solve(H, g, lo, up, x0);
    for(const auto & td : qp.traceDataList())
      if(td.iter > 0 && td.search_dir.norm() > 0) ok = ok && (td.x.array() >= lo.array()).all() && (td.x.array() <= up.array()).all();
    Eigen::Vector3d x = qp.solve(H, g, lo, up, x0);
    ok = ok && (x.array() >= lo.array()).all() && (x.array() <= up.array()).all();
  }
  expect(ok, "every iterate and the result inside the box");
  return fails != 0;
}
''')

S("s09-complementarity-weight", "C09", [(F, "        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm();",
  "        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm() * 1e-4;")], "FMPC",
  "a fixed barrier parameter, so that complementarity stays away from zero", "success is reported although complementarity is violated by more than the threshold",
r'''
int main()
{
  auto p = std::make_shared<FProb>();
  FS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 10;
  s.config().max_iter = 60;
  s.config().update_barrier_eps = false;
  FX x0(1.0, 0.5);
  auto st = s.solve(0.2, x0, fguess(10));
  double e = std::sqrt(kkt(s, *p, 0.2, x0));
  std::fprintf(stderr, "status %d kkt %g\n", (int)st, e);
  expect(st != FS::Status::Succeeded || e <= 1.01e-4, "success only with small residuals");
  return fails != 0;
}
''')

S("s15-negative-multiplier", "C15", [(F, "    if((variable_.nu_list[i].array() < 0).any())\n    {\n      throw", "    if((variable_.nu_list[i].array() < 0).all())\n    {\n      throw")], "FMPC",
  "a guess in which some but not all multipliers of a step are negative", "a guess with a negative inequality multiplier is iterated on instead of rejected",
r'''
int main()
{
  auto p = std::make_shared<FProb>();
  FS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 5;
  auto v = fguess(5);
  v.nu_list[3][1] = -0.5;
  bool thrown = false;
  try { s.solve(0, FX(1, 0), v); } catch(const std::exception &) { thrown = true; }
  expect(thrown, "negative multiplier rejected");
  return fails != 0;
}
''')

S("s16-trace-kept", "C16", [(D, "  dlambda_ = config_.initial_dlambda;\n", "  if(trace_data_list_.empty())\n  {\n    dlambda_ = config_.initial_dlambda;\n  }\n")], "DDP",
  "a second solve on the same object", "the regularisation schedule continues from where the previous solve left it",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  X x0(1.0, -0.5);
  std::vector<U> u(6, U(0.2, -0.1));
  auto mk = [&]() { auto s = std::make_unique<DS>(p); s->config().print_level = 0; s->config().horizon_steps = 6; s->config().max_iter = 2; s->config().cost_update_thre = 0; return s; };
  auto a = mk(), b = mk();
  a->solve(0.3, x0, u);
  b->solve(1.0, X(-1, 2), u);
  b->solve(0.3, x0, u);
  bool ok = a->traceDataList().size() == b->traceDataList().size();
  for(size_t i = 0; ok && i < a->traceDataList().size(); i++)
    ok = a->traceDataList()[i].dlambda == b->traceDataList()[i].dlambda && a->traceDataList()[i].lambda == b->traceDataList()[i].lambda;
  expect(ok, "same schedule on a used and a fresh solver");
  return fails != 0;
}
''')

S("s20-header-swapped", "C20", [(D, "      << \"lambda \"\n      << \"dlambda \"\n", "      << \"dlambda \"\n      << \"lambda \"\n")], "DDP",
  "a dumped trace whose two regularisation columns differ", "two columns of the dump carry each other's name",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 6;
  s.config().max_iter = 3;
  s.solve(0.3, X(1.0, -0.5), std::vector<U>(6, U(0.2, -0.1)));
  s.dumpTraceDataList("trace.txt");
  std::ifstream f("trace.txt");
  std::string line, w;
  std::getline(f, line);
  std::vector<std::string> h;
  for(std::istringstream is(line); is >> w;) h.push_back(w);
  bool ok = h.size() == 12;
  for(const auto & td : s.traceDataList())
  {
    std::getline(f, line);
    std::istringstream is(line);
    for(size_t i = 0; i < h.size(); i++)
    {
      double v;
      ok = ok && (is >> v);
      if(h[i] == "lambda") ok = ok && near(v, td.lambda, 1e-4);
      if(h[i] == "dlambda") ok = ok && near(v, td.dlambda, 1e-4);
      if(h[i] == "cost") ok = ok && near(v, td.cost, 1e-4);
    }
  }
  expect(ok, "columns carry their names");
  return fails != 0;
}
''')

CGP = r'''
using V = Eigen::VectorXd;
struct CProb : nmpc_cgmres::CgmresProblem
{
  std::vector<double> lam_seen;
  CProb()
  {
    dim_x_ = 2; dim_u_ = 2; dim_c_ = 1; dim_uc_ = 3;
    state_eq_param_.setOnes(1);
    x_initial_.resize(2); x_initial_ << 1, 0.4;
    u_initial_.resize(3); u_initial_ << 0.1, 0.2, 0.3;
  }
  void stateEquation(double t, const Eigen::Ref<const V> & x, const Eigen::Ref<const V> & u, Eigen::Ref<V> d) override
  {
    V r(2); r << x[1] + 0.1 * std::sin(t), -x[0] * u[0] + u[1]; d = r;
  }
  void costateEquation(double t, const Eigen::Ref<const V> & l, const Eigen::Ref<const V> & xu, Eigen::Ref<V> d) override
  {
    V r(2); r << -xu[0] + l[1] * xu[2] - 0.1 * t, -xu[1] - l[0]; d = r;
  }
  void calcDphiDx(double t, const Eigen::Ref<const V> & x, Eigen::Ref<V> d) override { d = (1 + 0.1 * t) * x; }
  void calcDhDu(double t, const Eigen::Ref<const V> & x, const Eigen::Ref<const V> & u, const Eigen::Ref<const V> & l, Eigen::Ref<V> d) override
  {
    V r(3); r << u[0] * 2 - l[1] * x[0] + 0.1 * std::cos(t), u[1] + l[1], u[2] * (1 + u[2] * u[2]) + 0.2 * l[0]; d = r;
  }
};
'''
S("s24-terminal-time", "C24", [(C, "problem_->calcDphiDx(tau, x_list_.col(horizon_divide_num_)", "problem_->calcDphiDx(t, x_list_.col(horizon_divide_num_)")], "CG",
  "a terminal cost that depends on time", "the terminal costate is taken at the start of the horizon instead of its end",
  CGP + r'''
int main()
{
  auto p = std::make_shared<CProb>();
  nmpc_cgmres::CgmresSolver s(p, std::make_shared<nmpc_cgmres::EulerOdeSolver>());
  s.horizon_divide_num_ = 5;
  s.setup();
  Eigen::MatrixXd u = Eigen::MatrixXd::Random(3, 5), got(3, 5), want(3, 5), xs(2, 6), l(2, 6);
  double t = 0.7, T = s.steady_horizon_duration_ * (1 - std::exp(-s.horizon_increase_ratio_ * t)), h = T / 5;
  s.calcDhDuList(t, p->x_initial_, u, got);
  xs.col(0) = p->x_initial_;
  V d(2), xu(5);
  for(int i = 0; i < 5; i++) { p->stateEquation(t + i * h, xs.col(i), u.col(i), d); xs.col(i + 1) = xs.col(i) + h * d; }
  p->calcDphiDx(t + T, xs.col(5), l.col(5));
  for(int i = 4; i >= 0; i--)
  {
    xu << xs.col(i), u.col(i);
    p->costateEquation(t + (i + 1) * h, l.col(i + 1), xu, d);
    l.col(i) = l.col(i + 1) - h * d;
    p->calcDhDu(t + i * h, xs.col(i), u.col(i), l.col(i + 1), want.col(i));
  }
  expect((got - want).norm() < 1e-9, "residual of the sweep");
  return fails != 0;
}
''')
S("s25-first-plant-step-dropped", "C25", [(C, "    x_ = next_x;\n\n    // 3. dump", "    if(i > 0) x_ = next_x;\n\n    // 3. dump")], "CG",
  "the first control step of a run", "the simulated plant loses its first step",
  CGP + r'''
struct Rec : nmpc_cgmres::EulerOdeSolver
{
  std::vector<V> from, to;
  void solve(const StateEquation & f, double t, const Eigen::Ref<const V> & x, const Eigen::Ref<const V> & u, double dt, Eigen::Ref<V> ret) override
  {
    from.push_back(x);
    nmpc_cgmres::EulerOdeSolver::solve(f, t, x, u, dt, ret);
    to.push_back(ret);
  }
};
int main()
{
  auto p = std::make_shared<CProb>();
  auto rec = std::make_shared<Rec>();
  nmpc_cgmres::CgmresSolver s(p, std::make_shared<nmpc_cgmres::EulerOdeSolver>(), rec);
  s.sim_duration_ = 0.01;
  s.run();
  bool ok = rec->from.size() > 3 && (rec->from[0] - p->x_initial_).norm() == 0;
  for(size_t i = 1; i < rec->from.size(); i++) ok = ok && (rec->from[i] - rec->to[i - 1]).norm() == 0;
  expect(ok, "each plant step starts where the last one ended");
  return fails != 0;
}
''')

H = "nmpc_ddp/include/nmpc_ddp/DDPSolver.h"
S("s04-lambda-never-zero", "C04", [(D, "    else\n    {\n      lambda_ = 0;\n    }\n", "    else\n    {\n      lambda_ *= dlambda_ * dlambda_;\n    }\n")], "DDP",
  "an accepted step while the regularisation coefficient is already below its minimum", "the coefficient is not dropped to exactly zero",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 8;
  s.config().max_iter = 3;
  s.config().k_rel_norm_thre = 0;
  s.config().cost_update_thre = -1;
  s.config().initial_lambda = 0.5 * s.config().lambda_min;
  s.solve(0.3, X(1.0, -0.5), std::vector<U>(8, U(0.2, -0.1)));
  const auto & tr = s.traceDataList();
  expect(tr.size() > 1 && tr[1].cost < tr[0].cost && tr[1].lambda == 0, "lambda is zero after an accepted step below the minimum");
  return fails != 0;
}
''')

S("s07-stale-factor", "C07", [(B, "if(iter == 1 || (clamped_flag != old_clamped_flag).any())", "if(iter == 1 || clamped_flag.template cast<int>().sum() != old_clamped_flag.template cast<int>().sum())")], "DDP",
  "an iteration in which one dimension leaves its bound and another one reaches it: the clamped set changes, its size does not",
  "the published Cholesky factor belongs to another free set",
r'''
int main()
{
  bool ok = true;
  srand(3);
  for(int n = 0; n < 200000 && ok; n++)
  {
    nmpc_ddp::BoxQP<3> qp;
    qp.config().print_level = 0;
    Eigen::Matrix3d A = Eigen::Matrix3d::Random(), H = A * A.transpose() + 1e-2 * Eigen::Matrix3d::Identity();
    Eigen::Vector3d g = Eigen::Vector3d::Random() * 2, lo = -0.5 * Eigen::Vector3d::Random().cwiseAbs(), up = 0.5 * Eigen::Vector3d::Random().cwiseAbs(), x0 = Eigen::Vector3d::Random();
    qp.solve(H, g, lo, up, x0);
    if(qp.retval_ < 0 || qp.free_idxs_.empty()) continue;
    Eigen::MatrixXd R = qp.llt_free_->reconstructedMatrix();
    int m = qp.free_idxs_.size();
    ok = R.rows() == m;
    for(int i = 0; ok && i < m; i++)
      for(int j = 0; j < m; j++) ok = ok && std::abs(R(i, j) - H(qp.free_idxs_[i], qp.free_idxs_[j])) < 1e-9;
  }
  expect(ok, "factor of the Hessian restricted to the published free set");
  return fails != 0;
}
''')

S("s08-gradient-threshold", "C08", [(B, "if(grad_norm < std::pow(config_.grad_thre, 2))", "if(grad_norm < config_.grad_thre)")], "DDP",
  "a gradient threshold below one and an iterate whose squared gradient norm lies between the threshold and its square", "iteration stops at a gradient far above the configured threshold",
r'''
int main()
{
  bool ok = true;
  srand(5);
  for(int n = 0; n < 50000 && ok; n++)
  {
    nmpc_ddp::BoxQP<3> qp;
    qp.config().print_level = 0;
    qp.config().grad_thre = 1e-3;
    qp.config().rel_improve_thre = 0;
    Eigen::Matrix3d A = Eigen::Matrix3d::Random(), H = A * A.transpose() + 1e-2 * Eigen::Matrix3d::Identity();
    Eigen::Vector3d g = Eigen::Vector3d::Random() * 0.05, lo = -Eigen::Vector3d::Ones(), up = Eigen::Vector3d::Ones(), x0 = Eigen::Vector3d::Zero();
    Eigen::Vector3d x = qp.solve(H, g, lo, up, x0), gr = g + H * x;
    double q = 0;
    for(int i : qp.free_idxs_) q += gr[i] * gr[i];
    if(qp.retval_ == 5) ok = std::sqrt(q) <= 1e-3;
  }
  expect(ok, "gradient-norm exit only below the configured threshold");
  return fails != 0;
}
''')

S("s10-mixed-constraint-term", "C10", [(F, "Qxu_tilde.noalias() = dt * Lxu + C.transpose() * nu_s.asDiagonal() * D; // (2.28d)", "Qxu_tilde = dt * Lxu; // (2.28d)")], "FMPC",
  "an inequality that couples state and input", "the step is not the solution of the linearised KKT system",
r'''
struct Mixed : FProb
{
  FG ineqConst(double t, const FX & x, const FU & u) const override { return FG(u[0] - umax + 0.5 * x[0], -u[0] - umax, x[0] - xmax); }
  void calcIneqConstDeriv(double, const FX &, const FU &, Eigen::Ref<Eigen::Matrix<double, 3, 2>> gx, Eigen::Ref<FG> gu) const override
  {
    gx.setZero();
    gx(0, 0) = 0.5;
    gx(2, 0) = 1;
    gu << 1, -1, 0;
  }
};
int main()
{
  auto p = std::make_shared<Mixed>();
  FS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 1;
  s.config().max_iter = 1;
  auto v = fguess(1);
  v.nu_list[0] << 2, 0.5, 0.1;
  s.solve(0.2, FX(1, 0.5), v);
  const auto & c = s.coeffList()[0];
  const auto & P = s.coeffList()[1].P;
  FG w = v.nu_list[0].cwiseQuotient(v.s_list[0]);
  FU G = p->dt() * c.Luu + c.D.transpose() * w.asDiagonal() * c.D + c.B.transpose() * P * c.B;
  FX Hm = p->dt() * c.Lxu + c.C.transpose() * w.asDiagonal() * c.D + c.A.transpose() * P * c.B;
  expect((G * c.K + Hm.transpose()).norm() < 1e-10, "feedback gain of the reduced KKT system");
  return fails != 0;
}
''')

S("s11-boundary-rule-last-step", "C11", [(F, "    constexpr double margin_ratio = 0.995;\n    for(int i = 0; i < config_.horizon_steps; i++)\n", "    constexpr double margin_ratio = 0.995;\n    for(int i = 0; i < config_.horizon_steps - 1; i++)\n")], "FMPC",
  "a step limited by a slack or multiplier of the last horizon step", "a component goes past 0.995 of its distance to the boundary",
r'''
int main()
{
  bool ok = true;
  srand(2);
  for(int n = 0; n < 300; n++)
  {
    auto p = std::make_shared<FProb>();
    FS s(p);
    s.config().print_level = 0;
    s.config().horizon_steps = 3;
    s.config().max_iter = 1;
    auto v = fguess(3);
    for(int i = 0; i < 3; i++)
    {
      v.s_list[i] = FG::Constant(0.05) + FG::Random().cwiseAbs();
      v.nu_list[i] = FG::Constant(0.05) + FG::Random().cwiseAbs();
      v.u_list[i].setRandom();
    }
    s.solve(0.2, FX(1, 0.5), v);
    for(int i = 0; i < 3; i++)
      ok = ok && (s.variable().s_list[i].array() >= 0.0049 * v.s_list[i].array()).all() && (s.variable().nu_list[i].array() >= 0.0049 * v.nu_list[i].array()).all();
  }
  expect(ok, "every component keeps half a percent of its distance to the boundary");
  return fails != 0;
}
''')

S("s12-last-iteration-status", "C12", [(F, "  if(status == Status::IterationContinued)\n  {\n    status = Status::MaxIterationReached;", "  if(static_cast<int>(trace_data_list_.size()) == config_.max_iter)\n  {\n    status = Status::MaxIterationReached;")], "FMPC",
  "success (or an error) in the very last allowed iteration", "the status names an exhausted iteration count although the iteration succeeded",
r'''
int main()
{
  auto p = std::make_shared<FProb>();
  FS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 6;
  s.config().max_iter = 60;
  auto st = s.solve(0.2, FX(1.0, 0.5), fguess(6));
  int n = s.traceDataList().size();
  expect(st == FS::Status::Succeeded && n < 60, "converges");
  s.config().max_iter = n;
  expect(s.solve(0.2, FX(1.0, 0.5), fguess(6)) == FS::Status::Succeeded, "success in the last allowed iteration");
  s.config().max_iter = n - 1;
  expect(s.solve(0.2, FX(1.0, 0.5), fguess(6)) == FS::Status::MaxIterationReached, "one iteration less");
  return fails != 0;
}
''')

S("s13-trial-merit-initial-state", "C13", [(F, "    StateDimVector const_func = current_x_ - variable.x_list[0];\n    merit_func_const += const_func.template lpNorm<1>();", "    StateDimVector const_func = variable_.x_list[0] - variable.x_list[0];\n    merit_func_const += const_func.template lpNorm<1>();")], "FMPC",
  "line search with a guess whose first state is not the measured state", "current and trial points are judged by different merit functions",
r'''
struct Peek : FS
{
  using FS::FS;
  double diff()
  {
    setupMeritFunc();
    return merit_func_ - calcMeritFunc(variable_);
  }
};
int main()
{
  auto p = std::make_shared<FProb>();
  Peek s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 3;
  s.config().max_iter = 1;
  s.config().enable_line_search = true;
  s.solve(0.2, FX(1, 0.5), fguess(3));
  FS::Variable v = s.variable();
  s.config().max_iter = 0;
  v.x_list[0] << 0.3, -0.2;
  s.solve(0.2, FX(1, 0.5), v);
  expect(std::abs(s.diff()) < 1e-9, "one merit function for the current and the trial point");
  return fails != 0;
}
''')

S("s14-barrier-upper-limit", "C14", [(F, "barrier_eps_ = std::clamp(sigma * s_nu_ave, barrier_eps_min, barrier_eps_max);", "barrier_eps_ = std::max(sigma * s_nu_ave, barrier_eps_min);")], "FMPC",
  "complementarity products above two million", "the barrier parameter exceeds its upper limit",
r'''
struct Peek : FS
{
  using FS::FS;
  double eps() const { return barrier_eps_; }
};
int main()
{
  auto p = std::make_shared<FProb>();
  Peek s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 4;
  s.config().max_iter = 1;
  auto v = fguess(4);
  for(int i = 0; i < 4; i++) v.s_list[i].setConstant(3e3), v.nu_list[i].setConstant(4e3);
  s.solve(0.2, FX(1, 0.5), v);
  std::fprintf(stderr, "eps %g\n", s.eps());
  expect(s.eps() <= 1e6 && s.eps() >= 1e-8, "barrier parameter within its limits");
  return fails != 0;
}
''')

S("s17-plan-longer-than-horizon", "C17", [(D, "  control_data_.x_list.resize(config_.horizon_steps + 1);\n", "  if(static_cast<int>(control_data_.x_list.size()) < config_.horizon_steps + 1)\n  {\n    control_data_.x_list.resize(config_.horizon_steps + 1);\n  }\n"),
  (D, "    control_data_.x_list = candidate_control_data_.x_list;\n", "    std::copy(candidate_control_data_.x_list.begin(), candidate_control_data_.x_list.end(), control_data_.x_list.begin());\n")], "DDP",
  "a solve with a shorter horizon on an object that solved a longer one before", "the published plan has more than horizon+1 states",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 8;
  s.solve(0, X(1, 0), std::vector<U>(8, U(0, 0)));
  s.config().horizon_steps = 5;
  s.solve(0, X(1, 0), std::vector<U>(5, U(0, 0)));
  expect(s.controlData().x_list.size() == 6 && s.controlData().u_list.size() == 5 && s.controlData().cost_list.size() == 6, "sizes of the plan");
  return fails != 0;
}
''')

S("s18-zero-lambda-stuck", "C18", [(D, "      lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);\n      if(lambda_ > config_.lambda_max)\n      {\n        if(config_.print_level >= 1)\n        {\n          std::cout << \"[DDP/Backward]", "      lambda_ *= dlambda_;\n      if(lambda_ > config_.lambda_max)\n      {\n        if(config_.print_level >= 1)\n        {\n          std::cout << \"[DDP/Backward]")], "DDP",
  "a backward pass that fails while the regularisation coefficient is zero", "the regularisation loop never ends",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  p->luu = -5;
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 4;
  s.config().max_iter = 2;
  s.config().initial_lambda = 0;
  s.solve(0, X(1, 0), std::vector<U>(4, U(0, 0)));
  expect(true, "solve returns");
  return fails != 0;
}
''', timeout=20)

S("s19-failure-printed", "C19", [(D, "  if(!forward_pass_success && config_.print_level >= 3)", "  if(!forward_pass_success && (config_.print_level >= 3 || iter == config_.max_iter))")], "DDP",
  "a rejected line search in the last allowed iteration", "print level 0 is not silent",
r'''
#include <unistd.h>
int main()
{
  std::ostringstream os;
  auto * old = std::cout.rdbuf(os.rdbuf());
  auto p = std::make_shared<DProb>();
  p->nan_after = 6;
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 4;
  s.config().max_iter = 2;
  s.solve(0, X(1, 0), std::vector<U>(4, U(0, 0)));
  std::cout.rdbuf(old);
  expect(os.str().empty(), "print level 0 writes nothing");
  return fails != 0;
}
''')

S("s22-tolerance-base", "C22", [(G, "    double b_norm = b.norm();", "    double b_norm = rho;")], "CG",
  "an initial guess with a residual much larger than the right-hand side", "iteration stops although the residual exceeds the tolerance times the norm of b",
r'''
int main()
{
  srand(4);
  Eigen::MatrixXd A = Eigen::MatrixXd::Random(30, 30) + 20 * Eigen::MatrixXd::Identity(30, 30);
  Eigen::VectorXd b = 1e-1 * Eigen::VectorXd::Ones(30), x = 1e2 * Eigen::VectorXd::Random(30);
  nmpc_cgmres::Gmres g;
  g.solve(static_cast<const Eigen::Ref<const Eigen::MatrixXd> &>(A), b, x, 30, 1e-3);
  std::fprintf(stderr, "%g %g\n", (A * x - b).norm(), b.norm());
  expect((A * x - b).norm() <= 1.01e-3 * b.norm(), "residual at most the tolerance times the norm of b");
  return fails != 0;
}
''')

S("s23-third-stage-time", "C23", [(O, "    state_eq(t + dt_half, x + dt_half * k2, u, k3);", "    state_eq(t, x + dt_half * k2, u, k3);")], "CG",
  "a state equation that depends on time", "the third Runge-Kutta stage is taken at the wrong time",
r'''
int main()
{
  nmpc_cgmres::RungeKuttaOdeSolver s;
  Eigen::VectorXd x(1), u(1), r(1);
  x << 0;
  u << 1;
  // dx/dt = 4 t^3 is integrated exactly up to the rule's own quadrature (Simpson)
  s.solve([](double t, const Eigen::Ref<const Eigen::VectorXd> &, const Eigen::Ref<const Eigen::VectorXd> &, Eigen::Ref<Eigen::VectorXd> d) { d[0] = 3 * t * t; }, 0.5, x, u, 0.4, r);
  expect(near(r[0], 0.9 * 0.9 * 0.9 - 0.125, 1e-9), "quadrature of a cubic");
  return fails != 0;
}
''')

S("s26-terminal-derivative-time", "C26", [(D, "    double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();\n    problem_->calcTerminalCostDeriv(", "    double terminal_t = current_t_ + std::max(0, config_.horizon_steps - 1) * problem_->dt();\n    problem_->calcTerminalCostDeriv(")], "DDP",
  "a terminal cost that depends on time", "the terminal derivative is asked for at the time of the last input instead of the end of the horizon",
r'''
struct Rec : DProb
{
  mutable std::vector<double> ts;
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx, Eigen::Ref<M2> vxx) const override
  {
    ts.push_back(t);
    DProb::calcTerminalCostDeriv(t, x, vx, vxx);
  }
};
int main()
{
  auto p = std::make_shared<Rec>();
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 6;
  s.solve(0.3, X(1.0, -0.5), std::vector<U>(6, U(0.2, -0.1)));
  bool ok = !p->ts.empty();
  for(double t : p->ts) ok = ok && near(t, 0.3 + 6 * p->dt(), 1e-12);
  expect(ok, "terminal derivative at the end of the horizon");
  return fails != 0;
}
''')

S("s27-variable-writable", "C27", [(FH, "  inline const Variable & variable() const\n", "  inline Variable & variable()\n")], "FMPC",
  "a program that writes through the accessor", "the published variables can be modified by their reader",
r'''
#include <type_traits>
template<class T>
constexpr bool ro = std::is_const<std::remove_reference_t<T>>::value || !std::is_lvalue_reference<T>::value;
template<class T, class = void>
struct OnConst : std::false_type {};
template<class T>
struct OnConst<T, std::void_t<decltype(std::declval<const T &>().variable())>> : std::true_type {};
int main()
{
  expect(ro<decltype(std::declval<FS &>().variable())>, "variable() does not hand out a writable reference");
  expect(OnConst<FS>::value, "variable() can be read on a const solver");
  return fails != 0;
}
''')

S("s32-candidate-published", "C32", [(H, "    return control_data_;", "    return trace_data_list_.size() > 1 ? candidate_control_data_ : control_data_;")], "DDP",
  "a solve that ends with a rejected line search", "the accessor returns the last candidate instead of the plan",
r'''
int main()
{
  auto p = std::make_shared<DProb>();
  p->nan_after = 6;
  DS s(p);
  s.config().print_level = 0;
  s.config().horizon_steps = 4;
  s.config().max_iter = 2;
  std::vector<U> u(4, U(0.1, 0.1));
  s.solve(0, X(1, 0), u);
  bool ok = s.controlData().cost_list.allFinite();
  for(int i = 0; i < 4; i++) ok = ok && s.controlData().u_list[i] == u[i];
  expect(ok, "a rejected candidate is not published");
  return fails != 0;
}
''')
