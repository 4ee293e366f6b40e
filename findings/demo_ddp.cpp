// Demonstrations of defects found in nmpc_ddp (exit status = number of failing cases).
#include <iostream>
#include <sstream>
#include <memory>
#include <string>
#include <unordered_map>
#include <nmpc_ddp/DDPSolver.h>
using V1 = Eigen::Matrix<double, 1, 1>;
using V2 = Eigen::Matrix<double, 2, 1>;
struct Prob : nmpc_ddp::DDPProblem<2, 1>
{
  double w = 1, nan = 0, luu = 1;
  Prob() : nmpc_ddp::DDPProblem<2, 1>(0.1) {}
  V2 stateEq(double, const V2 & x, const V1 & u) const override { return V2(x[0] + 0.1 * x[1], x[1] + 0.1 * u[0] + 0.3 * std::sin(x[0])); }
  double runningCost(double, const V2 & x, const V1 & u) const override { return w * x.squaredNorm() + 0.01 * u.squaredNorm(); }
  double terminalCost(double, const V2 & x) const override { return 10 * x.squaredNorm(); }
  void calcStateEqDeriv(double, const V2 & x, const V1 &, Eigen::Ref<Eigen::Matrix2d> fx, Eigen::Ref<V2> fu) const override
  { fx << 1, 0.1, 0.3 * std::cos(x[0]), 1; fu << 0, 0.1; }
  void calcStateEqDeriv(double, const V2 &, const V1 &, Eigen::Ref<Eigen::Matrix2d>, Eigen::Ref<V2>, std::vector<Eigen::Matrix2d> &, std::vector<V1> &, std::vector<V2> &) const override {}
  void calcRunningCostDeriv(double, const V2 & x, const V1 & u, Eigen::Ref<V2> lx, Eigen::Ref<V1> lu) const override { lx = 2 * w * x; lu = 0.02 * u; }
  void calcRunningCostDeriv(double, const V2 & x, const V1 & u, Eigen::Ref<V2> lx, Eigen::Ref<V1> lu, Eigen::Ref<Eigen::Matrix2d> lxx, Eigen::Ref<V1> luu, Eigen::Ref<V2> lxu) const override
  { lx = 2 * w * x; lu = 0.02 * u; lxx = 2 * w * Eigen::Matrix2d::Identity(); luu << 0.02 * luu_(); lxu.setZero(); }
  double luu_() const { return luu; }
  void calcTerminalCostDeriv(double, const V2 & x, Eigen::Ref<V2> vx) const override { vx = 20 * x; }
  void calcTerminalCostDeriv(double, const V2 & x, Eigen::Ref<V2> vx, Eigen::Ref<Eigen::Matrix2d> vxx) const override { vx = 20 * x; if(nan) vx[1] = NAN; vxx = 20 * Eigen::Matrix2d::Identity(); }
};
using S = nmpc_ddp::DDPSolver<2, 1>;
int fails = 0;
void report(const char * n, bool ok) { std::cerr << (ok ? "ok   " : "FAIL ") << n << "\n"; if(!ok) fails++; }
int main()
{
  { // input limits
    auto p = std::make_shared<Prob>(); S s(p);
    s.config().horizon_steps = 30; s.config().with_input_constraint = true; s.config().print_level = 0; s.config().initial_lambda = 1e-6;
    s.setInputLimitsFunc([](double) { std::array<V1, 2> a; a[0] << -1.5; a[1] << 1.5; return a; });
    bool ok = true;
    for(int it = 1; it < 10; it++) { s.config().max_iter = it; s.solve(0, V2(2, 1), std::vector<V1>(30, V1(0.2))); for(auto & u : s.controlData().u_list) ok = ok && std::abs(u[0]) <= 1.5 + 1e-12; }
    report("adopted plan stays within input limits", ok);
  }
  { // NaN derivative reported as success
    auto p = std::make_shared<Prob>(); p->nan = 1; S s(p);
    s.config().horizon_steps = 5; s.config().initial_lambda = 0; s.config().print_level = 0;
    report("NaN gains are not a success", !s.solve(0, V2(2, 1), std::vector<V1>(5, V1(0.0))));
  }
  { // print level 0 silent
    auto p = std::make_shared<Prob>(); p->luu = -20; S s(p);
    s.config().horizon_steps = 10; s.config().print_level = 0; s.config().with_input_constraint = true;
    s.setInputLimitsFunc([](double) { std::array<V1, 2> a; a[0] << -1.5; a[1] << 1.5; return a; });
    std::ostringstream o; auto b = std::cout.rdbuf(o.rdbuf());
    s.solve(0, V2(2, 1), std::vector<V1>(10, V1(0.2)));
    S s2(p); s2.config().horizon_steps = 10; s2.config().print_level = 0; s2.config().max_iter = 3;
    s2.config().reg_type = 2; s2.config().initial_lambda = 1e3; s2.solve(0, V2(2, 1), std::vector<V1>(10, V1(0.2)));
    std::cout.rdbuf(b);
    report("print level 0 prints nothing", o.str().empty());
  }
  { // trace on early return
    auto p = std::make_shared<Prob>(); S s(p); s.config().horizon_steps = 5; s.config().print_level = 0; s.config().initial_lambda = 1e-8;
    s.config().k_rel_norm_thre = 1e9; s.solve(0, V2(2, 1), std::vector<V1>(5, V1(0.0)));
    auto & t = s.traceDataList().back();
    report("trace entry of terminating iteration holds the cost", t.cost == s.controlData().cost_list.sum() && t.lambda == 1e-8);
  }
  { // BoxQP exit code 2
    nmpc_ddp::BoxQP<2> qp; qp.config().armijo_param = 5; qp.config().print_level = 0;
    Eigen::Matrix2d H; H << 2, 0.3, 0.3, 1; qp.solve(H, V2(1, -1), V2(-5, -5), V2(5, 5), V2(3, 3));
    report("failed line search reports code 2", qp.retval_ == 2);
  }
  return fails;
}
