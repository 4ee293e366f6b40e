// Demonstrations of defects found in nmpc_fmpc (exit status = number of failing cases).
#include <iostream>
#include <sstream>
#include <cstring>
#include <new>
#include <cstdlib>
static void * poison(std::size_t n) { void * p = std::malloc(n ? n : 1); std::memset(p, 0xff, n); return p; }
void * operator new(std::size_t n) { return poison(n); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
#include <nmpc_fmpc/FmpcSolver.h>
#ifndef NQ
#define NQ 2
#endif
using V1 = Eigen::Matrix<double, 1, 1>;
using V2 = Eigen::Matrix<double, 2, 1>;
using VQ = Eigen::Matrix<double, NQ, 1>;
struct Prob : nmpc_fmpc::FmpcProblem<2, 1, NQ>
{
  int q = 2;
  Prob() : nmpc_fmpc::FmpcProblem<2, 1, NQ>(0.1) {}
  using nmpc_fmpc::FmpcProblem<2, 1, NQ>::ineqDim;
  int ineqDim(double) const override { return q; }
  V2 stateEq(double, const V2 & x, const V1 & u) const override { return V2(x[0] + 0.1 * x[1], x[1] + 0.1 * u[0]); }
  double runningCost(double, const V2 & x, const V1 & u) const override { return x.squaredNorm() + 0.01 * u.squaredNorm(); }
  double terminalCost(double, const V2 & x) const override { return x.squaredNorm(); }
  VQ ineqConst(double, const V2 &, const V1 & u) const override { VQ g(q); if(q == 2) g << u[0] - 1, -1 - u[0]; return g; }
  void calcStateEqDeriv(double, const V2 &, const V1 &, Eigen::Ref<Eigen::Matrix2d> fx, Eigen::Ref<V2> fu) const override { fx << 1, 0.1, 0, 1; fu << 0, 0.1; }
  void calcRunningCostDeriv(double, const V2 & x, const V1 & u, Eigen::Ref<V2> lx, Eigen::Ref<V1> lu) const override { lx = 2 * x; lu = 0.02 * u; }
  void calcRunningCostDeriv(double, const V2 & x, const V1 & u, Eigen::Ref<V2> lx, Eigen::Ref<V1> lu, Eigen::Ref<Eigen::Matrix2d> lxx, Eigen::Ref<V1> luu, Eigen::Ref<V2> lxu) const override
  { lx = 2 * x; lu = 0.02 * u; lxx = 2 * Eigen::Matrix2d::Identity(); luu << 0.02; lxu.setZero(); }
  void calcTerminalCostDeriv(double, const V2 & x, Eigen::Ref<V2> vx) const override { vx = 2 * x; }
  void calcTerminalCostDeriv(double, const V2 & x, Eigen::Ref<V2> vx, Eigen::Ref<Eigen::Matrix2d> vxx) const override { vx = 2 * x; vxx = 2 * Eigen::Matrix2d::Identity(); }
  void calcIneqConstDeriv(double, const V2 &, const V1 &, Eigen::Ref<Eigen::Matrix<double, NQ, 2>> c, Eigen::Ref<Eigen::Matrix<double, NQ, 1>> d) const override { c.setZero(); if(q == 2) d << 1, -1; }
};
using S = nmpc_fmpc::FmpcSolver<2, 1, NQ>;
int fails = 0;
void report(const char * n, bool ok) { std::cerr << (ok ? "ok   " : "FAIL ") << n << "\n"; if(!ok) fails++; }
S::Variable guess(int N, int q = 2)
{
  S::Variable v(N);
  for(auto & s : v.s_list) s.resize(q);
  for(auto & s : v.nu_list) s.resize(q);
  v.reset(0, 0, 0, 1, 1);
  return v;
}
struct T : S { using S::S; using S::current_x_; using S::variable_; using S::delta_variable_; using S::coeff_list_; using S::setupMeritFunc; using S::calcMeritFunc; using S::merit_func_; using S::merit_deriv_; using S::merit_const_scale_; using S::updateVariables; };
int main()
{
  { auto p = std::make_shared<Prob>(); S s(p); s.config().horizon_steps = 10; s.config().print_level = 0; s.config().max_iter = 50;
    auto st = s.solve(0, V2(1, 1), guess(10)); report("no uninitialised terminal coefficient is mistaken for NaN", st == S::Status::Succeeded); }
  { auto p = std::make_shared<Prob>(); S s(p); s.config().horizon_steps = 10; s.config().print_level = 0; s.config().init_complementary_variable = true;
    bool thrown = false; try { auto v = guess(3); s.solve(0, V2(1, 1), v); } catch(const std::invalid_argument &) { thrown = true; } report("short guess rejected before use (run with ASan)", thrown); }
  { auto p = std::make_shared<Prob>(); S a(p), b(p); for(S * s : {&a, &b}) { s->config().horizon_steps = 10; s->config().print_level = 0; }
    a.config().max_iter = 3; a.solve(0, V2(1, 1), guess(10)); for(S * s : {&a, &b}) { s->config().update_barrier_eps = false; s->config().max_iter = 2; s->solve(0, V2(1, 1), guess(10)); }
    report("barrier does not leak from an earlier solve", a.variable().u_list[0] == b.variable().u_list[0]); }
  { auto p = std::make_shared<Prob>(); S s(p); s.config().horizon_steps = 3; s.config().print_level = 3; s.config().max_iter = 0;
    std::ostringstream o; auto bf = std::cout.rdbuf(o.rdbuf()); s.solve(0, V2(1, 1), guess(3)); std::cout.rdbuf(bf); report("max_iter 0 at print level 3 does not read an empty trace (run with ASan)", o.str().find("iter: 0") != std::string::npos); }
  { // negative slack through rounding of subnormals
    auto p = std::make_shared<Prob>(); T s(p); s.config().horizon_steps = 1; s.config().print_level = 0;
    s.variable_ = guess(1); s.delta_variable_ = guess(1); s.variable_.s_list[0].setConstant(3 * 4.94e-324); s.delta_variable_.s_list[0].setConstant(-1.9); s.delta_variable_.nu_list[0].setZero();
    s.updateVariables(); report("slacks stay positive", (s.variable_.s_list[0].array() > 0).all()); }
  { // slope of merit function at zero residual
    auto p = std::make_shared<Prob>(); T s(p); s.config().horizon_steps = 2; s.config().print_level = 0; s.config().max_iter = 1; s.config().update_barrier_eps = false;
    auto v = guess(2); v.x_list[0] = V2(1, 1); v.x_list[1] = V2(1.1, 1); v.x_list[2] = V2(1.2, 1); for(auto & sl : v.s_list) sl << 1, 1;
    s.solve(0, V2(1, 1), v); auto d = s.delta_variable_; s.variable_ = v; s.setupMeritFunc(); double h = 1e-7; auto w = v;
    for(int i = 0; i < 3; i++) { w.x_list[i] += h * d.x_list[i]; if(i < 2) { w.u_list[i] += h * d.u_list[i]; w.s_list[i] += h * d.s_list[i]; } }
    double fd = (s.calcMeritFunc(w) - s.merit_func_) / h; report("merit slope is the directional derivative", std::abs(fd - s.merit_deriv_) < 1e-4 * (1 + std::abs(fd))); std::cerr << fd << " " << s.merit_deriv_ << "\n"; }
#if NQ == -1
  { auto p = std::make_shared<Prob>(); p->q = 0; S s(p); s.config().horizon_steps = 10; s.config().print_level = 0; s.config().max_iter = 50; s.config().enable_line_search = true; s.config().merit_const_scale_from_lagrange_multipliers = true;
    auto st = s.solve(0, V2(1, 1), guess(10, 0)); report("problem without inequalities is solved", st == S::Status::Succeeded); }
#endif
  return fails;
}
