// Shared test problems of the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <vector>
static int fails = 0;
static void expect(bool ok, const char * what)
{
  std::fprintf(stderr, "%s %s\n", ok ? "ok  " : "FAIL", what);
  if(!ok) fails++;
}
static bool near(double a, double b, double tol = 1e-9)
{
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
#ifdef USE_DDP
#  include <nmpc_ddp/DDPSolver.h>
using X = Eigen::Matrix<double, 2, 1>;
using U = Eigen::Matrix<double, 2, 1>;
using M2 = Eigen::Matrix2d;
// time-varying nonlinear system with cross terms in the cost
struct DProb : nmpc_ddp::DDPProblem<2, 2>
{
  double luu = 0.4, cross = 0.1, nan_after = 1e9;
  mutable int calls = 0;
  DProb(double dt = 0.1) : nmpc_ddp::DDPProblem<2, 2>(dt) {}
  X stateEq(double t, const X & x, const U & u) const override
  {
    return X(x[0] + 0.1 * x[1] + 0.05 * u[0] * std::cos(t), x[1] + 0.1 * u[1] + 0.2 * std::sin(x[0]) * std::cos(2 * t));
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    calls++;
    if(calls > nan_after) return std::nan("");
    return x.squaredNorm() * (1 + 0.5 * std::sin(t)) + 0.5 * luu * u.squaredNorm() + cross * x.dot(u);
  }
  double terminalCost(double t, const X & x) const override { return (3 + std::cos(t)) * x.squaredNorm() + x[0]; }
  void calcStateEqDeriv(double t, const X & x, const U &, Eigen::Ref<M2> fx, Eigen::Ref<M2> fu) const override
  {
    fx << 1, 0.1, 0.2 * std::cos(x[0]) * std::cos(2 * t), 1;
    fu << 0.05 * std::cos(t), 0, 0, 0.1;
  }
  void calcStateEqDeriv(double, const X &, const U &, Eigen::Ref<M2>, Eigen::Ref<M2>, std::vector<M2> &, std::vector<M2> &, std::vector<M2> &) const override {}
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu) const override
  {
    lx = 2 * (1 + 0.5 * std::sin(t)) * x + cross * u;
    lu = luu * u + cross * x;
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu, Eigen::Ref<M2> lxx, Eigen::Ref<M2> luu_, Eigen::Ref<M2> lxu) const override
  {
    calcRunningCostDeriv(t, x, u, lx, lu);
    lxx = 2 * (1 + 0.5 * std::sin(t)) * M2::Identity();
    luu_ = luu * M2::Identity();
    lxu = cross * M2::Identity();
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx) const override { vx = 2 * (3 + std::cos(t)) * x + X(1, 0); }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx, Eigen::Ref<M2> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    vxx = 2 * (3 + std::cos(t)) * M2::Identity();
  }
};
using DS = nmpc_ddp::DDPSolver<2, 2>;
// the published plan against an independent rollout
static bool consistent(const DS & s, const DProb & p, double t0, const X & x0)
{
  const auto & c = s.controlData();
  int N = c.u_list.size();
  bool ok = (int)c.x_list.size() == N + 1 && c.cost_list.size() == N + 1 && (c.x_list[0] - x0).norm() == 0;
  double t = t0;
  for(int i = 0; i < N && ok; i++)
  {
    t = t0 + i * p.dt();
    ok = ok && (p.stateEq(t, c.x_list[i], c.u_list[i]) - c.x_list[i + 1]).norm() < 1e-12;
    ok = ok && near(p.runningCost(t, c.x_list[i], c.u_list[i]), c.cost_list[i], 1e-12);
  }
  return ok && near(p.terminalCost(t0 + N * p.dt(), c.x_list[N]), c.cost_list[N], 1e-12);
}
#endif
#ifdef USE_FMPC
#  include <nmpc_fmpc/FmpcSolver.h>
using FX = Eigen::Matrix<double, 2, 1>;
using FU = Eigen::Matrix<double, 1, 1>;
using FG = Eigen::Matrix<double, 3, 1>;
struct FProb : nmpc_fmpc::FmpcProblem<2, 1, 3>
{
  double umax = 0.8, xmax = 5;
  FProb(double dt = 0.1) : nmpc_fmpc::FmpcProblem<2, 1, 3>(dt) {}
  FX stateEq(double t, const FX & x, const FU & u) const override { return FX(x[0] + dt_ * x[1], x[1] + dt_ * (u[0] - 0.3 * std::sin(x[0]) * std::cos(t))); }
  double runningCost(double t, const FX & x, const FU & u) const override { return 0.5 * (1 + 0.5 * std::sin(t)) * x.squaredNorm() + 0.05 * u.squaredNorm() + 0.02 * x[0] * u[0]; }
  double terminalCost(double t, const FX & x) const override { return (1 + 0.2 * std::cos(t)) * x.squaredNorm(); }
  FG ineqConst(double t, const FX & x, const FU & u) const override { return FG(u[0] - umax - 0.1 * std::sin(t), -u[0] - umax, x[0] - xmax); }
  void calcStateEqDeriv(double t, const FX & x, const FU &, Eigen::Ref<Eigen::Matrix2d> fx, Eigen::Ref<FX> fu) const override
  {
    fx << 1, dt_, -dt_ * 0.3 * std::cos(x[0]) * std::cos(t), 1;
    fu << 0, dt_;
  }
  void calcRunningCostDeriv(double t, const FX & x, const FU & u, Eigen::Ref<FX> lx, Eigen::Ref<FU> lu) const override
  {
    lx = (1 + 0.5 * std::sin(t)) * x + FX(0.02 * u[0], 0);
    lu << 0.1 * u[0] + 0.02 * x[0];
  }
  void calcRunningCostDeriv(double t, const FX & x, const FU & u, Eigen::Ref<FX> lx, Eigen::Ref<FU> lu, Eigen::Ref<Eigen::Matrix2d> lxx, Eigen::Ref<FU> luu, Eigen::Ref<FX> lxu) const override
  {
    calcRunningCostDeriv(t, x, u, lx, lu);
    lxx = (1 + 0.5 * std::sin(t)) * Eigen::Matrix2d::Identity();
    luu << 0.1;
    lxu << 0.02, 0;
  }
  void calcTerminalCostDeriv(double t, const FX & x, Eigen::Ref<FX> vx) const override { vx = 2 * (1 + 0.2 * std::cos(t)) * x; }
  void calcTerminalCostDeriv(double t, const FX & x, Eigen::Ref<FX> vx, Eigen::Ref<Eigen::Matrix2d> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    vxx = 2 * (1 + 0.2 * std::cos(t)) * Eigen::Matrix2d::Identity();
  }
  void calcIneqConstDeriv(double, const FX &, const FU &, Eigen::Ref<Eigen::Matrix<double, 3, 2>> gx, Eigen::Ref<FG> gu) const override
  {
    gx.setZero();
    gx(2, 0) = 1;
    gu << 1, -1, 0;
  }
};
using FS = nmpc_fmpc::FmpcSolver<2, 1, 3>;
static FS::Variable fguess(int N)
{
  FS::Variable v(N);
  v.reset(0.0, 0.0, 0.0, 1e0, 1e0);
  return v;
}
// squared norm of the KKT residuals of the returned variables, zero barrier
static double kkt(const FS & s, const FProb & p, double t0, const FX & x0)
{
  const auto & v = s.variable();
  int N = v.u_list.size();
  double e = (x0 - v.x_list[0]).squaredNorm();
  for(int i = 0; i < N; i++)
  {
    double t = t0 + i * p.dt();
    Eigen::Matrix2d A; FX B, lx; FU lu; Eigen::Matrix<double, 3, 2> C; FG D;
    p.calcStateEqDeriv(t, v.x_list[i], v.u_list[i], A, B);
    p.calcRunningCostDeriv(t, v.x_list[i], v.u_list[i], lx, lu);
    p.calcIneqConstDeriv(t, v.x_list[i], v.u_list[i], C, D);
    e += (p.stateEq(t, v.x_list[i], v.u_list[i]) - v.x_list[i + 1]).squaredNorm();
    e += (p.ineqConst(t, v.x_list[i], v.u_list[i]) + v.s_list[i]).squaredNorm();
    e += (lx * p.dt() - v.lambda_list[i] + A.transpose() * v.lambda_list[i + 1] + C.transpose() * v.nu_list[i]).squaredNorm();
    e += (lu * p.dt() + B.transpose() * v.lambda_list[i + 1] + D.transpose() * v.nu_list[i]).squaredNorm();
    e += v.s_list[i].cwiseProduct(v.nu_list[i]).cwiseMax(0.0).squaredNorm();
  }
  FX vx;
  p.calcTerminalCostDeriv(t0 + N * p.dt(), v.x_list[N], vx);
  e += (vx - v.lambda_list[N]).squaredNorm();
  return e;
}
#endif
#ifdef USE_CG
#  include <nmpc_cgmres/CgmresSolver.h>
#  include <nmpc_cgmres/Gmres.h>
#endif
