#!/usr/bin/env python3-vt
"""multi-line breakages written from the property texts: bugs.py [-c] [ids]; prints which properties report them (-c: also compile and test)"""
import sys, os, subprocess, shutil, re, concurrent.futures as cf
B = []
def b(id, prop, mod, *edits): B.append((id, prop, mod, edits))
DH = "nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp"; DD = "nmpc_ddp/include/nmpc_ddp/DDPSolver.h"; BQ = "nmpc_ddp/include/nmpc_ddp/BoxQP.h"
FH = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp"; FS = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h"; MU = "nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"
CS = "nmpc_cgmres/src/CgmresSolver.cpp"; GM = "nmpc_cgmres/include/nmpc_cgmres/Gmres.h"; OD = "nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"

# C16: skip the rollout when the warm start equals the previous plan
b("b01", "C16", "ddp", (DH, """  control_data_.u_list = initial_u_list;
  control_data_.x_list.resize(config_.horizon_steps + 1);
  control_data_.cost_list.resize(config_.horizon_steps + 1);
  control_data_.x_list[0] = current_x;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    double t""", """  const bool reuse = control_data_.u_list.size() == initial_u_list.size() && control_data_.u_list == initial_u_list
                     && control_data_.x_list[0] == current_x;
  control_data_.u_list = initial_u_list;
  control_data_.x_list.resize(config_.horizon_steps + 1);
  control_data_.cost_list.resize(config_.horizon_steps + 1);
  control_data_.x_list[0] = current_x;
  for(int i = 0; i < config_.horizon_steps && !reuse; i++)
  {
    double t"""))
# C16: barrier parameter kept for a warm start
b("b02", "C16", "fmpc", (FH, """  barrier_eps_ = initial_barrier_eps;
""", """  if(trace_data_list_.empty() || config_.init_complementary_variable)
  {
    barrier_eps_ = initial_barrier_eps;
  }
"""))
# C16: merit scale monotone over the solves
b("b03", "C16", "fmpc", (FH, """    merit_const_scale_ = merit_const_scale_min;
    for""", """    merit_const_scale_ = std::max(merit_const_scale_, merit_const_scale_min);
    for"""))
b("b03b", "C13", "fmpc", *B[-1][3])
# C16: cached regularised hessian; static warm start
b("b04", "C16", "ddp", (DH, """        InputDimVector initial_k;
        if(i == config_.horizon_steps - 1)
        {
          initial_k.setZero(input_dim);
        }
        else
        {
          if(k_list_[i + 1].size() == input_dim)
          {
            initial_k = k_list_[i + 1];""", """        InputDimVector initial_k;
        {
          const int warm_idx = std::min(i + 1, config_.horizon_steps - 1);
          if(k_list_[warm_idx].size() == input_dim)
          {
            initial_k = k_list_[warm_idx];"""))
# C17: coefficients kept when the count is unchanged although dimensions may differ
b("b05", "C17", "fmpc", (FH, """    coeff_list_.clear();
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      double t = current_t_ + i * problem_->dt();
      coeff_list_.emplace_back(problem_->stateDim(), problem_->inputDim(t), problem_->ineqDim(t));
    }
""", """    coeff_list_.resize(std::min(static_cast<int>(coeff_list_.size()), config_.horizon_steps), Coefficient(problem_->stateDim()));
    for(int i = static_cast<int>(coeff_list_.size()); i < config_.horizon_steps; i++)
    {
      double t = current_t_ + i * problem_->dt();
      coeff_list_.emplace_back(problem_->stateDim(), problem_->inputDim(t), problem_->ineqDim(t));
    }
"""))
# C18
b("b06", "C18", "ddp", (DH, """  for(int iter = 1; iter <= config_.max_iter; iter++)
  {
    retval = procOnce(iter);
    if(retval != 0)
    {
      break;
    }
  }""", """  int iter = 1;
  while(iter <= config_.max_iter)
  {
    retval = procOnce(iter);
    if(retval != 0)
    {
      break;
    }
    if(lambda_ < config_.lambda_max)
    {
      iter++;
    }
  }"""))
b("b07", "C18", "fmpc", (FH, """      if(alpha_s < alpha_s_min)
      {""", """      if(alpha_s < alpha_s_min * alpha_s_max && merit_deriv_ < 0)
      {"""))
b("b08", "C18", "ddp", (BQ, """        if(step < config_.min_step)
        {
          retval_ = 2;
          break;
        }
""", """        if(step < config_.min_step && obj_candidate > old_obj)
        {
          retval_ = 2;
          break;
        }
"""))
# C19
b("b09", "C19", "ddp", (DH, """        qp.config().print_level = std::min(config_.print_level, 1);
""", """        if(config_.print_level > 0)
        {
          qp.config().print_level = std::min(config_.print_level, 1);
        }
"""))
b("b10", "C19", "fmpc", (FH, """  delta_variable_.print_level = config_.print_level;

""", """
"""))
# C02: the tested candidate is not the adopted one
b("b11", "C02", "ddp", (DH, """      if(cost_update_ratio > config_.cost_update_ratio_thre)
      {
        forward_pass_success = true;
        break;
      }
    }
""", """      if(cost_update_ratio > config_.cost_update_ratio_thre)
      {
        forward_pass_success = true;
        if(cost_update_ratio > 0.5 || i + 1 == config_.alpha_list.size())
        {
          break;
        }
      }
    }
"""))
b("b12", "C02", "ddp", (DH, """      cost_update_actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
""", """      cost_update_actual = (control_data_.cost_list - candidate_control_data_.cost_list).head(config_.horizon_steps).sum()
                           + std::abs(control_data_.cost_list[config_.horizon_steps]
                                      - candidate_control_data_.cost_list[config_.horizon_steps]);
"""))
# C04
b("b13", "C04", "ddp", (DH, """        trace_data.cost = control_data_.cost_list.sum();
        trace_data.lambda = lambda_;
        trace_data.dlambda = dlambda_;
        return -1; // Failure
""", """        trace_data.cost = control_data_.cost_list.sum();
        trace_data.lambda = lambda_;
        trace_data.dlambda = dlambda_;
        return trace_data_list_.size() > 2 ? 1 : -1; // Failure
"""))
b("b14", "C04", "ddp", (DH, """  return retval == 1;
""", """  return retval == 1 || (retval == 0 && trace_data_list_.back().k_rel_norm < config_.k_rel_norm_thre);
"""))
# C05
b("b15", "C05", "ddp", (DH, """      const auto & u_limits = input_limits_func_(t);
      InputDimVector & u = candidate""", """      const auto & u_limits = input_limits_func_(alpha < 1 ? current_t_ : t);
      InputDimVector & u = candidate"""))
b("b16", "C05", "ddp", (DH, """            Qux_reg_free.row(j) = Qux_reg.row(free_idxs[j]);
""", """            Qux_reg_free.row(j) = Qux_reg.row(static_cast<int>(j));
"""))
# C06
b("b17", "C06", "ddp", (BQ, """    VarDimVector x = initial_x.cwiseMin(upper).cwiseMax(lower);
""", """    VarDimVector x = initial_x;
    if((x.array() > upper.array()).any())
    {
      x = x.cwiseMin(upper);
    }
    else if((x.array() < lower.array()).any())
    {
      x = x.cwiseMax(lower);
    }
"""))
# C07
b("b18", "C07", "ddp", (BQ, """      if(clamped_flag.all())
      {
        retval_ = 6;
        break;
      }
""", """      if(clamped_flag.all())
      {
        retval_ = 6;
        free_idxs_.clear();
        clamped_flag = old_clamped_flag;
        for(int i = 0; i < clamped_flag.size(); i++)
        {
          if(!clamped_flag[i] && iter > 2)
          {
            free_idxs_.push_back(i);
          }
        }
        break;
      }
"""))
# C08
b("b19", "C08", "ddp", (BQ, """          H_free_clamped(i, j) = H(free_idxs_[i], clamped_idxs[j]);
""", """          H_free_clamped(i, j) = (j <= i ? H(free_idxs_[i], clamped_idxs[j]) : H(free_idxs_[j], clamped_idxs[i]));
"""))
# C09
b("b20", "C09", "fmpc", (FH, """  if(kkt_error <= config_.kkt_error_thre)
  {
    return""", """  if(kkt_error <= config_.kkt_error_thre || (iter > 1 && kkt_error <= config_.kkt_error_thre * (1.0 + 1e-3 * iter)))
  {
    return"""))
b("b21", "C09", "fmpc", (FH, """    kkt_error += coeff.x_bar.squaredNorm();
    kkt_error += coeff.g_bar.squaredNorm();
""", """    kkt_error += coeff.x_bar.squaredNorm();
    kkt_error += coeff.g_bar.cwiseMax(0.0).squaredNorm();
"""))
# C10
b("b22", "C10", "fmpc", (FH, """            K.noalias() = -1 * lu_G.solve(H.transpose()); // (2.35e)
""", """            K.noalias() = -1 * lu_G.solve(Qxu_tilde.transpose()); // (2.35e)
"""))
b("b23", "C10", "fmpc", (FH, """      k.setZero(0);
        K.setZero(0, problem_->stateDim());
      }
""", """      k.setZero(0);
        K.setZero(0, problem_->stateDim());
        P.setZero();
      }
"""))
# C11
b("b24", "C11", "fmpc", (FH, """          alpha_nu_max = std::min(alpha_nu_max, -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx]);
        }
      }
    }
""", """          alpha_nu_max = std::min(alpha_nu_max, -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx]);
        }
      }
      if(alpha_s_max < 1e-6 || alpha_nu_max < 1e-6)
      {
        break;
      }
    }
"""))
b("b25", "C11", "fmpc", (FH, """        variable_.nu_list[i] = variable_.nu_list[i].array().max(min_positive_value).matrix();
""", """        variable_.nu_list[i] = variable_.nu_list[i].array().max(0.0).matrix();
"""))
# C12
b("b26", "C12", "fmpc", (FH, """  if(config_.check_nan && delta_variable_.containsNaN())
  {
    if""", """  if(config_.check_nan && config_.print_level >= 1 && delta_variable_.containsNaN())
  {
    if"""))
b("b27", "C12", "fmpc", (FH, """  for(auto & nu : nu_list)
  {
    CHECK_NAN(nu, "[FMPC/Variable] ");
  }

  return false;""", """  for(size_t i = 1; i < nu_list.size(); i++)
  {
    const auto & nu = nu_list[i];
    CHECK_NAN(nu, "[FMPC/Variable] ");
  }

  return false;"""))
# C13
b("b28", "C13", "fmpc", (FH, """      double merit_func_new = calcMeritFunc(ls_variable);
      if(merit_func_new < merit_func_ + armijo_scale * alpha_s * merit_deriv_)
""", """      double merit_func_new = calcMeritFunc(ls_variable);
      if(merit_func_new < merit_func_ + armijo_scale * alpha_s_max * merit_deriv_)
"""))
# C14
b("b29", "C14", "fmpc", (FH, """      total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
""", """      total_ineq_dim = std::max(total_ineq_dim, static_cast<int>(variable_.s_list[i].size()) * config_.horizon_steps);
"""))
# C15
b("b30", "C15", "fmpc", (FH, """  // Check variable_
  checkVariable();
""", """  // Check variable_
  if(!config_.init_complementary_variable || IneqDim != Eigen::Dynamic)
  {
    checkVariable();
  }
"""))
b("b31", "C15", "ddp", (DH, """      double t = current_t_ + i * problem_->dt();
      if(initial_u_list[i].size() != problem_->inputDim(t))
""", """      double t = current_t_ + i * problem_->dt();
      if(initial_u_list[i].size() < problem_->inputDim(t))
"""))
# C20
b("b32", "C20", "ddp", (DH, """    trace_data.cost = control_data_.cost_list.sum();
    trace_data.lambda = lambda_;
    trace_data.dlambda = dlambda_;
    return 1; // Terminate
""", """    trace_data.cost = trace_data_list_[iter - 1].cost;
    trace_data.lambda = trace_data_list_[iter - 1].lambda;
    trace_data.dlambda = dlambda_;
    return 1; // Terminate
"""))
b("b33", "C20", "fmpc", (FH, """  double kkt_error = calcKktError(0.0);
  trace_data.kkt_error = kkt_error;
  if(kkt_error <= config_.kkt_error_thre)
  {
    return Status::Succeeded;
  }
""", """  double kkt_error = calcKktError(0.0);
  if(kkt_error <= config_.kkt_error_thre)
  {
    return Status::Succeeded;
  }
  trace_data.kkt_error = kkt_error;
"""))
# C22
b("b34", "C22", "cgmres", (GM, """          for(int j = 0; j < k; j++)
          {
            double h_tmp""", """          for(int j = 0; j < k - 1; j++)
          {
            double h_tmp"""))
b("b35", "C22", "cgmres", (GM, """    // 4.
    for(int i = 0; i < k; i++)
""", """    // 4.
    for(int i = 0; i < std::min(k, static_cast<int>(b.size()) - 1) + (k < 2 ? 1 : 0) && i < k; i++)
"""))
# C24
b("b36", "C24", "cgmres", (CS, """    problem_->calcDhDu(tau, x_list_.col(i), u_list.col(i), lmd_list_.col(i + 1), DhDu_list.col(i));
""", """    problem_->calcDhDu(tau, x_list_.col(i), u_list_.col(i), lmd_list_.col(i + 1), DhDu_list.col(i));
"""))
# C25
b("b37", "C25", "cgmres", (CS, """  x_with_delta_ = (1 - finite_diff_delta_ / dt_) * x + (finite_diff_delta_ / dt_) * next_x;
""", """  x_with_delta_ = next_x;
  if(finite_diff_delta_ < dt_)
  {
    x_with_delta_ = x + finite_diff_delta_ * (next_x - x);
  }
"""))
b("b38", "C25", "cgmres", (CS, """  // 2.3 update u_list_ from delta_u_vec_
""", """  // 2.3 update u_list_ from delta_u_vec_
  if(!delta_u_vec_.allFinite())
  {
    delta_u_vec_.setZero();
  }
"""))
# C26
b("b39", "C26", "ddp", (DH, """      const StateDimVector & x = control_data_.x_list[i];
      const InputDimVector & u = control_data_.u_list[i];
      if(config_.use""", """      const StateDimVector & x = control_data_.x_list[i];
      const InputDimVector & u =
          iter > 1 && config_.with_input_constraint ? candidate_control_data_.u_list[i] : control_data_.u_list[i];
      if(config_.use"""))
b("b40", "C26", "fmpc", (FH, """  double dt = problem_->dt();

  {
    StateDimVector const_func = current_x_ - variable.x_list[0];""", """  const double dt = problem_->dt();
  double elapsed = 0.0;

  {
    StateDimVector const_func = current_x_ - variable.x_list[0];"""), (FH, """    double terminal_t = current_t_ + config_.horizon_steps * dt;
    const StateDimVector & terminal_x = variable.x_list[config_.horizon_steps];

    merit_func_obj += problem_->terminalCost(terminal_t, terminal_x);
  }

  return""", """    double terminal_t = current_t_ + elapsed;
    const StateDimVector & terminal_x = variable.x_list[config_.horizon_steps];

    merit_func_obj += problem_->terminalCost(terminal_t, terminal_x);
  }

  return"""), (FH, """    const IneqDimVector & s = variable.s_list[i];
    const StateDimVector & next_x = variable.x_list[i + 1];

    {""", """    const IneqDimVector & s = variable.s_list[i];
    const StateDimVector & next_x = variable.x_list[i + 1];
    elapsed = i * dt;

    {"""))
# C01
b("b41", "C01", "ddp", (DH, """    control_data_.x_list = candidate_control_data_.x_list;
    control_data_.u_list = candidate_control_data_.u_list;
    control_data_.cost_list = candidate_control_data_.cost_list;
""", """    control_data_.x_list.swap(candidate_control_data_.x_list);
    control_data_.u_list.swap(candidate_control_data_.u_list);
    if(cost_update_actual > 0)
    {
      control_data_.cost_list.swap(candidate_control_data_.cost_list);
    }
"""))
# C03
b("b42", "C03", "ddp", (DH, """    Vx.noalias() = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
""", """    Vx.noalias() = Qx + K.transpose() * Qu + (config_.with_input_constraint ? Qux : Qux_reg).transpose() * k
                   + K.transpose() * Quu * k;
"""))

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if a[0] != '-']
    def one(x):
        id, prop, mod, edits = x
        d = '/tmp/bugs/%s' % id
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s' % d, shell=True, check=True)
        try:
            for f, a, c in edits:
                p = os.path.join(d, f); s = open(p).read()
                if s.count(a) != 1: return id, prop, 'EDIT %d matches: %s' % (s.count(a), a[:80])
                open(p, 'w').write(s.replace(a, c))
            r = subprocess.run(['timeout', '900', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'all.py'), d, mod, '-e'], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
            o = r.stdout + r.stderr[-800:]
            m = re.search(r"HIT (\{.*?\})", o)
            st = 'CAUGHT' if m and "'%s'" % prop in m.group(1) else 'other' if m else 'MISSED'
            return id, prop, st + ' ' + (m.group(1) if m else o[-600:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(7) as ex:
        for id, prop, o in ex.map(one, [x for x in B if not ids or x[0] in ids or x[0][0] in ids]):
            print('==', id, prop, o, flush=True)
