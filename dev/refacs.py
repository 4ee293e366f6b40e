# behaviour-preserving edits, by module: (id, mods, [(file, old, new), ...])
DH = "nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp"
DD = "nmpc_ddp/include/nmpc_ddp/DDPSolver.h"
BQ = "nmpc_ddp/include/nmpc_ddp/BoxQP.h"
FH = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp"
FD = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h"
MU = "nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"
CS = "nmpc_cgmres/src/CgmresSolver.cpp"
CD = "nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h"
GM = "nmpc_cgmres/include/nmpc_cgmres/Gmres.h"
OD = "nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"
TD = "template<int StateDim, int InputDim>\n"
TF = "template<int StateDim, int InputDim, int IneqDim>\n"
R = []
def r(id, mods, *edits):
    R.append((id, mods, edits))

# ------------------------------------------------------------------ DDP
r("d01", "ddp", (DH, """  control_data_.x_list[0] = current_x;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    double t = current_t_ + i * problem_->dt();
    control_data_.x_list[i + 1] = problem_->stateEq(t, control_data_.x_list[i], control_data_.u_list[i]);
    control_data_.cost_list[i] = problem_->runningCost(t, control_data_.x_list[i], control_data_.u_list[i]);
  }
  double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();
  control_data_.cost_list[config_.horizon_steps] =
      problem_->terminalCost(terminal_t, control_data_.x_list[config_.horizon_steps]);
""", """  control_data_.x_list[0] = current_x;
  rolloutInitial();
"""), (DH, TD + "int DDPSolver<StateDim, InputDim>::procOnce", TD + """void DDPSolver<StateDim, InputDim>::rolloutInitial()
{
  const int n = config_.horizon_steps;
  int i = 0;
  while(i < n)
  {
    const double t = current_t_ + i * problem_->dt();
    const auto & x = control_data_.x_list[i];
    const auto & u = control_data_.u_list[i];
    control_data_.cost_list[i] = problem_->runningCost(t, x, u);
    control_data_.x_list[i + 1] = problem_->stateEq(t, x, u);
    ++i;
  }
  control_data_.cost_list[n] = problem_->terminalCost(current_t_ + n * problem_->dt(), control_data_.x_list[n]);
}

""" + TD + "int DDPSolver<StateDim, InputDim>::procOnce"), (DD, "  bool backwardPass();", "  bool backwardPass();\n  void rolloutInitial();"))
r("d02", "ddp", (DH, """      // Increase lambda
      dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
      lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
      if(lambda_ > config_.lambda_max)
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[DDP/Backward]""", """      // Increase lambda
      increaseLambda();
      if(lambda_ > config_.lambda_max)
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[DDP/Backward]"""), (DH, """    // Increase lambda
    dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
    lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
    if(""", """    // Increase lambda
    increaseLambda();
    if("""), (DD, "  bool backwardPass();", """  bool backwardPass();

  inline void increaseLambda()
  {
    dlambda_ = config_.lambda_factor * std::max(dlambda_, 1.0);
    lambda_ = std::max(dlambda_ * lambda_, config_.lambda_min);
  }
"""))
r("d03", "ddp", (DH, """  for(int iter = 1; iter <= config_.max_iter; iter++)
  {
    retval = procOnce(iter);
    if(retval != 0)
    {
      break;
    }
  }
""", """  int iter = 0;
  while(retval == 0 && iter < config_.max_iter)
  {
    iter++;
    retval = procOnce(iter);
  }
"""))
r("d04", "ddp", (DH, """    for(int i = 0; i < config_.alpha_list.size(); i++)
    {
      alpha = config_.alpha_list[i];
""", """    for(int alpha_idx = 0; alpha_idx < config_.alpha_list.size() && !forward_pass_success; ++alpha_idx)
    {
      alpha = config_.alpha_list[alpha_idx];
"""), (DH, """        forward_pass_success = true;
        break;
      }""", """        forward_pass_success = true;
      }"""))
r("d05", "ddp", (DH, """    dlambda_ = std::min(dlambda_ / config_.lambda_factor, 1 / config_.lambda_factor);
    if(lambda_ >= config_.lambda_min)
    {
      lambda_ *= dlambda_;
    }
    else
    {
      lambda_ = 0;
    }
""", """    dlambda_ = std::min(dlambda_, 1.0) / config_.lambda_factor;
    lambda_ = lambda_ < config_.lambda_min ? 0 : lambda_ * dlambda_;
"""))
r("d06", "ddp", (DH, """  double k_rel_norm = 0;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
  }
  trace_data.k_rel_norm = k_rel_norm;
""", """  const double k_rel_norm = calcKRelNorm();
  trace_data.k_rel_norm = k_rel_norm;
"""), (DH, TD + "bool DDPSolver<StateDim, InputDim>::backwardPass", TD + """double DDPSolver<StateDim, InputDim>::calcKRelNorm() const
{
  double ret = 0;
  for(size_t i = 0; i < k_list_.size(); i++)
  {
    double val = k_list_[i].norm() / (1.0 + control_data_.u_list[i].norm());
    if(ret < val)
    {
      ret = val;
    }
  }
  return ret;
}

""" + TD + "bool DDPSolver<StateDim, InputDim>::backwardPass"), (DD, "  bool backwardPass();", "  bool backwardPass();\n  double calcKRelNorm() const;"))
r("d07", "ddp", (DH, """    Qu.noalias() = Lu + Fu.transpose() * Vx;

    Qx.noalias() = Lx + Fx.transpose() * Vx;
""", """    Qx = Lx;
    Qx.noalias() += Fx.transpose() * Vx;
    Qu = Fu.transpose() * Vx + Lu;
"""), (DH, """    Vxx_symmetric = 0.5 * (Vxx + Vxx.transpose());
    Vxx = Vxx_symmetric;
""", """    Vxx = (0.5 * (Vxx + Vxx.transpose())).eval();
"""), (DH, "  StateStateDimMatrix Vxx_symmetric;\n", ""))
r("d08", "ddp", (DH, """        InputDimVector initial_k;
        if(i == config_.horizon_steps - 1)
        {
          initial_k.setZero(input_dim);
        }
        else
        {
          if(k_list_[i + 1].size() == input_dim)
          {
            initial_k = k_list_[i + 1];
          }
          else
          {
            initial_k.setZero(input_dim);
          }
        }
""", """        InputDimVector initial_k = InputDimVector::Zero(input_dim);
        if(i + 1 < config_.horizon_steps && k_list_[i + 1].size() == input_dim)
        {
          initial_k = k_list_[i + 1];
        }
"""))
r("d09", "ddp", (DH, """      u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
""", """      for(int j = 0; j < u.size(); j++)
      {
        if(u_limits[1][j] < u[j]) u[j] = u_limits[1][j];
        if(u[j] < u_limits[0][j]) u[j] = u_limits[0][j];
      }
"""))
r("d10", "ddp", (DH, """    control_data_.x_list = candidate_control_data_.x_list;
    control_data_.u_list = candidate_control_data_.u_list;
    control_data_.cost_list = candidate_control_data_.cost_list;
""", """    control_data_ = candidate_control_data_;
"""))
r("d11", "ddp", (DH, """  trace_data_list_.clear();
  TraceData initial_trace_data;
  initial_trace_data.iter = 0;
  initial_trace_data.cost = control_data_.cost_list.sum();
  initial_trace_data.lambda = lambda_;
  initial_trace_data.dlambda = dlambda_;
  trace_data_list_.push_back(initial_trace_data);
""", """  trace_data_list_.clear();
  trace_data_list_.emplace_back();
  TraceData & first = trace_data_list_.front();
  first.dlambda = dlambda_;
  first.lambda = lambda_;
  first.cost = control_data_.cost_list.sum();
  first.iter = 0;
"""))
r("d12", "ddp", (DH, """  for(const auto & trace_data : trace_data_list_)
  {
    // clang-format off
    ofs << trace_data.iter << " "
""", """  for(size_t row = 0; row < trace_data_list_.size(); row++)
  {
    const TraceData & trace_data = trace_data_list_[row];
    // clang-format off
    ofs << trace_data.iter << " "
"""), (DH, """      << "duration_forward" << std::endl;""", """      << "duration_forward\\n";"""))
r("d13", "ddp", (DH, """      if(cost_update_expected < 0)
      {""", """      const bool no_decrease_expected = (0 > cost_update_expected);
      if(no_decrease_expected)
      {"""), (DH, "cost_update_expected = -1 * alpha * (dV_[0] + alpha * dV_[1]);", "cost_update_expected = -(alpha * dV_[0] + alpha * alpha * dV_[1]);"))
r("d14", "ddp", (DH, """    if(input_dim > 0)
    {
      if(config_.with_input_constraint)
      {
        InputDimVector initial_k;""", """    if(input_dim == 0)
    {
      k.setZero(0);
      K.setZero(0, problem_->stateDim());
    }
    else
    {
      if(config_.with_input_constraint)
      {
        InputDimVector initial_k;"""), (DH, """    else
    {
      k.setZero(0);
      K.setZero(0, problem_->stateDim());
    }

    if(!k""", """
    if(!k"""))
r("d15", "ddp", (DH, """        k = -1 * llt_Quu_F.solve(Qu);
        K = -1 * llt_Quu_F.solve(Qux_reg);
""", """        K = -llt_Quu_F.solve(Qux_reg);
        k = -llt_Quu_F.solve(Qu);
"""), (DH, "if(llt_Quu_F.info() == Eigen::NumericalIssue)", "if(llt_Quu_F.info() != Eigen::Success)"))
r("d16", "ddp", (DH, """    Vx.noalias() = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
    Vxx.noalias() = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
""", """    const StateInputDimMatrix Kt = K.transpose();
    Vx = Qx + Kt * (Quu * k + Qu) + Qux.transpose() * k;
    Vxx = Qxx + Kt * (Quu * K + Qux) + Qux.transpose() * K;
"""), (DH, """    dV_ += Eigen::Vector2d(k.dot(Qu), 0.5 * k.dot(Quu * k));
""", """    dV_[0] += Qu.dot(k);
    dV_[1] += 0.5 * (k.transpose() * Quu * k)(0, 0);
"""))
r("d17", "ddp", (DH, """  int retval = 0; // Continue
  if(forward_pass_success)""", """  int retval = 0; // Continue
  const int unused_iter = iter;
  (void)unused_iter;
  if(forward_pass_success)"""), (DH, """  // Resize list
  candidate_control_data_.x_list.resize(config_.horizon_steps + 1);
  candidate_control_data_.u_list.resize(config_.horizon_steps);
  candidate_control_data_.cost_list.resize(config_.horizon_steps + 1);
""", """  // Resize list
  const auto resize = [](ControlData & data, int n)
  {
    data.cost_list.resize(n + 1);
    data.u_list.resize(n);
    data.x_list.resize(n + 1);
  };
  resize(candidate_control_data_, config_.horizon_steps);
"""))
r("d18", "ddp", (DH, """          Eigen::MatrixXd Qux_reg_free(free_idxs.size(), problem_->stateDim());
          for(size_t j = 0; j < free_idxs.size(); j++)
          {
            Qux_reg_free.row(j) = Qux_reg.row(free_idxs[j]);
          }
          Eigen::MatrixXd K_free = -1 * qp.llt_free_->solve(Qux_reg_free);
          for(size_t j = 0; j < free_idxs.size(); j++)
          {
            K.row(free_idxs[j]) = K_free.row(j);
          }
""", """          const int free_num = static_cast<int>(free_idxs.size());
          Eigen::MatrixXd rhs(free_num, problem_->stateDim());
          int row = 0;
          for(const auto & idx : free_idxs)
          {
            rhs.row(row++) = Qux_reg.row(idx);
          }
          const Eigen::MatrixXd sol = qp.llt_free_->solve(rhs);
          for(int j = 0; j < free_num; ++j)
          {
            K.row(free_idxs[j]) = -sol.row(j);
          }
"""))
r("d19", "ddp", (DH, """    while(!backwardPass())
    {""", """    for(;;)
    {
      if(backwardPass())
      {
        break;
      }"""))
r("d20", "ddp", (DH, """  if(static_cast<int>(initial_u_list.size()) != config_.horizon_steps)
  {
    throw""", """  const int given = static_cast<int>(initial_u_list.size());
  if(given < config_.horizon_steps || config_.horizon_steps < given)
  {
    throw"""))
# ------------------------------------------------------------------ BoxQP
r("b01", "ddp", (BQ, """    VarDimVector x = initial_x.cwiseMin(upper).cwiseMax(lower);
    double obj = x.dot(g) + 0.5 * x.dot(H * x);
""", """    VarDimVector x = project(initial_x, lower, upper);
    double obj = calcObj(H, g, x);
"""), (BQ, """      VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
      double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
""", """      VarDimVector x_candidate = project(x + step * search_dir, lower, upper);
      double obj_candidate = calcObj(H, g, x_candidate);
"""), (BQ, """        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
""", """        x_candidate = project(x + step * search_dir, lower, upper);
        obj_candidate = calcObj(H, g, x_candidate);
"""), (BQ, """protected:
  //! Configuration
""", """protected:
  static VarDimVector project(const VarDimVector & v, const VarDimVector & lower, const VarDimVector & upper)
  {
    return v.cwiseMin(upper).cwiseMax(lower);
  }
  static double calcObj(const VarVarDimMatrix & H, const VarDimVector & g, const VarDimVector & v)
  {
    return 0.5 * v.dot(H * v) + g.dot(v);
  }

  //! Configuration
"""))
r("b02", "ddp", (BQ, """      clamped_flag.setConstant(false);
      clamped_flag =
          ((x.array() == lower.array() && grad.array() > 0) || (x.array() == upper.array() && grad.array() < 0))
              .select(true, clamped_flag);

      // Set clamped and free indices
      std::vector<int> clamped_idxs;
      free_idxs_.clear();
      for(int i = 0; i < clamped_flag.size(); i++)
      {
        if(clamped_flag[i])
        {
          clamped_idxs.push_back(i);
        }
        else
        {
          free_idxs_.push_back(i);
        }
      }
""", """      std::vector<int> clamped_idxs;
      free_idxs_.clear();
      for(int i = 0; i < var_dim_; i++)
      {
        const bool at_lower = x[i] == lower[i] && grad[i] > 0;
        const bool at_upper = x[i] == upper[i] && grad[i] < 0;
        clamped_flag[i] = at_lower || at_upper;
        if(at_lower || at_upper)
        {
          clamped_idxs.push_back(i);
        }
        else
        {
          free_idxs_.push_back(i);
        }
      }
"""))
r("b03", "ddp", (BQ, """      double grad_norm = 0;
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        grad_norm += std::pow(grad[free_idxs_[i]], 2);
      }
      if(grad_norm < std::pow(config_.grad_thre, 2))
""", """      double grad_norm = 0;
      for(const int idx : free_idxs_)
      {
        grad_norm += grad[idx] * grad[idx];
      }
      if(grad_norm < config_.grad_thre * config_.grad_thre)
"""))
r("b04", "ddp", (BQ, """    for(;; iter++)
    {
      // Append""", """    while(true)
    {
      // Append"""), (BQ, """      if(iter >= config_.max_iter)
      {
        retval_ = 1;
        break;
      }
""", """      if(!(iter < config_.max_iter))
      {
        retval_ = 1;
        break;
      }
      iter++;
"""))
r("b05", "ddp", (BQ, """      VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
      double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
      while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)
      {
        step = step * config_.step_factor;
        step_num++;
        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
        if(step < config_.min_step)
        {
          retval_ = 2;
          break;
        }
      }
""", """      VarDimVector x_candidate;
      double obj_candidate;
      while(true)
      {
        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
        if(step_num > 0 && step < config_.min_step)
        {
          retval_ = 2;
          break;
        }
        const double ratio = (obj_candidate - old_obj) / (step * search_dir_grad);
        if(!(ratio < config_.armijo_param))
        {
          break;
        }
        step *= config_.step_factor;
        ++step_num;
      }
"""))
r("b06", "ddp", (BQ, """        Eigen::MatrixXd H_free(free_idxs_.size(), free_idxs_.size());
        for(size_t i = 0; i < free_idxs_.size(); i++)
        {
          for(size_t j = 0; j < free_idxs_.size(); j++)
          {
            H_free(i, j) = H(free_idxs_[i], free_idxs_[j]);
          }
        }
""", """        const Eigen::MatrixXd H_free = extractFree(H);
"""), (BQ, """protected:
  //! Configuration
""", """protected:
  Eigen::MatrixXd extractFree(const VarVarDimMatrix & H) const
  {
    const size_t n = free_idxs_.size();
    Eigen::MatrixXd ret(n, n);
    for(size_t col = 0; col < n; col++)
    {
      for(size_t row = 0; row < n; row++)
      {
        ret(row, col) = H(free_idxs_[row], free_idxs_[col]);
      }
    }
    return ret;
  }

  //! Configuration
"""))
r("b07", "ddp", (BQ, """      Eigen::VectorXd search_dir_free = -1 * llt_free_->solve(grad_free_clamped) - x_free;
      VarDimVector search_dir = VarDimVector::Zero(var_dim_);
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        search_dir[free_idxs_[i]] = search_dir_free[i];
      }
""", """      Eigen::VectorXd newton_point = -llt_free_->solve(grad_free_clamped);
      VarDimVector search_dir(var_dim_);
      search_dir.setZero();
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        search_dir[free_idxs_[i]] = newton_point[i] - x_free[i];
      }
"""))
r("b08", "ddp", (BQ, """    const std::unordered_map""", """    const std::unordered_map""") if False else (BQ, """      if(iter == 1 || (clamped_flag != old_clamped_flag).any())
      {""", """      const bool changed = !(clamped_flag == old_clamped_flag).all();
      if(changed || iter == 1)
      {"""))
# ------------------------------------------------------------------ FMPC
r("f01", "fmpc", (FH, """  {
    kkt_error += (current_x_ - variable_.x_list[0]).squaredNorm();
  }
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    kkt_error += coeff.x_bar.squaredNorm();
    kkt_error += coeff.g_bar.squaredNorm();
    kkt_error += coeff.Lx_bar.squaredNorm();
    kkt_error += coeff.Lu_bar.squaredNorm();
    kkt_error +=
        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm();
  }
  {
    const auto & terminal_coeff = coeff_list_[config_.horizon_steps];
    kkt_error += terminal_coeff.Lx_bar.squaredNorm();
  }

  kkt_error = std::sqrt(kkt_error);

  return kkt_error;
""", """  for(int i = 0; i <= config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    kkt_error += coeff.Lx_bar.squaredNorm();
    if(i == config_.horizon_steps)
    {
      break;
    }
    kkt_error += coeff.Lu_bar.squaredNorm() + coeff.g_bar.squaredNorm() + coeff.x_bar.squaredNorm();
    const IneqDimVector comp = (variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).array() - barrier_eps).max(0).matrix();
    kkt_error += comp.dot(comp);
  }
  return std::sqrt(kkt_error + (variable_.x_list[0] - current_x_).squaredNorm());
"""))
r("f02", "fmpc", (FH, """      for(int ineq_idx = 0; ineq_idx < s.size(); ineq_idx++)
      {
        // (19.9) in "Nocedal, Wright. Numerical optimization"
        if(delta_s[ineq_idx] < 0)
        {
          alpha_s_max = std::min(alpha_s_max, -1 * margin_ratio * s[ineq_idx] / delta_s[ineq_idx]);
        }
        if(delta_nu[ineq_idx] < 0)
        {
          alpha_nu_max = std::min(alpha_nu_max, -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx]);
        }
      }
""", """      const auto fraction = [&](const IneqDimVector & val, const IneqDimVector & delta, double alpha)
      {
        for(int j = 0; j < val.size(); j++)
        {
          if(!(delta[j] < 0))
          {
            continue;
          }
          const double limit = -margin_ratio * val[j] / delta[j];
          if(limit < alpha)
          {
            alpha = limit;
          }
        }
        return alpha;
      };
      alpha_nu_max = fraction(nu, delta_nu, alpha_nu_max);
      alpha_s_max = fraction(s, delta_s, alpha_s_max);
"""))
r("f03", "fmpc", (FH, """    while(true)
    {
      if(alpha_s < alpha_s_min)
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] alpha_s is too small in line search backtracking. alpha_s_max: " << alpha_s_max
                    << ", alpha_s: " << alpha_s << std::endl;
        }
        break;
      }

      for(int i = 0; i < config_.horizon_steps + 1; i++)
      {
        ls_variable.x_list[i] = variable_.x_list[i] + alpha_s * delta_variable_.x_list[i];

        if(i < config_.horizon_steps)
        {
          ls_variable.u_list[i] = variable_.u_list[i] + alpha_s * delta_variable_.u_list[i];
          ls_variable.s_list[i] = variable_.s_list[i] + alpha_s * delta_variable_.s_list[i];
        }
      }

      double merit_func_new = calcMeritFunc(ls_variable);
      if(merit_func_new < merit_func_ + armijo_scale * alpha_s * merit_deriv_)
      {
        break;
      }
      alpha_s *= alpha_s_update_ratio;
    }
""", """    bool accepted = false;
    while(!accepted && !(alpha_s < alpha_s_min))
    {
      for(int i = 0; i < config_.horizon_steps; i++)
      {
        ls_variable.x_list[i] = variable_.x_list[i] + alpha_s * delta_variable_.x_list[i];
        ls_variable.u_list[i] = variable_.u_list[i] + alpha_s * delta_variable_.u_list[i];
        ls_variable.s_list[i] = variable_.s_list[i] + alpha_s * delta_variable_.s_list[i];
      }
      ls_variable.x_list[config_.horizon_steps] = variable_.x_list[config_.horizon_steps] + alpha_s * delta_variable_.x_list[config_.horizon_steps];

      accepted = calcMeritFunc(ls_variable) < merit_func_ + armijo_scale * alpha_s * merit_deriv_;
      if(!accepted)
      {
        alpha_s *= alpha_s_update_ratio;
      }
    }
    if(!accepted && config_.print_level >= 1)
    {
      std::cout << "[FMPC/Update] alpha_s is too small in line search backtracking. alpha_s_max: " << alpha_s_max
                << ", alpha_s: " << alpha_s << std::endl;
    }
"""))
r("f04", "fmpc", (FH, """  {
    auto & terminal_coeff = coeff_list_[config_.horizon_steps];
    s = -1 * terminal_coeff.Lx_bar; // (2.34)
    P = terminal_coeff.Lxx; // (2.34)
    terminal_coeff.s = s;
    terminal_coeff.P = P;
  }

  for(int i = config_.horizon_steps - 1; i >= 0; i--)
  {
    // Get""", """  auto & terminal_coeff = coeff_list_.back();
  terminal_coeff.P = terminal_coeff.Lxx; // (2.34)
  terminal_coeff.s = -terminal_coeff.Lx_bar; // (2.34)
  s = terminal_coeff.s;
  P = terminal_coeff.P;

  for(int j = 0; j < config_.horizon_steps; j++)
  {
    const int i = config_.horizon_steps - 1 - j;
    // Get"""), (FH, """      P_symmetric = 0.5 * (P + P.transpose()); // Enforce symmetric
      // Assigning directly to P without using the intermediate variable P_symmetric yields incorrect results!
      P = P_symmetric;
""", """      P = (0.5 * (P + P.transpose())).eval(); // Enforce symmetric
"""), (FH, "  StateStateDimMatrix P_symmetric;\n", ""))
r("f05", "fmpc", (FH, """        if(llt_G.info() == Eigen::Success)
        {
          k.noalias() = -1 * llt_G.solve(B.transpose() * (P * x_bar - s) + Lu_tilde); // (2.35e)
          K.noalias() = -1 * llt_G.solve(H.transpose()); // (2.35e)
        }
        else
        {
          if(config_.print_level >= 1)
          {
            std::cout << "[FMPC/Backward] G is not positive definite in Cholesky decomposition (LLT)." << std::endl;
          }
          if(config_.break_if_llt_fails)
          {
            return false;
          }
          else
          {
            Eigen::FullPivLU<InputInputDimMatrix> lu_G(G);
            k.noalias() = -1 * lu_G.solve(B.transpose() * (P * x_bar - s) + Lu_tilde); // (2.35e)
            K.noalias() = -1 * lu_G.solve(H.transpose()); // (2.35e)
          }
        }
""", """        const InputDimVector rhs = Lu_tilde + B.transpose() * (P * x_bar - s);
        const InputStateDimMatrix Ht = H.transpose();
        if(llt_G.info() != Eigen::Success)
        {
          if(config_.print_level >= 1)
          {
            std::cout << "[FMPC/Backward] G is not positive definite in Cholesky decomposition (LLT)." << std::endl;
          }
          if(config_.break_if_llt_fails)
          {
            return false;
          }
          Eigen::FullPivLU<InputInputDimMatrix> lu_G(G);
          K = -lu_G.solve(Ht); // (2.35e)
          k = -lu_G.solve(rhs); // (2.35e)
        }
        else
        {
          K = -llt_G.solve(Ht); // (2.35e)
          k = -llt_G.solve(rhs); // (2.35e)
        }
"""))
r("f06", "fmpc", (FH, """  for(int i = 0; i < config_.horizon_steps + 1; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.lambda_list[i].noalias() = coeff.P * delta_variable_.x_list[i] - coeff.s; // (2.33)

    if(i < config_.horizon_steps)
    {
      delta_variable_.u_list[i].noalias() = coeff.K * delta_variable_.x_list[i] + coeff.k; // (2.36)
      delta_variable_.x_list[i + 1].noalias() =
          coeff.A * delta_variable_.x_list[i] + coeff.B * delta_variable_.u_list[i] + coeff.x_bar; // (2.26b)
    }
  }

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.s_list[i].noalias() =
        -1 * (coeff.C * delta_variable_.x_list[i] + coeff.D * delta_variable_.u_list[i] + coeff.g_bar); // (2.27a)
    delta_variable_.nu_list[i].noalias() =
        (-1 * (variable_.nu_list[i].array() * (delta_variable_.s_list[i] + variable_.s_list[i]).array() - barrier_eps_)
         / variable_.s_list[i].array())
            .matrix(); // (2.27b)
  }
""", """  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    const auto & dx = delta_variable_.x_list[i];
    auto & du = delta_variable_.u_list[i];
    auto & ds = delta_variable_.s_list[i];
    const auto & s = variable_.s_list[i];
    const auto & nu = variable_.nu_list[i];

    du = coeff.k + coeff.K * dx; // (2.36)
    delta_variable_.x_list[i + 1] = coeff.x_bar + coeff.A * dx + coeff.B * du; // (2.26b)
    delta_variable_.lambda_list[i] = coeff.P * dx - coeff.s; // (2.33)
    ds = -(coeff.g_bar + coeff.C * dx + coeff.D * du); // (2.27a)
    delta_variable_.nu_list[i] = ((barrier_eps_ - nu.array() * (ds + s).array()) / s.array()).matrix(); // (2.27b)
  }
  {
    const int n = config_.horizon_steps;
    delta_variable_.lambda_list[n] = coeff_list_[n].P * delta_variable_.x_list[n] - coeff_list_[n].s; // (2.33)
  }
"""))
r("f07", "fmpc", (FH, """  merit_func_ = merit_func_obj + merit_const_scale_ * merit_func_const;
  merit_deriv_""", """  merit_func_ = calcMeritFunc(variable_);
  merit_deriv_"""))
r("f08", "fmpc", (FH, """    double s_nu_ave = 0.0;
    int total_ineq_dim = 0;
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
      total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
    }
    if(total_ineq_dim > 0)
    {
      s_nu_ave /= total_ineq_dim;
    }

    double sigma = 0.5;
""", """    double s_nu_sum = 0.0;
    int total_ineq_dim = 0;
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
      for(int j = 0; j < variable_.s_list[i].size(); j++)
      {
        s_nu_sum += variable_.nu_list[i][j] * variable_.s_list[i][j];
      }
    }
    double s_nu_ave = total_ineq_dim == 0 ? s_nu_sum : s_nu_sum / total_ineq_dim;

    constexpr double sigma = 0.5;
"""), (FH, "barrier_eps_ = std::clamp(sigma * s_nu_ave, barrier_eps_min, barrier_eps_max);", """barrier_eps_ = sigma * s_nu_ave;
    if(barrier_eps_ < barrier_eps_min)
    {
      barrier_eps_ = barrier_eps_min;
    }
    else if(barrier_eps_max < barrier_eps_)
    {
      barrier_eps_ = barrier_eps_max;
    }"""))
r("f09", "fmpc", (FH, """  for(auto & x : x_list)
  {
    CHECK_NAN(x, "[FMPC/Variable] ");
  }
  for(auto & u : u_list)
  {
    CHECK_NAN(u, "[FMPC/Variable] ");
  }
  for(auto & lambda : lambda_list)
  {
    CHECK_NAN(lambda, "[FMPC/Variable] ");
  }
""", """  for(size_t i = 0; i < lambda_list.size(); i++)
  {
    const auto & lambda = lambda_list[i];
    CHECK_NAN(lambda, "[FMPC/Variable] ");
  }
  const auto bad = [](const auto & v) { return !v.allFinite(); };
  if(std::any_of(x_list.begin(), x_list.end(), bad) || std::any_of(u_list.begin(), u_list.end(), bad))
  {
    return true;
  }
"""))
r("f10", "fmpc", (FH, """  CHECK_NAN(x_bar, "[FMPC/Coefficient] ");
  CHECK_NAN(g_bar, "[FMPC/Coefficient] ");
  CHECK_NAN(Lx_bar, "[FMPC/Coefficient] ");
  CHECK_NAN(Lu_bar, "[FMPC/Coefficient] ");
  CHECK_NAN(k, "[FMPC/Coefficient] ");
  CHECK_NAN(K, "[FMPC/Coefficient] ");
  CHECK_NAN(s, "[FMPC/Coefficient] ");
  CHECK_NAN(P, "[FMPC/Coefficient] ");

  return false;
""", """  const bool ok = x_bar.allFinite() && g_bar.allFinite() && Lx_bar.allFinite() && Lu_bar.allFinite() && k.allFinite()
                  && K.allFinite() && s.allFinite() && P.allFinite();
  return !ok;
"""))
r("f11", "fmpc", (FH, """  for(int iter = 1; iter <= config_.max_iter; iter++)
  {
    status = procOnce(iter);
    if(status != Status::IterationContinued)
    {
      break;
    }
  }
  if(status == Status::IterationContinued)
  {
    status = Status::MaxIterationReached;
  }
""", """  int iter = 1;
  while(iter <= config_.max_iter)
  {
    status = procOnce(iter++);
    if(status == Status::IterationContinued)
    {
      continue;
    }
    break;
  }
  status = (status == Status::IterationContinued ? Status::MaxIterationReached : status);
"""))
r("f12", "fmpc", (FH, """  // Check non-negative
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    double t = current_t_ + i * problem_->dt();
    if((variable_.s_list[i].array() < 0).any())
    {
      throw std::runtime_error("[FMPC] s_list[i] must be non-negative. i: " + std::to_string(i)
                               + ", time: " + std::to_string(t));
    }
    if((variable_.nu_list[i].array() < 0).any())
    {
      throw std::runtime_error("[FMPC] nu_list[i] must be non-negative. i: " + std::to_string(i)
                               + ", time: " + std::to_string(t));
    }
  }
""", """  // Check non-negative
  const auto check = [this](const std::vector<IneqDimVector> & list, const std::string & name)
  {
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      for(int j = 0; j < list[i].size(); j++)
      {
        if(list[i][j] < 0)
        {
          throw std::runtime_error("[FMPC] " + name + "[i] must be non-negative. i: " + std::to_string(i)
                                   + ", time: " + std::to_string(current_t_ + i * problem_->dt()));
        }
      }
    }
  };
  check(variable_.s_list, "s_list");
  check(variable_.nu_list, "nu_list");
"""))
r("f13", "fmpc", (FH, """      variable_.s_list[i] = (1.0 + complementary_variable_margin_rate)
                            * (-1 * problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]))
                                  .cwiseMax(complementary_variable_min);
      variable_.nu_list[i] = (1.0 + complementary_variable_margin_rate)
                             * (barrier_eps_ * variable_.s_list[i].cwiseInverse()).cwiseMax(complementary_variable_min);
""", """      const double scale = 1.0 + complementary_variable_margin_rate;
      IneqDimVector s = -problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]);
      s = scale * s.cwiseMax(complementary_variable_min);
      IneqDimVector nu = (barrier_eps_ / s.array()).matrix();
      variable_.nu_list[i] = scale * nu.cwiseMax(complementary_variable_min);
      variable_.s_list[i] = s;
"""))
r("f14", "fmpc", (FH, """      constexpr double min_positive_value = std::numeric_limits<double>::min();
      if((variable_.s_list[i].array() < 0).any())
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] Updated s is negative: " << variable_.s_list[i].transpose() << std::endl;
        }
        variable_.s_list[i] = variable_.s_list[i].array().max(min_positive_value).matrix();
      }
      if((variable_.nu_list[i].array() < 0).any())
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] Updated nu is negative: " << variable_.nu_list[i].transpose() << std::endl;
        }
        variable_.nu_list[i] = variable_.nu_list[i].array().max(min_positive_value).matrix();
      }
""", """      repairNegative(variable_.s_list[i], "s");
      repairNegative(variable_.nu_list[i], "nu");
"""), (FD, "#include <memory>", "#include <iostream>\n#include <limits>\n#include <memory>"), (FD, "  bool updateVariables();", """  bool updateVariables();

  void repairNegative(IneqDimVector & vec, const std::string & name) const
  {
    constexpr double min_positive_value = std::numeric_limits<double>::min();
    if(!(vec.array() < 0).any())
    {
      return;
    }
    if(config_.print_level >= 1)
    {
      std::cout << "[FMPC/Update] Updated " << name << " is negative: " << vec.transpose() << std::endl;
    }
    vec = vec.cwiseMax(min_positive_value).eval();
  }
"""))
r("f15", "fmpc", (FH, """      coeff.x_bar = problem_->stateEq(t, x, u) - next_x; // (2.23c)
      coeff.g_bar = problem_->ineqConst(t, x, u) + s; // (2.23d)
      coeff.Lx_bar =
          -1 * lambda + dt * coeff.Lx + coeff.A.transpose() * next_lambda + coeff.C.transpose() * nu; // (2.25b)
      coeff.Lu_bar = dt * coeff.Lu + coeff.B.transpose() * next_lambda + coeff.D.transpose() * nu; // (2.25c)
""", """      coeff.Lu_bar = dt * coeff.Lu; // (2.25c)
      coeff.Lu_bar += coeff.B.transpose() * next_lambda;
      coeff.Lu_bar += coeff.D.transpose() * nu;
      coeff.Lx_bar = dt * coeff.Lx - lambda; // (2.25b)
      coeff.Lx_bar.noalias() += coeff.A.transpose() * next_lambda;
      coeff.Lx_bar.noalias() += coeff.C.transpose() * nu;
      coeff.g_bar = s + problem_->ineqConst(t, x, u); // (2.23d)
      coeff.x_bar = -next_x + problem_->stateEq(t, x, u); // (2.23c)
"""))
r("f16", "fmpc", (FH, """    merit_const_scale_ = merit_const_scale_min;
    for(int i = 0; i < config_.horizon_steps + 1; i++)
    {
      merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());

      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
      {
        merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
      }
    }
""", """    double scale = merit_const_scale_min;
    for(const auto & lambda : variable_.lambda_list)
    {
      scale = std::max(scale, lambda.template lpNorm<Eigen::Infinity>());
    }
    for(const auto & nu : variable_.nu_list)
    {
      for(int j = 0; j < nu.size(); j++)
      {
        scale = std::max(scale, std::abs(nu[j]));
      }
    }
    merit_const_scale_ = scale;
"""))
r("f17", "fmpc", (MU, """  double deriv = 0.0;
  for(int i = 0; i < func.size(); i++)
  {
    if(func(i) > 0)
    {
      deriv += jac.row(i).transpose().dot(dir);
    }
    else if(func(i) < 0)
    {
      deriv += -1 * jac.row(i).transpose().dot(dir);
    }
    else
    {
      deriv += std::abs(jac.row(i).transpose().dot(dir));
    }
  }
  return deriv;
""", """  const Eigen::Matrix<double, OutputDim, 1> prod = jac * dir;
  double deriv = 0.0;
  for(int i = 0; i < func.size(); i++)
  {
    const double val = prod(i);
    const double sign = func(i) > 0 ? 1.0 : (func(i) < 0 ? -1.0 : (val < 0 ? -1.0 : 1.0));
    deriv += sign * val;
  }
  return deriv;
"""))
r("f18", "fmpc", (FH, """  for(int i = 0; i < config_.horizon_steps + 1; i++)
  {
    variable_.x_list[i] += alpha_s * delta_variable_.x_list[i];
    variable_.lambda_list[i] += alpha_nu * delta_variable_.lambda_list[i];

    if(i < config_.horizon_steps)
    {
      variable_.u_list[i]""", """  for(int i = 0; i < config_.horizon_steps + 1; i++)
  {
    variable_.lambda_list[i] += alpha_nu * delta_variable_.lambda_list[i];
  }
  for(size_t i = 0; i < variable_.x_list.size(); i++)
  {
    variable_.x_list[i] = variable_.x_list[i] + alpha_s * delta_variable_.x_list[i];
  }
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    {
      variable_.u_list[i]"""))
# ------------------------------------------------------------------ CGMRES
r("c01", "cgmres", (GM, """      for(int j = 0; j < k; j++)
      {
        // i.
        H_(j, k - 1) = new_basis.dot(basis_[j]);
        // ii.
        new_basis = new_basis - H_(j, k - 1) * basis_[j];
      }
""", """      for(int j = 0; j < k; j++)
      {
        const double h = basis_[j].dot(new_basis);
        new_basis -= h * basis_[j];
        H_(j, k - 1) = h;
      }
"""), (GM, """        double nu = std::sqrt(std::pow(H_(k - 1, k - 1), 2) + std::pow(H_(k, k - 1), 2));

        // iii.
        double c_k = H_(k - 1, k - 1) / nu;
        double s_k = -H_(k, k - 1) / nu;
        c_list.push_back(c_k);
        s_list.push_back(s_k);
        H_(k - 1, k - 1) = c_k * H_(k - 1, k - 1) - s_k * H_(k, k - 1);
        H_(k, k - 1) = 0;
""", """        const double h0 = H_(k - 1, k - 1);
        const double h1 = H_(k, k - 1);
        const double nu = std::sqrt(h0 * h0 + h1 * h1);

        // iii.
        const double c_k = h0 / nu;
        const double s_k = -h1 / nu;
        s_list.push_back(s_k);
        c_list.push_back(c_k);
        H_(k, k - 1) = 0;
        H_(k - 1, k - 1) = c_k * h0 - s_k * h1;
"""))
r("c02", "cgmres", (GM, """    for(int i = 0; i < k; i++)
    {
      x += y_k(i) * basis_[i];
    }
""", """    Eigen::VectorXd update = Eigen::VectorXd::Zero(x.size());
    for(int i = k - 1; i >= 0; i--)
    {
      update += y_k(i) * basis_[i];
    }
    x += update;
"""))
r("c03", "cgmres", (GM, """          double h0 = H_(i, k - 1);
          double h1 = H_(i + 1, k - 1);
          double c = c_list[i];
          double s = s_list[i];
          H_(i, k - 1) = c * h0 - s * h1;
          H_(i + 1, k - 1) = s * h0 + c * h1;
""", """          rotate(c_list[i], s_list[i], H_(i, k - 1), H_(i + 1, k - 1));
"""), (GM, """        double g0 = g_(k - 1);
        double g1 = g_(k);
        g_(k - 1) = c_k * g0 - s_k * g1;
        g_(k) = s_k * g0 + c_k * g1;
""", """        rotate(c_k, s_k, g_(k - 1), g_(k));
"""), (GM, """public:
  bool make_triangular_""", """protected:
  static void rotate(double c, double s, double & a, double & b)
  {
    const double tmp = c * a - s * b;
    b = s * a + c * b;
    a = tmp;
  }

public:
  bool make_triangular_"""))
r("c04", "cgmres", (CS, """  double tau = t;
  for(int i = 0; i < horizon_divide_num_; i++)
  {
    // 1.2 calculate x_list_[1, ..., horizon_divide_num_]
    ode_solver_->solve(std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                       tau, x_list_.col(i), u_list.col(i), horizon_divide_step, x_list_.col(i + 1));
    tau += horizon_divide_step;
  }
""", """  const OdeSolver::StateEquation state_eq = std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4);
  double tau = t;
  for(int i = 1; i <= horizon_divide_num_; i++)
  {
    // 1.2 calculate x_list_[1, ..., horizon_divide_num_]
    ode_solver_->solve(state_eq, tau, x_list_.col(i - 1), u_list.col(i - 1), horizon_divide_step, x_list_.col(i));
    tau += horizon_divide_step;
  }
"""))
r("c05", "cgmres", (CS, """    ode_solver_->solve(std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                       tau, x_list_.col(i)""", """    ode_solver_->solve([this](double s, const Eigen::Ref<const Eigen::VectorXd> & x_, const Eigen::Ref<const Eigen::VectorXd> & u_,
                              Eigen::Ref<Eigen::VectorXd> dotx) { problem_->stateEquation(s, x_, u_, dotx); },
                       tau, x_list_.col(i)"""))
r("c06", "cgmres", (CS, """  for(int i = 0; i < horizon_divide_num_; i++)
  {
    u_list_.col(i) += dt_ * delta_u_vec_.segment(i * problem_->dim_uc_, problem_->dim_uc_);
  }
""", """  u_list_ += dt_ * Eigen::Map<const Eigen::MatrixXd>(delta_u_vec_.data(), problem_->dim_uc_, horizon_divide_num_);
"""))
r("c07", "cgmres", (CS, """  for(int i = 0; i < horizon_divide_num_; i++)
  {
    u_list_.col(i) += dt_ * delta_u_vec_.segment(i * problem_->dim_uc_, problem_->dim_uc_);
  }
""", """  const int dim = problem_->dim_uc_;
  for(int i = 0; i < horizon_divide_num_; i++)
  {
    for(int j = 0; j < dim; j++)
    {
      u_list_(j, i) = u_list_(j, i) + dt_ * delta_u_vec_(i * dim + j);
    }
  }
"""))
r("c08", "cgmres", (OD, """    double dt_half = dt / 2;
    Eigen::VectorXd k1(x.size()), k2(x.size()), k3(x.size()), k4(x.size());
    state_eq(t, x, u, k1);
    state_eq(t + dt_half, x + dt_half * k1, u, k2);
    state_eq(t + dt_half, x + dt_half * k2, u, k3);
    state_eq(t + dt, x + dt * k3, u, k4);
    ret = x + (dt / 6) * (k1 + 2 * k2 + 2 * k3 + k4);
""", """    const double t_mid = t + 0.5 * dt;
    Eigen::VectorXd k(x.size());
    Eigen::VectorXd sum(x.size());
    state_eq(t, x, u, k);
    sum = k;
    state_eq(t_mid, x + 0.5 * dt * k, u, k);
    sum += 2 * k;
    state_eq(t_mid, x + 0.5 * dt * k, u, k);
    sum += 2 * k;
    state_eq(t + dt, x + dt * k, u, k);
    sum += k;
    ret = x + dt * sum / 6;
"""))
r("c09", "cgmres", (CS, """  for(int i = 0; i < 100; i++)
  {
    problem_->calcDhDu(t_initial, x_, u_, lmd_initial, DhDu);
    if(DhDu.norm() <= DhDu_tol)
    {
      break;
    }

    gmres.solve(Amul_func, -DhDu, delta_u, problem_->dim_uc_, 1e-10);
    u_ += delta_u;
  }
""", """  int newton_iter = 0;
  while(newton_iter < 100)
  {
    problem_->calcDhDu(t_initial, x_, u_, lmd_initial, DhDu);
    const bool converged = DhDu.norm() <= DhDu_tol;
    if(converged)
    {
      break;
    }
    gmres.solve(Amul_func, -1 * DhDu, delta_u, problem_->dim_uc_, 1e-10);
    u_ = u_ + delta_u;
    newton_iter++;
  }
"""))
r("c10", "cgmres", (CS, """  x_with_delta_ = (1 - finite_diff_delta_ / dt_) * x + (finite_diff_delta_ / dt_) * next_x;
""", """  const double ratio = finite_diff_delta_ / dt_;
  x_with_delta_ = x + ratio * (next_x - x);
"""), (CS, """  const Eigen::VectorXd & eq_b =
      ((1 - eq_zeta_ * finite_diff_delta_) * (*DhDu_vec_) - (*DhDu_vec_with_delta_)) / finite_diff_delta_;
""", """  const Eigen::VectorXd eq_b = (*DhDu_vec_ - *DhDu_vec_with_delta_) / finite_diff_delta_ - eq_zeta_ * (*DhDu_vec_);
"""))
r("c11", "cgmres", (CS, """    xu.head(problem_->dim_x_) = x_list_.col(i);
    xu.tail(problem_->dim_uc_) = u_list.col(i);
""", """    xu << x_list_.col(i), u_list.col(i);
"""))
r("c12", "cgmres", (CS, """  int i = 0;
  for(double t = 0; t <= sim_duration_; t += dt_)
  {""", """  double t = 0;
  for(int i = 0; t <= sim_duration_; i++)
  {"""), (CS, """    i++;
  }

  ofs_x_.close();""", """    t += dt_;
  }

  ofs_x_.close();"""))
r("c13", "cgmres", (CS, """  x_with_delta_ = (1 - finite_diff_delta_ / dt_) * x + (finite_diff_delta_ / dt_) * next_x;
  calcDhDuList(t_with_delta_, x_with_delta_, u_list_, DhDu_list_with_delta_);
""", """  x_with_delta_ = ((dt_ - finite_diff_delta_) * x + finite_diff_delta_ * next_x) / dt_;
  calcDhDuList(t_with_delta_, x_with_delta_, u_list_, DhDu_list_with_delta_);
"""), (GM, """    while(rho > eps * b_norm && k < k_max)
    {
      // (a).
      // note that k is 1 in the first iteration
      k++;
""", """    for(;;)
    {
      const bool unconverged = rho > eps * b_norm;
      if(!unconverged || k >= k_max) break;
      // (a).
      // note that k is 1 in the first iteration
      ++k;
"""))

# ------------------------------------------------------------------ further styles
r("x01", "ddp", (DH, """    double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();
    problem_->calcTerminalCostDeriv(terminal_t, control_data_.x_list[config_.horizon_steps], last_Vx_, last_Vxx_);
""", """    problem_->calcTerminalCostDeriv(stepTime(config_.horizon_steps), control_data_.x_list.back(), last_Vx_, last_Vxx_);
"""), (DD, """  /** \\brief Process one iteration.""", """  /** \\brief Time of a step. */
  inline double stepTime(int i) const
  {
    return current_t_ + i * problem_->dt();
  }

  /** \\brief Process one iteration."""))

r("x02", "ddp", (DH, """  double k_rel_norm = 0;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
  }
""", """  const double k_rel_norm = [this]() {
    double val = 0;
    auto u_it = control_data_.u_list.cbegin();
    for(const auto & k : k_list_)
    {
      const double rel = k.norm() / ((u_it++)->norm() + 1.0);
      if(val < rel)
      {
        val = rel;
      }
    }
    return val;
  }();
"""))

r("x03", "ddp", (DH, """    // Increase lambda
    dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
    lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
    if(lambda_ > config_.lambda_max)
    {
      if(config_.print_level >= 1)
      {
        std::cout << "[DDP/Forward]""", """    // Increase lambda
    if(!increaseLambda())
    {
      if(config_.print_level >= 1)
      {
        std::cout << "[DDP/Forward]"""), (DH, """      // Increase lambda
      dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
      lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
      if(lambda_ > config_.lambda_max)
      {""", """      // Increase lambda
      const bool within_limit = increaseLambda();
      if(!within_limit)
      {"""), (DD, """  /** \\brief Process one iteration.""", """  /** \\brief Increase lambda; false if it exceeds the maximum. */
  bool increaseLambda()
  {
    dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
    lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
    return !(lambda_ > config_.lambda_max);
  }

  /** \\brief Process one iteration."""))

r("x04", "ddp", (DH, """  int retval = 0;
  for(int iter = 1; iter <= config_.max_iter; iter++)
  {
    retval = procOnce(iter);
    if(retval != 0)
    {
      break;
    }
  }
""", """  int retval = 0;
  int iter = 0;
  while(retval == 0 && iter < config_.max_iter)
  {
    ++iter;
    retval = procOnce(iter);
  }
"""))

r("x05", "ddp", (DH, """        if(free_idxs.size() > 0)
        {
          Eigen::MatrixXd Qux_reg_free(free_idxs.size(), problem_->stateDim());
          for(size_t j = 0; j < free_idxs.size(); j++)
          {
            Qux_reg_free.row(j) = Qux_reg.row(free_idxs[j]);
          }
          Eigen::MatrixXd K_free = -1 * qp.llt_free_->solve(Qux_reg_free);
          for(size_t j = 0; j < free_idxs.size(); j++)
          {
            K.row(free_idxs[j]) = K_free.row(j);
          }
        }
""", """        if(!free_idxs.empty())
        {
          const Eigen::Index free_num = static_cast<Eigen::Index>(free_idxs.size());
          Eigen::MatrixXd Qux_reg_free(free_num, problem_->stateDim());
          Eigen::Index row = 0;
          for(int free_idx : free_idxs)
          {
            Qux_reg_free.row(row++) = Qux_reg.row(free_idx);
          }
          const Eigen::MatrixXd K_free = qp.llt_free_->solve(Qux_reg_free);
          row = 0;
          for(int free_idx : free_idxs)
          {
            K.row(free_idx) = -K_free.row(row);
            row++;
          }
        }
"""))

r("x06", "ddp", (DH, """        InputDimVector initial_k;
        if(i == config_.horizon_steps - 1)
        {
          initial_k.setZero(input_dim);
        }
        else
        {
          if(k_list_[i + 1].size() == input_dim)
          {
            initial_k = k_list_[i + 1];
          }
          else
          {
            initial_k.setZero(input_dim);
          }
        }
""", """        InputDimVector initial_k = InputDimVector::Zero(input_dim);
        if(i + 1 < config_.horizon_steps && k_list_[i + 1].size() == input_dim)
        {
          initial_k = k_list_[i + 1];
        }
"""))

r("x07", "ddp", (DH, """    candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                        + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);

    // Impose constraints on input
    double t = current_t_ + i * problem_->dt();
    if(config_.with_input_constraint)
    {
      const auto & u_limits = input_limits_func_(t);
      InputDimVector & u = candidate_control_data_.u_list[i];
      u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
    }

    // Calculate next state and cost
    candidate_control_data_.x_list[i + 1] =
        problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
    candidate_control_data_.cost_list[i] =
        problem_->runningCost(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
""", """    const StateDimVector & x = candidate_control_data_.x_list[i];
    InputDimVector u = control_data_.u_list[i];
    u += alpha * k_list_[i];
    u += K_list_[i] * (x - control_data_.x_list[i]);

    // Impose constraints on input
    const double t = current_t_ + i * problem_->dt();
    if(config_.with_input_constraint)
    {
      const auto u_limits = input_limits_func_(t);
      for(int j = 0; j < u.size(); j++)
      {
        u[j] = std::max(std::min(u[j], u_limits[1][j]), u_limits[0][j]);
      }
    }

    // Calculate next state and cost
    candidate_control_data_.cost_list[i] = problem_->runningCost(t, x, u);
    candidate_control_data_.x_list[i + 1] = problem_->stateEq(t, x, u);
    candidate_control_data_.u_list[i] = std::move(u);
"""))

r("x08", "ddp", (DH, """      cost_update_ratio = cost_update_actual / cost_update_expected;
      if(cost_update_expected < 0)
      {
        if((!config_.with_input_constraint && config_.print_level >= 1)
           || (config_.with_input_constraint && config_.print_level >= 2))
        {
          std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
        }
        cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);
      }
      if(cost_update_ratio > config_.cost_update_ratio_thre)
      {
        forward_pass_success = true;
        break;
      }
    }
""", """      if(cost_update_expected < 0)
      {
        const int level = config_.with_input_constraint ? 2 : 1;
        if(config_.print_level >= level)
        {
          std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
        }
        if(cost_update_actual >= 0)
        {
          cost_update_ratio = 1;
        }
        else
        {
          cost_update_ratio = -1;
        }
      }
      else
      {
        cost_update_ratio = cost_update_actual / cost_update_expected;
      }
      forward_pass_success = cost_update_ratio > config_.cost_update_ratio_thre;
      if(forward_pass_success) break;
    }
"""))

r("x09", "ddp", (BQ, """      Eigen::VectorXd x_clamped(clamped_idxs.size());
      Eigen::VectorXd x_free(free_idxs_.size());
      Eigen::VectorXd g_free(free_idxs_.size());
      Eigen::MatrixXd H_free_clamped(free_idxs_.size(), clamped_idxs.size());
      for(size_t i = 0; i < clamped_idxs.size(); i++)
      {
        x_clamped[i] = x[clamped_idxs[i]];
      }
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        x_free[i] = x[free_idxs_[i]];
        g_free[i] = g[free_idxs_[i]];
        for(size_t j = 0; j < clamped_idxs.size(); j++)
        {
          H_free_clamped(i, j) = H(free_idxs_[i], clamped_idxs[j]);
        }
      }
      Eigen::VectorXd grad_free_clamped = g_free + H_free_clamped * x_clamped;
""", """      Eigen::VectorXd x_free(free_idxs_.size());
      Eigen::VectorXd grad_free_clamped(free_idxs_.size());
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        const int idx = free_idxs_[i];
        x_free[i] = x[idx];
        double val = g[idx];
        for(int clamped_idx : clamped_idxs)
        {
          val += H(idx, clamped_idx) * x[clamped_idx];
        }
        grad_free_clamped[i] = val;
      }
"""))

r("x10", "ddp", (BQ, """      double grad_norm = 0;
      for(size_t i = 0; i < free_idxs_.size(); i++)
      {
        grad_norm += std::pow(grad[free_idxs_[i]], 2);
      }
      if(grad_norm < std::pow(config_.grad_thre, 2))
""", """      const double grad_norm = std::accumulate(free_idxs_.begin(), free_idxs_.end(), 0.0, [&grad](double sum, int idx) {
        return sum + grad[idx] * grad[idx];
      });
      if(grad_norm < config_.grad_thre * config_.grad_thre)
"""), (BQ, "#include <Eigen/Dense>", "#include <numeric>\n\n#include <Eigen/Dense>"))

r("x11", "ddp", (BQ, """      double step = 1;
      int step_num = 0;
      VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
      double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
      while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)
      {
        step = step * config_.step_factor;
        step_num++;
        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
        if(step < config_.min_step)
        {
          retval_ = 2;
          break;
        }
      }
""", """      double step = 1;
      int step_num = 0;
      VarDimVector x_candidate;
      double obj_candidate;
      auto evaluate = [&]() {
        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
        obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
      };
      evaluate();
      for(; (obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param; step_num++)
      {
        step *= config_.step_factor;
        evaluate();
        if(step < config_.min_step)
        {
          retval_ = 2;
          step_num++;
          break;
        }
      }
"""))

r("x12", "ddp", (BQ, """      for(int i = 0; i < clamped_flag.size(); i++)
      {
        if(clamped_flag[i])
        {
          clamped_idxs.push_back(i);
        }
        else
        {
          free_idxs_.push_back(i);
        }
      }
""", """      for(int i = 0; i < clamped_flag.size(); i++)
      {
        (clamped_flag[i] ? clamped_idxs : free_idxs_).push_back(i);
      }
"""))

r("x13", "fmpc", (FH, """  for(int i = 0; i < config_.horizon_steps + 1; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.lambda_list[i].noalias() = coeff.P * delta_variable_.x_list[i] - coeff.s; // (2.33)

    if(i < config_.horizon_steps)
    {
      delta_variable_.u_list[i].noalias() = coeff.K * delta_variable_.x_list[i] + coeff.k; // (2.36)
      delta_variable_.x_list[i + 1].noalias() =
          coeff.A * delta_variable_.x_list[i] + coeff.B * delta_variable_.u_list[i] + coeff.x_bar; // (2.26b)
    }
  }

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.s_list""", """  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    const auto & delta_x = delta_variable_.x_list[i];
    auto & delta_u = delta_variable_.u_list[i];

    delta_u = coeff.k;
    delta_u += coeff.K * delta_x; // (2.36)
    delta_variable_.x_list[i + 1] = coeff.A * delta_x + coeff.B * delta_u + coeff.x_bar; // (2.26b)
  }
  for(int i = config_.horizon_steps; i >= 0; i--)
  {
    delta_variable_.lambda_list[i] = coeff_list_[i].P * delta_variable_.x_list[i] - coeff_list_[i].s; // (2.33)
  }

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.s_list"""))

r("x14", "fmpc", (FH, """      const IneqDimVector & s = variable_.s_list[i];
      const IneqDimVector & nu = variable_.nu_list[i];
      const IneqDimVector & delta_s = delta_variable_.s_list[i];
      const IneqDimVector & delta_nu = delta_variable_.nu_list[i];
      for(int ineq_idx = 0; ineq_idx < s.size(); ineq_idx++)
      {
        // (19.9) in "Nocedal, Wright. Numerical optimization"
        if(delta_s[ineq_idx] < 0)
        {
          alpha_s_max = std::min(alpha_s_max, -1 * margin_ratio * s[ineq_idx] / delta_s[ineq_idx]);
        }
        if(delta_nu[ineq_idx] < 0)
        {
          alpha_nu_max = std::min(alpha_nu_max, -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx]);
        }
      }
""", """      // (19.9) in "Nocedal, Wright. Numerical optimization"
      const auto limit = [margin_ratio](double alpha, const IneqDimVector & val, const IneqDimVector & delta) {
        for(int ineq_idx = 0; ineq_idx < val.size(); ineq_idx++)
        {
          if(delta[ineq_idx] >= 0 || std::isnan(delta[ineq_idx])) continue;
          alpha = std::min(alpha, -1 * margin_ratio * val[ineq_idx] / delta[ineq_idx]);
        }
        return alpha;
      };
      alpha_s_max = limit(alpha_s_max, variable_.s_list[i], delta_variable_.s_list[i]);
      alpha_nu_max = limit(alpha_nu_max, variable_.nu_list[i], delta_variable_.nu_list[i]);
"""))

r("x15", "fmpc", (FH, """    Variable ls_variable = variable_;
    while(true)
    {
      if(alpha_s < alpha_s_min)
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] alpha_s is too small in line search backtracking. alpha_s_max: " << alpha_s_max
                    << ", alpha_s: " << alpha_s << std::endl;
        }
        break;
      }

      for(int i = 0; i < config_.horizon_steps + 1; i++)
      {
        ls_variable.x_list[i] = variable_.x_list[i] + alpha_s * delta_variable_.x_list[i];

        if(i < config_.horizon_steps)
        {
          ls_variable.u_list[i] = variable_.u_list[i] + alpha_s * delta_variable_.u_list[i];
          ls_variable.s_list[i] = variable_.s_list[i] + alpha_s * delta_variable_.s_list[i];
        }
      }

      double merit_func_new = calcMeritFunc(ls_variable);
      if(merit_func_new < merit_func_ + armijo_scale * alpha_s * merit_deriv_)
      {
        break;
      }
      alpha_s *= alpha_s_update_ratio;
    }
""", """    Variable ls_variable = variable_;
    bool accepted = false;
    while(!accepted && !(alpha_s < alpha_s_min))
    {
      ls_variable.x_list.back() = variable_.x_list.back() + alpha_s * delta_variable_.x_list.back();
      for(int i = 0; i < config_.horizon_steps; i++)
      {
        ls_variable.x_list[i] = variable_.x_list[i] + alpha_s * delta_variable_.x_list[i];
        ls_variable.u_list[i] = variable_.u_list[i] + alpha_s * delta_variable_.u_list[i];
        ls_variable.s_list[i] = variable_.s_list[i] + alpha_s * delta_variable_.s_list[i];
      }

      const double merit_func_thre = merit_func_ + armijo_scale * alpha_s * merit_deriv_;
      accepted = calcMeritFunc(ls_variable) < merit_func_thre;
      if(!accepted)
      {
        alpha_s *= alpha_s_update_ratio;
      }
    }
    if(!accepted && config_.print_level >= 1)
    {
      std::cout << "[FMPC/Update] alpha_s is too small in line search backtracking. alpha_s_max: " << alpha_s_max
                << ", alpha_s: " << alpha_s << std::endl;
    }
"""))

r("x16", "fmpc", (FH, """      if((variable_.s_list[i].array() < 0).any())
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] Updated s is negative: " << variable_.s_list[i].transpose() << std::endl;
        }
        variable_.s_list[i] = variable_.s_list[i].array().max(min_positive_value).matrix();
      }
      if((variable_.nu_list[i].array() < 0).any())
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] Updated nu is negative: " << variable_.nu_list[i].transpose() << std::endl;
        }
        variable_.nu_list[i] = variable_.nu_list[i].array().max(min_positive_value).matrix();
      }
""", """      auto make_positive = [&](IneqDimVector & val, const std::string & name) {
        if(!(val.array() < 0).any())
        {
          return;
        }
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Update] Updated " << name << " is negative: " << val.transpose() << std::endl;
        }
        val = val.array().max(min_positive_value).matrix().eval();
      };
      make_positive(variable_.s_list[i], "s");
      make_positive(variable_.nu_list[i], "nu");
"""))

r("x17", "fmpc", (FH, """        Eigen::LDLT<InputInputDimMatrix> llt_G(G);
        if(llt_G.info() == Eigen::Success)
        {
          k.noalias() = -1 * llt_G.solve(B.transpose() * (P * x_bar - s) + Lu_tilde); // (2.35e)
          K.noalias() = -1 * llt_G.solve(H.transpose()); // (2.35e)
        }
        else
        {
          if(config_.print_level >= 1)
          {
            std::cout << "[FMPC/Backward] G is not positive definite in Cholesky decomposition (LLT)." << std::endl;
          }
          if(config_.break_if_llt_fails)
          {
            return false;
          }
          else
          {
            Eigen::FullPivLU<InputInputDimMatrix> lu_G(G);
            k.noalias() = -1 * lu_G.solve(B.transpose() * (P * x_bar - s) + Lu_tilde); // (2.35e)
            K.noalias() = -1 * lu_G.solve(H.transpose()); // (2.35e)
          }
        }
""", """        const auto set_gains = [&](const auto & solver) {
          const InputDimVector rhs = B.transpose() * (P * x_bar - s) + Lu_tilde;
          k = -solver.solve(rhs); // (2.35e)
          K = -solver.solve(H.transpose()); // (2.35e)
        };
        const Eigen::LDLT<InputInputDimMatrix> ldlt_G(G);
        const bool success = (ldlt_G.info() == Eigen::Success);
        if(!success && config_.print_level >= 1)
        {
          std::cout << "[FMPC/Backward] G is not positive definite in Cholesky decomposition (LLT)." << std::endl;
        }
        if(!success && config_.break_if_llt_fails)
        {
          return false;
        }
        if(success)
        {
          set_gains(ldlt_G);
        }
        else
        {
          set_gains(Eigen::FullPivLU<InputInputDimMatrix>(G));
        }
"""))

r("x18", "fmpc", (FH, """  double kkt_error = 0;

  {
    kkt_error += (current_x_ - variable_.x_list[0]).squaredNorm();
  }
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    kkt_error += coeff.x_bar.squaredNorm();
    kkt_error += coeff.g_bar.squaredNorm();
    kkt_error += coeff.Lx_bar.squaredNorm();
    kkt_error += coeff.Lu_bar.squaredNorm();
    kkt_error +=
        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm();
  }
  {
    const auto & terminal_coeff = coeff_list_[config_.horizon_steps];
    kkt_error += terminal_coeff.Lx_bar.squaredNorm();
  }

  kkt_error = std::sqrt(kkt_error);

  return kkt_error;
""", """  double stage_error = 0;
  double comp_error = 0;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    for(const double e : {coeff.x_bar.squaredNorm(), coeff.g_bar.squaredNorm(), coeff.Lx_bar.squaredNorm(),
                          coeff.Lu_bar.squaredNorm()})
    {
      stage_error += e;
    }
    for(Eigen::Index j = 0; j < variable_.s_list[i].size(); j++)
    {
      const double comp = std::max(variable_.s_list[i][j] * variable_.nu_list[i][j] - barrier_eps, 0.0);
      comp_error += comp * comp;
    }
  }
  const double initial_error = (current_x_ - variable_.x_list.front()).squaredNorm();
  const double terminal_error = coeff_list_.back().Lx_bar.squaredNorm();

  return std::sqrt(initial_error + stage_error + comp_error + terminal_error);
"""))

r("x19", "fmpc", (FH, """  // Check sequence length
  if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
  {
    throw std::invalid_argument("[FMPC] x_list length should be " + std::to_string(config_.horizon_steps + 1) + " but "
                                + std::to_string(variable_.x_list.size()) + ".");
  }
  if(static_cast<int>(variable_.u_list.size()) != config_.horizon_steps)
  {
    throw std::invalid_argument("[FMPC] u_list length should be " + std::to_string(config_.horizon_steps) + " but "
                                + std::to_string(variable_.u_list.size()) + ".");
  }
""", """  // Check sequence length
  const auto check_length = [](const std::string & name, size_t size, int expected) {
    if(static_cast<int>(size) == expected)
    {
      return;
    }
    throw std::invalid_argument("[FMPC] " + name + " length should be " + std::to_string(expected) + " but "
                                + std::to_string(size) + ".");
  };
  check_length("x_list", variable_.x_list.size(), config_.horizon_steps + 1);
  check_length("u_list", variable_.u_list.size(), config_.horizon_steps);
"""))

r("x20", "fmpc", (FH, """    double s_nu_ave = 0.0;
    int total_ineq_dim = 0;
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
      total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
    }
    if(total_ineq_dim > 0)
    {
      s_nu_ave /= total_ineq_dim;
    }
""", """    Eigen::Index total_ineq_dim = 0;
    double s_nu_sum = 0.0;
    for(size_t i = 0; i < variable_.s_list.size(); ++i)
    {
      const auto & s = variable_.s_list[i];
      const auto & nu = variable_.nu_list[i];
      total_ineq_dim += s.size();
      s_nu_sum += (s.array() * nu.array()).sum();
    }
    const double s_nu_ave = total_ineq_dim > 0 ? s_nu_sum / static_cast<double>(total_ineq_dim) : s_nu_sum;
"""))

r("x21", "fmpc", (FH, """  Status status = Status::Uninitialized;
  for(int iter = 1; iter <= config_.max_iter; iter++)
  {
    status = procOnce(iter);
    if(status != Status::IterationContinued)
    {
      break;
    }
  }
  if(status == Status::IterationContinued)
  {
    status = Status::MaxIterationReached;
  }
""", """  const Status status = optimize();
"""), (FH, """template<int StateDim, int InputDim, int IneqDim>
void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariableSize() const
""", """template<int StateDim, int InputDim, int IneqDim>
typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, InputDim, IneqDim>::optimize()
{
  if(config_.max_iter < 1)
  {
    return Status::Uninitialized;
  }
  int iter = 1;
  do
  {
    const Status status = procOnce(iter);
    if(status != Status::IterationContinued)
    {
      return status;
    }
  } while(++iter <= config_.max_iter);
  return Status::MaxIterationReached;
}

template<int StateDim, int InputDim, int IneqDim>
void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariableSize() const
"""), (FD, """  /** \\brief Process one iteration.""", """  /** \\brief Optimization loop. */
  Status optimize();

  /** \\brief Process one iteration."""))

r("x22", "fmpc", (FH, """  {
    StateDimVector const_func = current_x_ - variable.x_list[0];
    merit_func_const += const_func.template lpNorm<1>();
  }

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    double t = current_t_ + i * dt;
    const StateDimVector & x = variable.x_list[i];
    const InputDimVector & u = variable.u_list[i];
    const IneqDimVector & s = variable.s_list[i];
    const StateDimVector & next_x = variable.x_list[i + 1];

    {
      merit_func_obj += problem_->runningCost(t, x, u) * dt;
    }

    {
      merit_func_obj += -1 * barrier_eps_ * s.array().log().sum();
    }

    {
      StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
      merit_func_const += const_func.template lpNorm<1>();
    }

    {
      IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
      merit_func_const += const_func.template lpNorm<1>();
    }
  }
""", """  merit_func_const += (current_x_ - variable.x_list[0]).cwiseAbs().sum();

  double log_sum = 0.0;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const double t = current_t_ + i * dt;
    const StateDimVector & x = variable.x_list[i];
    const InputDimVector & u = variable.u_list[i];
    const IneqDimVector & s = variable.s_list[i];

    merit_func_obj += problem_->runningCost(t, x, u) * dt;
    for(const double & s_val : s)
    {
      log_sum += std::log(s_val);
    }
    merit_func_const += (problem_->stateEq(t, x, u) - variable.x_list[i + 1]).template lpNorm<1>();
    merit_func_const += (problem_->ineqConst(t, x, u) + s).template lpNorm<1>();
  }
  merit_func_obj -= barrier_eps_ * log_sum;
"""))

r("x23", "cgmres", (GM, """      Eigen::VectorXd Avk = Amul_func(basis_.back());
      Eigen::VectorXd new_basis = Avk;
      for(int j = 0; j < k; j++)
      {
        // i.
        H_(j, k - 1) = new_basis.dot(basis_[j]);
        // ii.
        new_basis = new_basis - H_(j, k - 1) * basis_[j];
      }
""", """      const Eigen::VectorXd Avk = Amul_func(basis_[k - 1]);
      Eigen::VectorXd new_basis = Avk;
      int row = 0;
      for(const Eigen::VectorXd & v : basis_)
      {
        // i.
        const double h = v.dot(new_basis);
        H_(row++, k - 1) = h;
        // ii.
        new_basis -= h * v;
      }
"""))

r("x24", "cgmres", (GM, """        for(int i = 0; i < k - 1; i++)
        {
          double h0 = H_(i, k - 1);
          double h1 = H_(i + 1, k - 1);
          double c = c_list[i];
          double s = s_list[i];
          H_(i, k - 1) = c * h0 - s * h1;
          H_(i + 1, k - 1) = s * h0 + c * h1;
        }
""", """        const auto rotate = [](double c, double s, double & a0, double & a1) {
          const double tmp = c * a0 - s * a1;
          a1 = s * a0 + c * a1;
          a0 = tmp;
        };
        for(int i = 0; i < k - 1; i++)
        {
          rotate(c_list[i], s_list[i], H_(i, k - 1), H_(i + 1, k - 1));
        }
"""), (GM, """        double g0 = g_(k - 1);
        double g1 = g_(k);
        g_(k - 1) = c_k * g0 - s_k * g1;
        g_(k) = s_k * g0 + c_k * g1;
""", """        rotate(c_k, s_k, g_(k - 1), g_(k));
"""))

r("x25", "cgmres", (CS, """  double tau = t;
  for(int i = 0; i < horizon_divide_num_; i++)
  {
    // 1.2 calculate x_list_[1, ..., horizon_divide_num_]
    ode_solver_->solve(std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                       tau, x_list_.col(i), u_list.col(i), horizon_divide_step, x_list_.col(i + 1));
    tau += horizon_divide_step;
  }
""", """  const OdeSolver::StateEquation state_equation =
      [this](double _t, const Eigen::Ref<const Eigen::VectorXd> & _x,
             const Eigen::Ref<const Eigen::VectorXd> & _u, Eigen::Ref<Eigen::VectorXd> _dotx) {
        problem_->stateEquation(_t, _x, _u, _dotx);
      };
  double tau = t;
  for(int i = 1; i <= horizon_divide_num_; i++, tau += horizon_divide_step)
  {
    // 1.2 calculate x_list_[1, ..., horizon_divide_num_]
    ode_solver_->solve(state_equation, tau, x_list_.col(i - 1), u_list.col(i - 1), horizon_divide_step, x_list_.col(i));
  }
"""))

r("x26", "cgmres", (CS, """  DhDu_vec_ = std::make_shared<Eigen::Map<Eigen::VectorXd>>(DhDu_list_.data(), DhDu_list_.size());
  DhDu_vec_with_delta_ =
      std::make_shared<Eigen::Map<Eigen::VectorXd>>(DhDu_list_with_delta_.data(), DhDu_list_with_delta_.size());
  const Eigen::VectorXd & eq_b =
      ((1 - eq_zeta_ * finite_diff_delta_) * (*DhDu_vec_) - (*DhDu_vec_with_delta_)) / finite_diff_delta_;
""", """  auto flatten = [](Eigen::MatrixXd & mat) {
    return std::make_shared<Eigen::Map<Eigen::VectorXd>>(mat.data(), mat.size());
  };
  DhDu_vec_with_delta_ = flatten(DhDu_list_with_delta_);
  DhDu_vec_ = flatten(DhDu_list_);
  Eigen::VectorXd eq_b = (1 - eq_zeta_ * finite_diff_delta_) * (*DhDu_vec_);
  eq_b -= *DhDu_vec_with_delta_;
  eq_b /= finite_diff_delta_;
"""), (CS, """  // 2.3 update u_list_ from delta_u_vec_
  for(int i = 0; i < horizon_divide_num_; i++)
  {
    u_list_.col(i) += dt_ * delta_u_vec_.segment(i * problem_->dim_uc_, problem_->dim_uc_);
  }
""", """  // 2.3 update u_list_ from delta_u_vec_
  int offset = 0;
  for(int i = 0; i < horizon_divide_num_; i++)
  {
    for(int j = 0; j < problem_->dim_uc_; j++)
    {
      u_list_(j, i) += dt_ * delta_u_vec_(offset++);
    }
  }
"""))

r("x27", "cgmres", (CS, """  for(int i = 0; i < 100; i++)
  {
    problem_->calcDhDu(t_initial, x_, u_, lmd_initial, DhDu);
    if(DhDu.norm() <= DhDu_tol)
    {
      break;
    }

    gmres.solve(Amul_func, -DhDu, delta_u, problem_->dim_uc_, 1e-10);
    u_ += delta_u;
  }
  if(DhDu.norm() > DhDu_tol)
""", """  constexpr int max_iter = 100;
  bool converged = false;
  for(int i = 0; i < max_iter && !converged; i++)
  {
    problem_->calcDhDu(t_initial, x_, u_, lmd_initial, DhDu);
    converged = DhDu.norm() <= DhDu_tol;
    if(!converged)
    {
      gmres.solve(Amul_func, -DhDu, delta_u, problem_->dim_uc_, 1e-10);
      u_ += delta_u;
    }
  }
  if(DhDu.norm() > DhDu_tol)
"""))

r("y01", "ddp", (DH, """      cost_update_actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
      cost_update_expected = -1 * alpha * (dV_[0] + alpha * dV_[1]);
      cost_update_ratio = cost_update_actual / cost_update_expected;
""", """      std::tie(cost_update_actual, cost_update_expected) = costUpdate(alpha);
      cost_update_ratio = cost_update_actual / cost_update_expected;
"""), (DD, """  /** \\brief Process one iteration.""", """  /** \\brief Actual and expected cost update. */
  std::pair<double, double> costUpdate(double alpha) const
  {
    const double actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
    const double expected = -alpha * (dV_[0] + alpha * dV_[1]);
    return std::make_pair(actual, expected);
  }

  /** \\brief Process one iteration."""), (DH, "#include <chrono>", "#include <chrono>\n#include <tuple>"))

r("y02", "ddp", (DH, """    for(int i = 0; i < config_.alpha_list.size(); i++)
    {
      alpha = config_.alpha_list[i];

      forwardPass(alpha);
""", """    for(const double candidate_alpha : config_.alpha_list)
    {
      alpha = candidate_alpha;
      forwardPass(candidate_alpha);
"""))

r("y03", "ddp", (DH, """  control_data_.u_list = initial_u_list;
  control_data_.x_list.resize(config_.horizon_steps + 1);
  control_data_.cost_list.resize(config_.horizon_steps + 1);
  control_data_.x_list[0] = current_x;
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    double t = current_t_ + i * problem_->dt();
    control_data_.x_list[i + 1] = problem_->stateEq(t, control_data_.x_list[i], control_data_.u_list[i]);
    control_data_.cost_list[i] = problem_->runningCost(t, control_data_.x_list[i], control_data_.u_list[i]);
  }
  double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();
  control_data_.cost_list[config_.horizon_steps] =
      problem_->terminalCost(terminal_t, control_data_.x_list[config_.horizon_steps]);
""", """  control_data_.u_list.assign(initial_u_list.begin(), initial_u_list.end());
  control_data_.cost_list.setZero(config_.horizon_steps + 1);
  control_data_.x_list.clear();
  control_data_.x_list.push_back(current_x);
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const double t = current_t_ + i * problem_->dt();
    const InputDimVector & u = control_data_.u_list[i];
    control_data_.cost_list[i] = problem_->runningCost(t, control_data_.x_list.back(), u);
    StateDimVector next_x = problem_->stateEq(t, control_data_.x_list.back(), u);
    control_data_.x_list.push_back(next_x);
  }
  const double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();
  control_data_.cost_list.tail(1)[0] = problem_->terminalCost(terminal_t, control_data_.x_list.back());
"""))

r("y04", "ddp", (DH, """    dV_ += Eigen::Vector2d(k.dot(Qu), 0.5 * k.dot(Quu * k));
    Vx.noalias() = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
    Vxx.noalias() = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    Vxx_symmetric = 0.5 * (Vxx + Vxx.transpose());
    Vxx = Vxx_symmetric;
""", """    dV_[0] += k.dot(Qu);
    dV_[1] += 0.5 * (k.transpose() * Quu * k).value();
    Vx = Qx;
    Vx += K.transpose() * (Quu * k + Qu);
    Vx += Qux.transpose() * k;
    Vxx = Qxx;
    Vxx += K.transpose() * (Quu * K + Qux);
    Vxx += Qux.transpose() * K;
    const StateStateDimMatrix Vxx_transpose = Vxx.transpose();
    Vxx = (Vxx + Vxx_transpose) / 2;
"""))

r("y05", "ddp", (DH, """    Vxx_reg = Vxx;
    if(config_.reg_type == 2)
    {
      Vxx_reg.diagonal().array() += lambda_;
    }

    Qux_reg.noalias() = Lxu.transpose() + Fu.transpose() * Vxx_reg * Fx;
    if(config_.use_state_eq_second_derivative)
    {
      Qux_reg += VxFux;
    }

    Quu_F.noalias() = Luu + Fu.transpose() * Vxx_reg * Fu;
    if(config_.use_state_eq_second_derivative)
    {
      Quu_F += VxFuu;
    }
    if(config_.reg_type == 1)
    {
      Quu_F.diagonal().array() += lambda_;
    }
""", """    Qux_reg = Qux;
    Quu_F = Quu;
    switch(config_.reg_type)
    {
      case 1:
        Quu_F += lambda_ * InputInputDimMatrix::Identity(input_dim, input_dim);
        break;
      case 2:
        Vxx_reg = Vxx + lambda_ * StateStateDimMatrix::Identity();
        Qux_reg = Lxu.transpose() + Fu.transpose() * (Vxx_reg * Fx);
        Quu_F = Luu + Fu.transpose() * (Vxx_reg * Fu);
        break;
      default:
        break;
    }
"""))

r("y06", "ddp", (DH, """      if(initial_u_list[i].size() != problem_->inputDim(t))
      {
        throw std::runtime_error("initial_u dimension should be " + std::to_string(problem_->inputDim(t)) + " but "
                                 + std::to_string(initial_u_list[i].size()) + ". i: " + std::to_string(i)
                                 + ", time: " + std::to_string(t));
      }
""", """      const int expected = problem_->inputDim(t);
      const int given = static_cast<int>(initial_u_list[i].size());
      if(given == expected) continue;
      std::string message = "initial_u dimension should be ";
      message += std::to_string(expected) + " but " + std::to_string(given);
      message += ". i: " + std::to_string(i) + ", time: " + std::to_string(t);
      throw std::runtime_error(message);
"""))

r("y07", "ddp", (DH, """    control_data_.x_list = candidate_control_data_.x_list;
    control_data_.u_list = candidate_control_data_.u_list;
    control_data_.cost_list = candidate_control_data_.cost_list;
""", """    const auto & accepted = candidate_control_data_;
    std::copy(accepted.x_list.begin(), accepted.x_list.end(), control_data_.x_list.begin());
    for(size_t i = 0; i < accepted.u_list.size(); i++)
    {
      control_data_.u_list[i] = accepted.u_list[i];
    }
    control_data_.cost_list = accepted.cost_list;
"""), (DH, "#include <fstream>", "#include <fstream>\n#include <iterator>"))

r("y08", "ddp", (DH, """    for(int i = 0; i < config_.horizon_steps; i++)
    {
      auto & derivative = derivative_list_[i];

      double t = current_t_ + i * problem_->dt();
      const StateDimVector & x = control_data_.x_list[i];
      const InputDimVector & u = control_data_.u_list[i];
      if(config_.use_state_eq_second_derivative)
      {
        problem_->calcStateEqDeriv(t, x, u, derivative.Fx, derivative.Fu, derivative.Fxx, derivative.Fuu,
                                   derivative.Fxu);
      }
      else
      {
        problem_->calcStateEqDeriv(t, x, u, derivative.Fx, derivative.Fu);
      }
      problem_->calcRunningCostDeriv(t, x, u, derivative.Lx, derivative.Lu, derivative.Lxx, derivative.Luu,
                                     derivative.Lxu);
    }
    double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();
    problem_->calcTerminalCostDeriv(terminal_t, control_data_.x_list[config_.horizon_steps], last_Vx_, last_Vxx_);
""", """    calcDerivatives();
"""), (DH, """template<int StateDim, int InputDim>
bool DDPSolver<StateDim, InputDim>::backwardPass()
""", """template<int StateDim, int InputDim>
void DDPSolver<StateDim, InputDim>::calcDerivatives()
{
  const double dt = problem_->dt();
  double terminal_t = current_t_ + config_.horizon_steps * dt;
  problem_->calcTerminalCostDeriv(terminal_t, control_data_.x_list[config_.horizon_steps], last_Vx_, last_Vxx_);
  for(int i = config_.horizon_steps - 1; i >= 0; i--)
  {
    Derivative & d = derivative_list_[i];
    const double t = current_t_ + i * dt;
    const auto & x = control_data_.x_list[i];
    const auto & u = control_data_.u_list[i];
    problem_->calcRunningCostDeriv(t, x, u, d.Lx, d.Lu, d.Lxx, d.Luu, d.Lxu);
    if(!config_.use_state_eq_second_derivative)
    {
      problem_->calcStateEqDeriv(t, x, u, d.Fx, d.Fu);
      continue;
    }
    problem_->calcStateEqDeriv(t, x, u, d.Fx, d.Fu, d.Fxx, d.Fuu, d.Fxu);
  }
}

template<int StateDim, int InputDim>
bool DDPSolver<StateDim, InputDim>::backwardPass()
"""), (DD, """  /** \\brief Process one iteration.""", """  /** \\brief Calculate derivatives along the trajectory. */
  void calcDerivatives();

  /** \\brief Process one iteration."""))

r("y09", "ddp", (DH, """  trace_data.cost = control_data_.cost_list.sum();
  trace_data.lambda = lambda_;
  trace_data.dlambda = dlambda_;

  return retval;
""", """  record(trace_data);
  return retval;
"""), (DH, """    trace_data.cost = control_data_.cost_list.sum();
    trace_data.lambda = lambda_;
    trace_data.dlambda = dlambda_;
    return 1; // Terminate
""", """    record(trace_data);
    return 1; // Terminate
"""), (DH, """  auto & trace_data = trace_data_list_.back();
  trace_data.iter = iter;
""", """  auto & trace_data = trace_data_list_.back();
  trace_data.iter = iter;
  const auto record = [this](TraceData & data) {
    data.cost = control_data_.cost_list.sum();
    data.lambda = lambda_;
    data.dlambda = dlambda_;
  };
"""))

r("y10", "ddp", (BQ, """        Eigen::MatrixXd H_free(free_idxs_.size(), free_idxs_.size());
        for(size_t i = 0; i < free_idxs_.size(); i++)
        {
          for(size_t j = 0; j < free_idxs_.size(); j++)
          {
            H_free(i, j) = H(free_idxs_[i], free_idxs_[j]);
          }
        }

        // Cholesky decomposition
        llt_free_ = std::make_unique<Eigen::LLT<Eigen::MatrixXd>>(H_free);
        if(llt_free_->info() == Eigen::NumericalIssue)
        {
""", """        const Eigen::MatrixXd H_free = extract(H, free_idxs_, free_idxs_);

        // Cholesky decomposition
        llt_free_ = std::make_unique<Eigen::LLT<Eigen::MatrixXd>>(H_free);
        if(llt_free_->info() == Eigen::NumericalIssue)
        {
"""), (BQ, """      Eigen::MatrixXd H_free_clamped(free_idxs_.size(), clamped_idxs.size());
""", """      const Eigen::MatrixXd H_free_clamped = extract(H, free_idxs_, clamped_idxs);
"""), (BQ, """        g_free[i] = g[free_idxs_[i]];
        for(size_t j = 0; j < clamped_idxs.size(); j++)
        {
          H_free_clamped(i, j) = H(free_idxs_[i], clamped_idxs[j]);
        }
""", """        g_free[i] = g[free_idxs_[i]];
"""), (BQ, """  Configuration config_;
""", """  /** \\brief Extract a submatrix. */
  static Eigen::MatrixXd extract(const VarVarDimMatrix & mat, const std::vector<int> & rows, const std::vector<int> & cols)
  {
    Eigen::MatrixXd sub(rows.size(), cols.size());
    for(size_t j = 0; j < cols.size(); j++)
    {
      for(size_t i = 0; i < rows.size(); i++)
      {
        sub(i, j) = mat(rows[i], cols[j]);
      }
    }
    return sub;
  }

  Configuration config_;
"""))

r("y11", "ddp", (BQ, """      // Check for all clamped
      if(clamped_flag.all())
      {
        retval_ = 6;
        break;
      }
""", """      // Check for all clamped
      if(free_idxs_.empty())
      {
        retval_ = 6;
        break;
      }
"""), (BQ, """      clamped_flag =
          ((x.array() == lower.array() && grad.array() > 0) || (x.array() == upper.array() && grad.array() < 0))
              .select(true, clamped_flag);
""", """      for(Eigen::Index j = 0; j < x.size(); j++)
      {
        const bool at_lower = (x[j] == lower[j] && grad[j] > 0);
        const bool at_upper = (x[j] == upper[j] && grad[j] < 0);
        if(at_lower || at_upper)
        {
          clamped_flag[j] = true;
        }
      }
"""))

r("y12", "fmpc", (FH, """      coeff.x_bar = problem_->stateEq(t, x, u) - next_x; // (2.23c)
      coeff.g_bar = problem_->ineqConst(t, x, u) + s; // (2.23d)
      coeff.Lx_bar =
          -1 * lambda + dt * coeff.Lx + coeff.A.transpose() * next_lambda + coeff.C.transpose() * nu; // (2.25b)
      coeff.Lu_bar = dt * coeff.Lu + coeff.B.transpose() * next_lambda + coeff.D.transpose() * nu; // (2.25c)
""", """      coeff.Lu_bar.noalias() = coeff.B.transpose() * next_lambda; // (2.25c)
      coeff.Lu_bar += coeff.D.transpose() * nu;
      coeff.Lu_bar += dt * coeff.Lu;
      coeff.Lx_bar.noalias() = coeff.A.transpose() * next_lambda; // (2.25b)
      coeff.Lx_bar += coeff.C.transpose() * nu;
      coeff.Lx_bar += dt * coeff.Lx - lambda;
      coeff.g_bar = s; // (2.23d)
      coeff.g_bar += problem_->ineqConst(t, x, u);
      const StateDimVector predicted_x = problem_->stateEq(t, x, u);
      coeff.x_bar = predicted_x - next_x; // (2.23c)
"""))

r("y13", "fmpc", (FH, """      IneqDimVector nu_s = (variable_.nu_list[i].array() / variable_.s_list[i].array()).matrix();
      IneqDimVector tilde_sub =
          nu_s.cwiseProduct(g_bar) - variable_.nu_list[i] + barrier_eps_ * variable_.s_list[i].cwiseInverse();
      Qxx_tilde.noalias() = dt * Lxx + C.transpose() * nu_s.asDiagonal() * C; // (2.28c)
      Quu_tilde.noalias() = dt * Luu + D.transpose() * nu_s.asDiagonal() * D; // (2.28e)
      Qxu_tilde.noalias() = dt * Lxu + C.transpose() * nu_s.asDiagonal() * D; // (2.28d)
""", """      const IneqDimVector & nu = variable_.nu_list[i];
      const Eigen::Index ineq_dim = nu.size();
      IneqDimVector nu_s(ineq_dim);
      IneqDimVector tilde_sub(ineq_dim);
      for(Eigen::Index j = 0; j < ineq_dim; j++)
      {
        const double s_val = variable_.s_list[i][j];
        nu_s[j] = nu[j] / s_val;
        tilde_sub[j] = nu_s[j] * g_bar[j] - nu[j] + barrier_eps_ / s_val;
      }
      const IneqStateDimMatrix nu_s_C = nu_s.asDiagonal() * C;
      Qxx_tilde = dt * Lxx;
      Qxx_tilde += C.transpose() * nu_s_C; // (2.28c)
      Quu_tilde = dt * Luu + D.transpose() * (nu_s.asDiagonal() * D); // (2.28e)
      Qxu_tilde = dt * Lxu + nu_s_C.transpose() * D; // (2.28d)
"""))

r("y14", "fmpc", (FH, """    if((variable_.s_list[i].array() < 0).any())
    {
      throw std::runtime_error("[FMPC] s_list[i] must be non-negative. i: " + std::to_string(i)
                               + ", time: " + std::to_string(t));
    }
    if((variable_.nu_list[i].array() < 0).any())
    {
      throw std::runtime_error("[FMPC] nu_list[i] must be non-negative. i: " + std::to_string(i)
                               + ", time: " + std::to_string(t));
    }
""", """    const auto check_sign = [&](const char * name, const IneqDimVector & vec) {
      for(Eigen::Index j = 0; j < vec.size(); j++)
      {
        if(vec[j] < 0)
        {
          throw std::runtime_error(std::string("[FMPC] ") + name + "[i] must be non-negative. i: " + std::to_string(i)
                                   + ", time: " + std::to_string(t));
        }
      }
    };
    check_sign("s_list", variable_.s_list[i]);
    check_sign("nu_list", variable_.nu_list[i]);
"""))

r("y15", "fmpc", (FH, """  for(int i = 0; i < config_.horizon_steps + 1; i++)
  {
    variable_.x_list[i] += alpha_s * delta_variable_.x_list[i];
    variable_.lambda_list[i] += alpha_nu * delta_variable_.lambda_list[i];

    if(i < config_.horizon_steps)
    {
      variable_.u_list[i] += alpha_s * delta_variable_.u_list[i];
      variable_.s_list[i] += alpha_s * delta_variable_.s_list[i];
      variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];

      constexpr""", """  const auto add_scaled = [](auto & list, const auto & delta_list, double alpha) {
    auto delta_it = delta_list.begin();
    for(auto & elem : list)
    {
      elem += alpha * (*delta_it);
      ++delta_it;
    }
  };
  add_scaled(variable_.x_list, delta_variable_.x_list, alpha_s);
  add_scaled(variable_.u_list, delta_variable_.u_list, alpha_s);
  add_scaled(variable_.lambda_list, delta_variable_.lambda_list, alpha_nu);
  for(int i = 0; i < config_.horizon_steps; i++)
  {
    {
      variable_.s_list[i] += alpha_s * delta_variable_.s_list[i];
      variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];

      constexpr"""))

r("y16", "fmpc", (FH, """  if(config_.check_nan)
  {
    for(const auto & coeff : coeff_list_)
    {
      if(coeff.containsNaN())
      {
        if(config_.print_level >= 1)
        {
          std::cout << "[FMPC/Backward] coeff contains NaN." << std::endl;
        }
        return false;
      }
    }
  }

  return true;
""", """  const bool invalid = config_.check_nan
                       && std::any_of(coeff_list_.begin(), coeff_list_.end(),
                                      [](const Coefficient & coeff) { return coeff.containsNaN(); });
  if(invalid && config_.print_level >= 1)
  {
    std::cout << "[FMPC/Backward] coeff contains NaN." << std::endl;
  }
  return !invalid;
"""), (FH, "#include <fstream>", "#include <fstream>\n#include <iterator>"))

r("y17", "fmpc", (FH, """    merit_const_scale_ = merit_const_scale_min;
    for(int i = 0; i < config_.horizon_steps + 1; i++)
    {
      merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());

      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
      {
        merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
      }
    }
""", """    double scale = merit_const_scale_min;
    for(const auto & lambda : variable_.lambda_list)
    {
      for(Eigen::Index j = 0; j < lambda.size(); j++)
      {
        scale = std::max(scale, std::abs(lambda[j]));
      }
    }
    for(const auto & nu : variable_.nu_list)
    {
      if(nu.size() == 0)
      {
        continue;
      }
      scale = std::max(scale, nu.template lpNorm<Eigen::Infinity>());
    }
    merit_const_scale_ = scale;
"""))

r("y18", "fmpc", (FH, """      variable_.s_list[i] = (1.0 + complementary_variable_margin_rate)
                            * (-1 * problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]))
                                  .cwiseMax(complementary_variable_min);
      variable_.nu_list[i] = (1.0 + complementary_variable_margin_rate)
                             * (barrier_eps_ * variable_.s_list[i].cwiseInverse()).cwiseMax(complementary_variable_min);
""", """      constexpr double rate = 1.0 + complementary_variable_margin_rate;
      const IneqDimVector g = problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]);
      IneqDimVector & s = variable_.s_list[i];
      IneqDimVector & nu = variable_.nu_list[i];
      s.resize(g.size());
      nu.resize(g.size());
      for(Eigen::Index j = 0; j < g.size(); j++)
      {
        s[j] = rate * std::max(-g[j], complementary_variable_min);
        nu[j] = rate * std::max(barrier_eps_ / s[j], complementary_variable_min);
      }
"""))

r("y19", "fmpc", (FH, """  // Step 2: backward pass
  {
    auto start_time = std::chrono::system_clock::now();

    if(!backwardPass())
    {
      return Status::ErrorInBackward;
    }

    double duration = calcDuration(start_time, std::chrono::system_clock::now());
    trace_data.duration_backward = duration;
    computation_duration_.backward += duration;
  }

  // Step 3: forward pass
  {
    auto start_time = std::chrono::system_clock::now();

    if(!forwardPass())
    {
      return Status::ErrorInForward;
    }

    double duration = calcDuration(start_time, std::chrono::system_clock::now());
    trace_data.duration_forward = duration;
    computation_duration_.forward += duration;
  }

  // Step 4: update variables
  {
    auto start_time = std::chrono::system_clock::now();

    if(!updateVariables())
    {
      return Status::ErrorInUpdate;
    }

    double duration = calcDuration(start_time, std::chrono::system_clock::now());
    trace_data.duration_update = duration;
    computation_duration_.update += duration;
  }

  return Status::IterationContinued;
""", """  const auto timed = [this](bool (FmpcSolver::*step)(), double & trace_duration, double & total_duration) {
    const auto start_time = std::chrono::system_clock::now();
    if(!(this->*step)())
    {
      return false;
    }
    trace_duration = calcDuration(start_time, std::chrono::system_clock::now());
    total_duration += trace_duration;
    return true;
  };
  if(!timed(&FmpcSolver::backwardPass, trace_data.duration_backward, computation_duration_.backward))
  {
    return Status::ErrorInBackward;
  }
  if(!timed(&FmpcSolver::forwardPass, trace_data.duration_forward, computation_duration_.forward))
  {
    return Status::ErrorInForward;
  }
  if(!timed(&FmpcSolver::updateVariables, trace_data.duration_update, computation_duration_.update))
  {
    return Status::ErrorInUpdate;
  }

  return Status::IterationContinued;
"""))

r("y20", "cgmres", (GM, """    if(make_triangular_)
    {
      // 3.
      y_k = H_.topLeftCorner(k, k).triangularView<Eigen::Upper>().solve(g_.head(k));
    }

    // 4.
    for(int i = 0; i < k; i++)
    {
      x += y_k(i) * basis_[i];
    }
""", """    if(make_triangular_)
    {
      // 3.
      y_k.resize(k);
      for(int i = k - 1; i >= 0; i--)
      {
        double val = g_(i);
        for(int j = i + 1; j < k; j++)
        {
          val -= H_(i, j) * y_k(j);
        }
        y_k(i) = val / H_(i, i);
      }
    }

    // 4.
    Eigen::VectorXd correction = Eigen::VectorXd::Zero(x.size());
    for(int i = 0; i < k; i++)
    {
      correction += y_k(i) * basis_[i];
    }
    x += correction;
"""))

r("y21", "cgmres", (GM, """        double Avk_norm = Avk.norm();
        if(Avk_norm + 1e-3 * new_basis_norm == Avk_norm)
        {
          // std::cout << "apply reorthogonalization. (loop: " << k << ")" << std::endl;
          for(int j = 0; j < k; j++)
          {
            double h_tmp = new_basis.dot(basis_[j]);
            H_(j, k - 1) += h_tmp;
            new_basis -= h_tmp * basis_[j];
          }
        }
""", """        const double Avk_norm = Avk.norm();
        const bool needs_reorth = (Avk_norm + 1e-3 * new_basis_norm == Avk_norm);
        for(int j = 0; needs_reorth && j < k; j++)
        {
          const double h_tmp = basis_[j].dot(new_basis);
          H_.col(k - 1)[j] += h_tmp;
          new_basis -= h_tmp * basis_[j];
        }
"""))

r("y22", "cgmres", (CS, """  for(int i = horizon_divide_num_ - 1; i >= 0; i--)
  {
    // 2.2 calculate lmd_list_[horizon_divide_num_-1, ..., 0]
    xu.head(problem_->dim_x_) = x_list_.col(i);
    xu.tail(problem_->dim_uc_) = u_list.col(i);
    ode_solver_->solve(std::bind(&CgmresProblem::costateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                       tau, lmd_list_.col(i + 1), xu, -horizon_divide_step, lmd_list_.col(i));
    tau -= horizon_divide_step;

    // 3. DhDu_list[horizon_divide_num_-1, ..., 0]
    problem_->calcDhDu(tau, x_list_.col(i), u_list.col(i), lmd_list_.col(i + 1), DhDu_list.col(i));
  }
""", """  int i = horizon_divide_num_;
  while(i-- > 0)
  {
    // 2.2 calculate lmd_list_[horizon_divide_num_-1, ..., 0]
    const auto x_i = x_list_.col(i);
    const auto u_i = u_list.col(i);
    xu.segment(0, problem_->dim_x_) = x_i;
    xu.segment(problem_->dim_x_, problem_->dim_uc_) = u_i;
    ode_solver_->solve(std::bind(&CgmresProblem::costateEquation, problem_.get(), std::placeholders::_1,
                                 std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                       tau, lmd_list_.col(i + 1), xu, -horizon_divide_step, lmd_list_.col(i));
    tau -= horizon_divide_step;

    // 3. DhDu_list[horizon_divide_num_-1, ..., 0]
    problem_->calcDhDu(tau, x_i, u_i, lmd_list_.col(i + 1), DhDu_list.col(i));
  }
"""))

r("y23", "cgmres", (OD, """    state_eq(t + dt_half, x + dt_half * k2, u, k3);""", """    const Eigen::VectorXd x3 = x + dt_half * k2;
    state_eq(t + dt_half, x3, u, k3);"""))

r("y24", "cgmres", (CS, """  for(double t = 0; t <= sim_duration_; t += dt_)
  {
    // 1. simulate
    sim_ode_solver_->solve(std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                                     std::placeholders::_2, std::placeholders::_3, std::placeholders::_4),
                           t, x_, u_, dt_, next_x);
""", """  const auto plant = std::bind(&CgmresProblem::stateEquation, problem_.get(), std::placeholders::_1,
                               std::placeholders::_2, std::placeholders::_3, std::placeholders::_4);
  double t = 0;
  while(!(t > sim_duration_))
  {
    // 1. simulate
    sim_ode_solver_->solve(plant, t, x_, u_, dt_, next_x);
"""), (CS, """    i++;
  }

  ofs_x_.close();""", """    i++;
    t += dt_;
  }

  ofs_x_.close();"""))

r("z01", "fmpc", (FH, """    for(int i = 0; i < config_.horizon_steps; i++)
    {
      s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
      total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
    }
""", """    s_nu_ave = std::inner_product(
        variable_.s_list.begin(), variable_.s_list.end(), variable_.nu_list.begin(), 0.0, std::plus<double>(),
        [](const IneqDimVector & s, const IneqDimVector & nu) { return s.dot(nu); });
    total_ineq_dim = std::accumulate(
        variable_.s_list.begin(), variable_.s_list.end(), 0,
        [](int sum, const IneqDimVector & s) { return sum + static_cast<int>(s.size()); });
"""), (FH, "#include <fstream>", "#include <fstream>\n#include <numeric>"))

r("z02", "ddp", (DH, """    for(int i = 0; i < config_.horizon_steps; i++)
    {
      double t = current_t_ + i * problem_->dt();
      derivative_list_.push_back(Derivative(problem_->stateDim(), problem_->inputDim(t), outer_dim));
    }
""", """    derivative_list_.reserve(config_.horizon_steps);
    std::generate_n(std::back_inserter(derivative_list_), config_.horizon_steps, [&, i = 0]() mutable {
      const double t = current_t_ + (i++) * problem_->dt();
      return Derivative(problem_->stateDim(), problem_->inputDim(t), outer_dim);
    });
"""), (DH, "#include <fstream>", "#include <fstream>\n#include <iterator>"))

r("z03", "ddp", (DH, """  candidate_control_data_.x_list[0] = control_data_.x_list[0];

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    // Calculate input
    candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                        + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);

    // Impose constraints on input
    double t = current_t_ + i * problem_->dt();
    if(config_.with_input_constraint)
    {
      const auto & u_limits = input_limits_func_(t);
      InputDimVector & u = candidate_control_data_.u_list[i];
      u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
    }

    // Calculate next state and cost
    candidate_control_data_.x_list[i + 1] =
        problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
    candidate_control_data_.cost_list[i] =
        problem_->runningCost(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
  }
""", """  StateDimVector x = control_data_.x_list[0];
  candidate_control_data_.x_list[0] = x;

  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const double t = current_t_ + i * problem_->dt();
    const InputDimVector u = updatedInput(i, alpha, x, t);
    candidate_control_data_.u_list[i] = u;
    candidate_control_data_.cost_list[i] = problem_->runningCost(t, x, u);
    x = problem_->stateEq(t, x, u);
    candidate_control_data_.x_list[i + 1] = x;
  }
"""), (DD, """  /** \\brief Process one iteration.""", """  /** \\brief Input of the forward pass. */
  InputDimVector updatedInput(int i, double alpha, const StateDimVector & x, double t) const
  {
    InputDimVector u = control_data_.u_list[i] + alpha * k_list_[i] + K_list_[i] * (x - control_data_.x_list[i]);
    if(!config_.with_input_constraint)
    {
      return u;
    }
    const std::array<InputDimVector, 2> u_limits = input_limits_func_(t);
    return u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]);
  }

  /** \\brief Process one iteration."""))

r("z04", "ddp", (DH, """  bool forward_pass_success = false;
  double cost_update_actual = 0;
  {""", """  struct LineSearchResult
  {
    bool success = false;
    double actual = 0;
  };
  LineSearchResult result;
  bool & forward_pass_success = result.success;
  double & cost_update_actual = result.actual;
  {"""))

r("z05", "ddp", (DH, """    // Decrease lambda
    dlambda_ = std::min(dlambda_ / config_.lambda_factor, 1 / config_.lambda_factor);
    if(lambda_ >= config_.lambda_min)
    {
      lambda_ *= dlambda_;
    }
    else
    {
      lambda_ = 0;
    }
""", """    // Decrease lambda
    dlambda_ = std::min(dlambda_, 1.0) / config_.lambda_factor;
    lambda_ = lambda_ < config_.lambda_min ? 0 : lambda_ * dlambda_;
"""))

r("z06", "fmpc", (FH, """  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];

    delta_variable_.s_list[i].noalias() =
        -1 * (coeff.C * delta_variable_.x_list[i] + coeff.D * delta_variable_.u_list[i] + coeff.g_bar); // (2.27a)
    delta_variable_.nu_list[i].noalias() =
        (-1 * (variable_.nu_list[i].array() * (delta_variable_.s_list[i] + variable_.s_list[i]).array() - barrier_eps_)
         / variable_.s_list[i].array())
            .matrix(); // (2.27b)
  }
""", """  for(int i = 0; i < config_.horizon_steps; i++)
  {
    const auto & coeff = coeff_list_[i];
    const IneqDimVector & s = variable_.s_list[i];
    const IneqDimVector & nu = variable_.nu_list[i];
    IneqDimVector & delta_s = delta_variable_.s_list[i];
    IneqDimVector & delta_nu = delta_variable_.nu_list[i];

    delta_s.noalias() = -coeff.C * delta_variable_.x_list[i];
    delta_s.noalias() -= coeff.D * delta_variable_.u_list[i];
    delta_s -= coeff.g_bar; // (2.27a)
    const IneqDimVector new_s = s + delta_s;
    delta_nu.resize(s.size());
    for(Eigen::Index j = 0; j < s.size(); j++)
    {
      delta_nu[j] = (barrier_eps_ - nu[j] * new_s[j]) / s[j]; // (2.27b)
    }
  }
"""))

r("z07", "fmpc", (FH, """    coeff_list_.clear();
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      double t = current_t_ + i * problem_->dt();
      coeff_list_.emplace_back(problem_->stateDim(), problem_->inputDim(t), problem_->ineqDim(t));
    }
""", """    std::vector<Coefficient> new_coeff_list;
    new_coeff_list.reserve(config_.horizon_steps + 1);
    for(int i = 0; i < config_.horizon_steps; i++)
    {
      const double t = current_t_ + i * problem_->dt();
      new_coeff_list.push_back(Coefficient(problem_->stateDim(), problem_->inputDim(t), problem_->ineqDim(t)));
    }
    coeff_list_ = std::move(new_coeff_list);
"""), (FH, """  coeff_list_.emplace_back(problem_->stateDim());
  for(auto & coeff : coeff_list_)
  {
    coeff.print_level = config_.print_level;
  }
""", """  coeff_list_.push_back(Coefficient(problem_->stateDim()));
  for(size_t i = 0; i < coeff_list_.size(); i++)
  {
    coeff_list_[i].print_level = config_.print_level;
  }
"""))

r("z08", "fmpc", (FH, """  double alpha_s_max = 1.0;
  double alpha_nu_max = 1.0;
  {""", """  std::array<double, 2> alpha_max = {1.0, 1.0};
  double & alpha_s_max = alpha_max[0];
  double & alpha_nu_max = alpha_max[1];
  {"""))

r("z09", "cgmres", (GM, """    std::vector<double> c_list;
    std::vector<double> s_list;
""", """    std::vector<std::pair<double, double>> rotations;
"""), (GM, """          double c = c_list[i];
          double s = s_list[i];
""", """          const auto & [c, s] = rotations[i];
"""), (GM, """        c_list.push_back(c_k);
        s_list.push_back(s_k);
""", """        rotations.emplace_back(c_k, s_k);
"""))

r("z10", "cgmres", (CS, """  u = u_list_.col(0);
""", """  for(Eigen::Index j = 0; j < u.size(); ++j)
  {
    u(j) = u_list_(j, 0);
  }
"""), (CS, """  for(int i = 0; i < horizon_divide_num_; i++)
  {
    u_list_Amul_func_.col(i) =
        u_list_.col(i) + finite_diff_delta_ * vec.segment(i * problem_->dim_uc_, problem_->dim_uc_);
  }
""", """  u_list_Amul_func_ = u_list_;
  u_list_Amul_func_ +=
      finite_diff_delta_ * Eigen::Map<const Eigen::MatrixXd>(vec.data(), problem_->dim_uc_, horizon_divide_num_);
"""))

r("z11", "cgmres", (CS, """  for(int i = 0; i < horizon_divide_num_; i++)
  {
    u_list_.col(i) = u_;
    DhDu_list_.col(i) = DhDu;
  }
""", """  u_list_ = u_.replicate(1, horizon_divide_num_);
  DhDu_list_.colwise() = DhDu;
"""))

r("z12", "ddp", (BQ, """    retval_ = 0;
    int factorization_num = 0;
""", """    int & status = retval_;
    status = 0;
    int factorization_num = 0;
"""), (BQ, """        retval_ = 4;
        break;
""", """        status = 4;
        break;
"""))
