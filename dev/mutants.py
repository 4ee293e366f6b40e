"""Deliberate breakages used to try the checks (scratch copies only): id, property, file, old text, new text."""
D = "nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp"
DH = "nmpc_ddp/include/nmpc_ddp/DDPSolver.h"
B = "nmpc_ddp/include/nmpc_ddp/BoxQP.h"
F = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp"
FH = "nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h"
M = "nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"
G = "nmpc_cgmres/include/nmpc_cgmres/Gmres.h"
O = "nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"
C = "nmpc_cgmres/src/CgmresSolver.cpp"
MUT = [
 # C01
 ("m01a","C01",D,"    control_data_.cost_list = candidate_control_data_.cost_list;\n","    control_data_.cost_list.head(config_.horizon_steps) = candidate_control_data_.cost_list.head(config_.horizon_steps);\n"),
 ("m01b","C01",D,"  double terminal_t = current_t_ + config_.horizon_steps * problem_->dt();\n  candidate_control_data_.cost_list","  double terminal_t = config_.horizon_steps * problem_->dt();\n  candidate_control_data_.cost_list"),
 ("m01c","C01",D,"        problem_->runningCost(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);","        problem_->runningCost(t, candidate_control_data_.x_list[i], control_data_.u_list[i]);"),
 # C02
 ("m02a","C02",D,"cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);","cost_update_ratio = 1;"),
 ("m02b","C02",D,"      if(cost_update_ratio > config_.cost_update_ratio_thre)","      if(!(cost_update_ratio <= config_.cost_update_ratio_thre))"),
 ("m02c","C02",D,"      cost_update_ratio = cost_update_actual / cost_update_expected;\n      if(cost_update_expected < 0)","      cost_update_ratio = cost_update_actual / std::abs(cost_update_expected);\n      if(cost_update_expected < -1e3)"),
 # C03
 ("m03a","C03",D,"K.transpose() * Quu * k + K.transpose() * Qu +","K.transpose() * Quu_F * k + K.transpose() * Qu +"),
 ("m03b","C03",D,"K = -1 * llt_Quu_F.solve(Qux_reg);","K = -1 * llt_Quu_F.solve(Qux);"),
 ("m03c","C03",D,"    Vxx_symmetric = 0.5 * (Vxx + Vxx.transpose());\n    Vxx = Vxx_symmetric;\n","    Vxx_symmetric = Vxx;\n    Vxx = Vxx_symmetric;\n"),
 ("m03d","C03",D,"dV_ += Eigen::Vector2d(k.dot(Qu), 0.5 * k.dot(Quu * k));","dV_ += Eigen::Vector2d(k.dot(Qu), 0.5 * k.dot(Quu_F * k));"),
 ("m03e","C03",D,"      Vxx_reg.diagonal().array() += lambda_;","      Vxx_reg.array() += lambda_;"),
 # C04
 ("m04a","C04",D,"  return retval == 1;","  return retval >= 0;"),
 ("m04b","C04",D,"k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre","k_rel_norm < config_.k_rel_norm_thre"),
 ("m04c","C04",D,"    if(lambda_ >= config_.lambda_min)\n    {\n      lambda_ *= dlambda_;","    if(lambda_ > 0)\n    {\n      lambda_ *= dlambda_;"),
 ("m04d","C04",D,"    dlambda_ = std::min(dlambda_ / config_.lambda_factor, 1 / config_.lambda_factor);","    dlambda_ = 1 / config_.lambda_factor;"),
 ("m04e","C04",D,"    // Increase lambda\n    dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);\n    lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);","    // Increase lambda\n    lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);\n    dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);"),
 # C05
 ("m05a","C05",D,"      u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();","      u = u.cwiseMin(u_limits[1]).eval();"),
 ("m05b","C05",D,"            K.row(free_idxs[j]) = K_free.row(j);","            K.row(j) = K_free.row(j);"),
 ("m05c","C05",D,"u_limits[0] - control_data_.u_list[i], u_limits[1] - control_data_.u_list[i],\n","u_limits[0] - control_data_.u_list[i], u_limits[1],\n"),
 ("m05d","C05",D,"        const auto & u_limits = input_limits_func_(t);\n        k = qp","        const auto & u_limits = input_limits_func_(current_t_);\n        k = qp"),
 # C06/7/8
 ("m06a","C06",B,"VarDimVector x = initial_x.cwiseMin(upper).cwiseMax(lower);","VarDimVector x = initial_x;"),
 ("m06b","C06",B,"        step_num++;\n        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);","        step_num++;\n        x_candidate = x + step * search_dir;"),
 ("m07a","C07",B,"      if(iter == 1 || (clamped_flag != old_clamped_flag).any())","      if(iter == 1 || clamped_flag.count() != old_clamped_flag.count())"),
 ("m07b","C07",B,"(x.array() == upper.array() && grad.array() < 0))","(x.array() == upper.array()))"),
 ("m07c","C07",B,"          retval_ = -1;\n          break;","          retval_ = 1;\n          break;"),
 ("m08a","C08",B,"Eigen::VectorXd grad_free_clamped = g_free + H_free_clamped * x_clamped;","Eigen::VectorXd grad_free_clamped = g_free;"),
 ("m08b","C08",B,"(old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj)","(old_obj - obj) < config_.rel_improve_thre * old_obj"),
 ("m08c","C08",B,"while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)","while((obj_candidate - old_obj) / search_dir_grad < config_.armijo_param)"),
 # C09
 ("m09a","C09",F,"        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm();","        (variable_.s_list[i].array() * variable_.nu_list[i].array() - barrier_eps).max(0).matrix().squaredNorm() * 1e-4;"),
 ("m09b","C09",F,"  if(kkt_error <= config_.kkt_error_thre)","  if(!(kkt_error > config_.kkt_error_thre))"),
 ("m09c","C09",F,"calcKktError(0.0)","calcKktError(barrier_eps_)"),
 ("m09d","C09",F,"    kkt_error += terminal_coeff.Lx_bar.squaredNorm();","    kkt_error += terminal_coeff.x_bar.squaredNorm();"),
 # C10
 ("m10a","C10",F,"Lu_tilde.noalias() = Lu_bar + D.transpose() * tilde_sub;","Lu_tilde.noalias() = Lu_bar + D.transpose() * nu_s.cwiseProduct(g_bar);"),
 ("m10b","C10",F,"            K.noalias() = -1 * lu_G.solve(H.transpose()); // (2.35e)","            K.noalias() = lu_G.solve(H.transpose()); // (2.35e)"),
 ("m10c","C10",F,"coeff.A * delta_variable_.x_list[i] + coeff.B * delta_variable_.u_list[i] + coeff.x_bar; // (2.26b)","coeff.A * delta_variable_.x_list[i] + coeff.B * delta_variable_.u_list[i]; // (2.26b)"),
 ("m10d","C10",F,"      s = A.transpose() * (s - P * x_bar) - Lx_tilde - H * k; // (2.35a)\n      P.noalias() = F - K.transpose() * G * K; // (2.35a)","      P.noalias() = F - K.transpose() * G * K; // (2.35a)\n      s = A.transpose() * (s - P * x_bar) - Lx_tilde - H * k; // (2.35a)"),
 # C11
 ("m11a","C11",F,"alpha_nu_max = std::min(alpha_nu_max, -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx]);","alpha_nu_max = -1 * margin_ratio * nu[ineq_idx] / delta_nu[ineq_idx];"),
 ("m11b","C11",F,"constexpr double margin_ratio = 0.995;","constexpr double margin_ratio = 1.0;"),
 ("m11c","C11",F,"      variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];","      variable_.nu_list[i] += alpha_s * delta_variable_.nu_list[i];"),
 ("m11d","C11",F,"for(int ineq_idx = 0; ineq_idx < s.size(); ineq_idx++)","for(int ineq_idx = 0; ineq_idx < s.size() - 1; ineq_idx++)"),
 # C12
 ("m12a","C12",F,"  if(config_.check_nan && delta_variable_.containsNaN())","  if(config_.check_nan && delta_variable_.containsNaN() && config_.print_level >= 1)"),
 ("m12b","C12",F,"  for(auto & nu : nu_list)\n  {\n    CHECK_NAN(nu","  for(auto & nu : s_list)\n  {\n    CHECK_NAN(nu"),
 ("m12c","C12",F,"      return Status::ErrorInForward;","      return Status::ErrorInBackward;"),
 ("m12d","C12",F,"  if(status == Status::IterationContinued)\n","  if(status != Status::Succeeded)\n"),
 ("m12e","C12",F,"    for(const auto & coeff : coeff_list_)\n    {\n      if(coeff.containsNaN())","    for(size_t ci = 1; ci < coeff_list_.size(); ci++)\n    {\n      const auto & coeff = coeff_list_[ci];\n      if(coeff.containsNaN())"),
 # C13
 ("m13a","C13",F,"      merit_deriv_obj += -1 * barrier_eps_ * s.cwiseInverse().dot(delta_s);","      merit_deriv_obj += -1 * barrier_eps_ * s.dot(delta_s);"),
 ("m13b","C13",F,"          ls_variable.s_list[i] = variable_.s_list[i] + alpha_s * delta_variable_.s_list[i];","          ls_variable.s_list[i] = variable_.s_list[i] + alpha_s_max * delta_variable_.s_list[i];"),
 ("m13c","C13",M,"      deriv += std::abs(jac.row(i).transpose().dot(dir));","      deriv += jac.row(i).transpose().dot(dir);"),
 ("m13d","C13",F,"merit_deriv_obj / ((1.0 - rho) * merit_func_const)","merit_deriv_obj / (1.0 - rho) * merit_func_const"),
 # C14
 ("m14a","C14",F,"    if(total_ineq_dim > 0)\n    {\n      s_nu_ave /= total_ineq_dim;","    if(total_ineq_dim > 0)\n    {\n      s_nu_ave /= config_.horizon_steps;"),
 ("m14b","C14",F,"(-1 * problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]))\n","(problem_->ineqConst(t, variable_.x_list[i], variable_.u_list[i]))\n"),
 ("m14c","C14",F,"constexpr double barrier_eps_min = 1e-8;","constexpr double barrier_eps_min = 1e-12;"),
 # C15
 ("m15a","C15",F,"    if((variable_.nu_list[i].array() < 0).any())\n    {\n      throw","    if((variable_.nu_list[i].array() < 0).all())\n    {\n      throw"),
 ("m15b","C15",D,"      double t = current_t_ + i * problem_->dt();\n      if(initial_u_list[i].size() != problem_->inputDim(t))","      double t = current_t_ + i * problem_->dt();\n      if(initial_u_list[i].size() != problem_->inputDim(current_t_))"),
 ("m15c","C15",F,"static_cast<int>(variable_.lambda_list.size()) != config_.horizon_steps + 1)","static_cast<int>(variable_.lambda_list.size()) < config_.horizon_steps + 1)"),
 # C16
 ("m16a","C16",D,"  dV_.setZero();\n","  if(lambda_ == config_.initial_lambda)\n  {\n    dV_.setZero();\n  }\n"),
 ("m16b","C16",D,"  dlambda_ = config_.initial_dlambda;\n","  if(dlambda_ == 0)\n  {\n    dlambda_ = config_.initial_dlambda;\n  }\n"),
 ("m16c","C16",F,"  // Clear trace_data_list_\n  trace_data_list_.clear();","  // Clear trace_data_list_\n  if(config_.horizon_steps > 1) trace_data_list_.clear();"),
 ("m16d","C16",B,"    free_idxs_.clear();\n    for(;; iter++)","    for(;; iter++)"),
 # C17
 ("m17a","C17",D,"          if(k_list_[i + 1].size() == input_dim)\n          {\n            initial_k = k_list_[i + 1];\n          }\n          else\n          {\n            initial_k.setZero(input_dim);\n          }","          initial_k = k_list_[i + 1];"),
 ("m17b","C17",D,"        if(i == config_.horizon_steps - 1)\n        {\n          initial_k","        if(i == config_.horizon_steps)\n        {\n          initial_k"),
 # C18
 ("m18a","C18",B,"        if(step < config_.min_step)","        if(step < config_.min_step && obj_candidate < old_obj)"),
 ("m18b","C18",F,"      if(alpha_s < alpha_s_min)","      if(alpha_s < 0)"),
 ("m18c","C18",D,"      if(lambda_ > config_.lambda_max)\n      {\n        if(config_.print_level >= 1)\n        {\n          std::cout << \"[DDP/Backward]","      if(lambda_ > config_.lambda_max && lambda_ < config_.lambda_min)\n      {\n        if(config_.print_level >= 1)\n        {\n          std::cout << \"[DDP/Backward]"),
 # C19
 ("m19a","C19",D,"qp.config().print_level = std::min(config_.print_level, 1);","qp.config().print_level = 1;"),
 ("m19b","C19",F,"  if(config_.print_level >= 3)\n  {\n    std::cout << \"[FMPC/merit]","  if(config_.print_level >= 0)\n  {\n    std::cout << \"[FMPC/merit]"),
 ("m19c","C19",B,"          if(config_.print_level >= 1)\n          {\n            std::cout << \"[BoxQP] H_free","          {\n            std::cout << \"[BoxQP] H_free"),
 # C20
 ("m20a","C20",D,"        trace_data.cost = control_data_.cost_list.sum();\n        trace_data.lambda = lambda_;\n        trace_data.dlambda = dlambda_;\n        return -1; // Failure","        trace_data.cost = control_data_.cost_list.sum();\n        return -1; // Failure"),
 ("m20b","C20",D,"      << \"lambda \"\n      << \"dlambda \"\n","      << \"dlambda \"\n      << \"lambda \"\n"),
 ("m20c","C20",F,"  trace_data.kkt_error = kkt_error;\n  if(kkt_error <= config_.kkt_error_thre)\n  {\n    return","  if(kkt_error > config_.kkt_error_thre)\n  {\n    trace_data.kkt_error = kkt_error;\n  }\n  else\n  {\n    return"),
 ("m20d","C20",C,"    if(i % dump_step_ == 0)","    if(i % dump_step_ == dump_step_ - 1)"),
 # C22
 ("m22a","C22",G,"        H_(j, k - 1) = new_basis.dot(basis_[j]);","        H_(j, k - 1) = Avk.dot(basis_[j]);"),
 ("m22b","C22",G,"    while(rho > eps * b_norm && k < k_max)","    while(rho > eps && k < k_max)"),
 ("m22c","C22",G,"            H_(j, k - 1) += h_tmp;\n",""),
 ("m22d","C22",G,"    k_max = std::min(k_max, static_cast<int>(x.size()));","    k_max = std::min(k_max, static_cast<int>(x.size()) + 1);"),
 ("m22e","C22",G,"        rho = (g_.head(k + 1) - H_.topLeftCorner(k + 1, k) * y_k).norm();","        rho = (g_.head(k) - H_.topLeftCorner(k, k) * y_k).norm();"),
 # C23
 ("m23a","C23",O,"    state_eq(t + dt_half, x + dt_half * k2, u, k3);","    state_eq(t + dt_half, x + dt_half * k1, u, k3);"),
 ("m23b","C23",O,"    state_eq(t + dt, x + dt * k3, u, k4);","    state_eq(t + dt_half, x + dt * k3, u, k4);"),
 # C24
 ("m24a","C24",C,"    tau -= horizon_divide_step;\n\n    // 3.","    // 3."),
 ("m24b","C24",C,"lmd_list_.col(i + 1), DhDu_list.col(i));","lmd_list_.col(i), DhDu_list.col(i));"),
 ("m24c","C24",C,"std::exp(-horizon_increase_ratio_ * t)","std::exp(-horizon_increase_ratio_ * std::abs(t - 0.5 * dt_))"),
 # C25
 ("m25a","C25",C,"  x_with_delta_ = (1 - finite_diff_delta_ / dt_) * x + (finite_diff_delta_ / dt_) * next_x;","  x_with_delta_ = (1 - finite_diff_delta_) * x + finite_diff_delta_ * next_x;"),
 ("m25b","C25",C,"  calcDhDuList(t_with_delta_, x_with_delta_, u_list_Amul_func_, DhDu_list_Amul_func_);","  calcDhDuList(t_with_delta_ - finite_diff_delta_, x_with_delta_, u_list_Amul_func_, DhDu_list_Amul_func_);"),
 ("m25c","C25",C,"    x_ = next_x;\n\n    // 3. dump","    if(i > 0) x_ = next_x;\n\n    // 3. dump"),
 ("m25d","C25",C,"    gmres.solve(Amul_func, -DhDu, delta_u, problem_->dim_uc_, 1e-10);","    gmres.solve(Amul_func, DhDu, delta_u, problem_->dim_uc_, 1e-10);"),
 # C26
 ("m26a","C26",D,"problem_->calcTerminalCostDeriv(terminal_t, control_data_.x_list[config_.horizon_steps], last_Vx_, last_Vxx_);","problem_->calcTerminalCostDeriv(terminal_t, control_data_.x_list[config_.horizon_steps - 1], last_Vx_, last_Vxx_);"),
 ("m26b","C26",F,"      double t = current_t_ + i * dt;\n      const StateDimVector & x = variable_.x_list[i];\n      const StateDimVector & next_x = variable_.x_list[i + 1];\n      const InputDimVector & u = variable_.u_list[i];\n      const StateDimVector & lambda","      double t = current_t_ + (i + 1) * dt;\n      const StateDimVector & x = variable_.x_list[i];\n      const StateDimVector & next_x = variable_.x_list[i + 1];\n      const InputDimVector & u = variable_.u_list[i];\n      const StateDimVector & lambda"),
 ("m26c","C26",F,"      double t = current_t_ + i * problem_->dt();\n      variable_.s_list[i] =","      double t = i * problem_->dt();\n      variable_.s_list[i] ="),
 ("m25e","C25",C,"    sim_ode_solver_->solve","    ode_solver_->solve"),
 ("m25f","C24","nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h","double steady_horizon_duration_ = 1.0;","double steady_horizon_duration_ = 1.5;"),
 ("m25g","C25","nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h","double sim_duration_ = 10;","double sim_duration_ = 9;"),
 ("m02d","C02",DH,"      alpha_list.resize(list_size);","      alpha_list.resize(list_size - 1);\n      list_size--;"),
 ("m02e","C02",DH,"        alpha_list[i] = std::pow(10, alpha_exponent_list[i]);","        alpha_list[i] = std::pow(5, alpha_exponent_list[i]);"),
]
