From f313876f6776eb4f2c63e0aac50ed7540bffcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 01/14] fix: make BoxQP.h self-contained by including the
 standard headers it uses

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..d6b1d23 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -2,6 +2,12 @@
 
 #pragma once
 
+#include <cmath>
+#include <iostream>
+#include <memory>
+#include <stdexcept>
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <Eigen/Dense>
-- 
2.43.0


From 0943f7297acdf8c00dba457613d6e71094338f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 02/14] fix: allow DDPSolver.h and FmpcSolver.h in one
 translation unit (calcDuration was defined twice in the global unnamed
 namespace)

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 4 ++--
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..ba8566d 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -6,6 +6,8 @@
 
 #include <nmpc_ddp/BoxQP.h>
 
+namespace nmpc_ddp
+{
 namespace
 {
 template<class Clock>
@@ -15,8 +17,6 @@ double calcDuration(const std::chrono::time_point<Clock> & start_time, const std
 }
 } // namespace
 
-namespace nmpc_ddp
-{
 template<int StateDim, int InputDim>
 DDPSolver<StateDim, InputDim>::DDPSolver(const std::shared_ptr<DDPProblem<StateDim, InputDim>> & problem)
 : problem_(problem)
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..1a3af35 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -17,6 +17,8 @@
     return true;                                                                                          \
   }
 
+namespace nmpc_fmpc
+{
 namespace
 {
 template<class Clock>
@@ -26,8 +28,6 @@ double calcDuration(const std::chrono::time_point<Clock> & start_time, const std
 }
 } // namespace
 
-namespace nmpc_fmpc
-{
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Variable::Variable(int _horizon_steps) : horizon_steps(_horizon_steps)
 {
-- 
2.43.0


From 69ae41e785ea8680907a4be52a665ec67621689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 03/14] fix: clamp the inputs of the DDP forward pass to the
 input limits (the feedback term could push them outside)

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index ba8566d..b79468e 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -545,10 +545,16 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+    if(config_.with_input_constraint)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      InputDimVector & u = candidate_control_data_.u_list[i];
+      u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From ce75eb960ddab769acc46687f94a0b8fd44efce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 04/14] fix: treat non-finite DDP gains as a backward pass
 failure (they passed the small-gradient test and were reported as success)

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index b79468e..fdba788 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -516,6 +516,15 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
       K.setZero(0, problem_->stateDim());
     }
 
+    if(!k.allFinite() || !K.allFinite())
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Gain contains NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     computation_duration_.gain += calcDuration(start_time_gain, std::chrono::system_clock::now());
 
     // Update cost-to-go approximation
-- 
2.43.0


From fa19e7e9459dca732c601906ec76c1d06c39582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 05/14] fix: print nothing from the DDP solver at print level 0

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index fdba788..4602003 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -1,5 +1,6 @@
 /* Author: Masaki Murooka */
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -250,7 +251,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_ratio = cost_update_actual / cost_update_expected;
       if(cost_update_expected < 0)
       {
-        if((!config_.with_input_constraint && config_.print_level >= 0)
+        if((!config_.with_input_constraint && config_.print_level >= 1)
            || (config_.with_input_constraint && config_.print_level >= 2))
         {
           std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
@@ -467,6 +468,7 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
         }
 
         BoxQP<Eigen::Dynamic> qp(static_cast<int>(Quu_F.cols()));
+        qp.config().print_level = std::min(config_.print_level, 1);
         const auto & u_limits = input_limits_func_(t);
         k = qp.solve(Quu_F, Qu, u_limits[0] - control_data_.u_list[i], u_limits[1] - control_data_.u_list[i],
                      initial_k);
-- 
2.43.0


From 8b26f02e12d7ae576d9a43c44ed492aede30f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 06/14] fix: record cost and regularization in the DDP trace
 entry when an iteration returns early

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 4602003..56cb1b2 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -201,6 +201,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
+        trace_data.cost = control_data_.cost_list.sum();
+        trace_data.lambda = lambda_;
+        trace_data.dlambda = dlambda_;
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -228,6 +231,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       std::cout << "[DDP] Terminate due to small gradient. (time: " << current_t_ << ", iter: " << iter << ")"
                 << std::endl;
     }
+    trace_data.cost = control_data_.cost_list.sum();
+    trace_data.lambda = lambda_;
+    trace_data.dlambda = dlambda_;
     return 1; // Terminate
   }
 
-- 
2.43.0


From 5177b5aeeb423a682d67e9fb3a5d1d24b757172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 07/14] fix: stop BoxQP with its own exit code when the line
 search fails, and for non-positive max_iter

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index d6b1d23..56da1ca 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -335,7 +335,11 @@ public:
       obj = obj_candidate;
 
       // Check loop termination
-      if(iter == config_.max_iter)
+      if(retval_ == 2)
+      {
+        break;
+      }
+      if(iter >= config_.max_iter)
       {
         retval_ = 1;
         break;
-- 
2.43.0


From 9e6bad96de344f7827b988b8e426c9fb87dc37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 08/14] fix: initialize all members of the terminal FMPC
 coefficient (containsNaN() read uninitialized memory)

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 1a3af35..18e4f42 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -1,5 +1,6 @@
 /* Author: Masaki Murooka */
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -122,12 +123,24 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
-  Lx.resize(state_dim);
-  Lxx.resize(state_dim, state_dim);
-  Lx_bar.resize(state_dim);
-
-  s.resize(state_dim);
-  P.resize(state_dim, state_dim);
+  // Unused members must not be left uninitialized because containsNaN() checks all members
+  A.setZero(state_dim, state_dim);
+  B.setZero(state_dim, std::max(InputDim, 0));
+  C.setZero(std::max(IneqDim, 0), state_dim);
+  D.setZero(std::max(IneqDim, 0), std::max(InputDim, 0));
+  Lx.setZero(state_dim);
+  Lu.setZero(std::max(InputDim, 0));
+  Lxx.setZero(state_dim, state_dim);
+  Luu.setZero(std::max(InputDim, 0), std::max(InputDim, 0));
+  Lxu.setZero(state_dim, std::max(InputDim, 0));
+  x_bar.setZero(state_dim);
+  g_bar.setZero(std::max(IneqDim, 0));
+  Lx_bar.setZero(state_dim);
+  Lu_bar.setZero(std::max(InputDim, 0));
+  k.setZero(std::max(InputDim, 0));
+  K.setZero(std::max(InputDim, 0), state_dim);
+  s.setZero(state_dim);
+  P.setZero(state_dim, state_dim);
 }
 
 template<int StateDim, int InputDim, int IneqDim>
-- 
2.43.0


From c5078812c5527520c1c59158d12d78df8bd9e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 09/14] fix: use the derivative of the whole constraint in the
 FMPC merit slope (wrong for zero residuals, and did not compile for dynamic
 inequality dimension)

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 18e4f42..42a9c09 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -888,18 +888,16 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.A, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.B, delta_u);
-      merit_deriv_const +=
-          l1NormDirectionalDeriv(const_func, (-1 * StateStateDimMatrix::Identity()).eval(), delta_next_x);
+      StateDimVector const_dir = coeff.A * delta_x + coeff.B * delta_u - delta_next_x;
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, StateStateDimMatrix::Identity().eval(), const_dir);
     }
 
     {
       IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      IneqDimVector const_dir = coeff.C * delta_x + coeff.D * delta_u + delta_s;
+      merit_deriv_const += l1NormDirectionalDeriv(
+          const_func, IneqIneqDimMatrix::Identity(const_func.size(), const_func.size()).eval(), const_dir);
     }
   }
 
-- 
2.43.0


From fc9b78ded1d176d63b111eb2e25de4ffd22b71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 10/14] fix: support FMPC steps without inequality constraints
 (reductions over empty vectors and division by zero)

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42a9c09..4238454 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -392,15 +392,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     // (19.19) in "Nocedal, Wright. Numerical optimization"
     double s_nu_ave = 0.0;
-    double s_nu_min = std::numeric_limits<double>::max();
     int total_ineq_dim = 0;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
@@ -920,7 +921,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From 653765a62750e5e7855c95e779fe3e3996e5e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 11/14] fix: clamp negative FMPC slacks and multipliers to a
 positive value (lowest() is negative)

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 4238454..e7528dc 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -824,7 +824,7 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::updateVariables()
       variable_.s_list[i] += alpha_s * delta_variable_.s_list[i];
       variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];
 
-      constexpr double min_positive_value = std::numeric_limits<double>::lowest();
+      constexpr double min_positive_value = std::numeric_limits<double>::min();
       if((variable_.s_list[i].array() < 0).any())
       {
         if(config_.print_level >= 1)
-- 
2.43.0


From 0c37ae9b6e761fa42b9e14be942cda34d21fd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 12/14] fix: check the sizes of the FMPC initial guess before
 complementarity initialization indexes it

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  5 ++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..5a5c95e 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,7 +345,10 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
-  /** \brief Check optimization variables. */
+  /** \brief Check sequence length and input dimension of optimization variables. */
+  void checkVariableSize() const;
+
+  /** \brief Check inequality dimension and sign of optimization variables. */
   void checkVariable() const;
 
   /** \brief Process one iteration.
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index e7528dc..55d0cfe 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -181,6 +181,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check sequence length and input dimension of variable_
+  checkVariableSize();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -295,7 +298,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
   }
 }
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariableSize() const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -324,10 +327,10 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                 + std::to_string(variable_.nu_list.size()) + ".");
   }
 
-  // Check element dimension
-  for(int i = 0; i < config_.horizon_steps; i++)
+  // Check input dimension
+  if constexpr(InputDim == Eigen::Dynamic)
   {
-    if constexpr(InputDim == Eigen::Dynamic)
+    for(int i = 0; i < config_.horizon_steps; i++)
     {
       double t = current_t_ + i * problem_->dt();
       int input_dim = problem_->inputDim(t);
@@ -338,7 +341,16 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
-    if constexpr(IneqDim == Eigen::Dynamic)
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+{
+  // Check inequality dimension
+  if constexpr(IneqDim == Eigen::Dynamic)
+  {
+    for(int i = 0; i < config_.horizon_steps; i++)
     {
       double t = current_t_ + i * problem_->dt();
       int ineq_dim = problem_->ineqDim(t);
-- 
2.43.0


From d861ce8333e0fbbe2c35ffa6c9c5e00261fc0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 13/14] fix: do not carry the barrier parameter and print level
 of an earlier FMPC solve over to the next one

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 55d0cfe..61b25d2 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -180,6 +180,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   current_x_ = current_x;
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
+  constexpr double initial_barrier_eps = 1e-4;
+  barrier_eps_ = initial_barrier_eps;
 
   // Check sequence length and input dimension of variable_
   checkVariableSize();
@@ -187,11 +189,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
-    constexpr double initial_barrier_eps = 1e-4;
     constexpr double complementary_variable_margin_rate = 1e-2;
     constexpr double complementary_variable_min = 1e-2;
 
-    barrier_eps_ = initial_barrier_eps;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       double t = current_t_ + i * problem_->dt();
@@ -210,8 +210,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(delta_variable_.horizon_steps != config_.horizon_steps)
   {
     delta_variable_ = Variable(config_.horizon_steps);
-    delta_variable_.print_level = config_.print_level;
   }
+  delta_variable_.print_level = config_.print_level;
 
   // Setup coeff_list_
   if constexpr(InputDim == Eigen::Dynamic || IneqDim == Eigen::Dynamic)
-- 
2.43.0


From 789f916b5f95eafc491ef6f8d5fea244d3b4b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:36 +0000
Subject: [PATCH 14/14] fix: do not read the last entry of an empty FMPC trace
 when max_iter is not positive

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 61b25d2..9b4fc11 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -266,7 +266,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << (trace_data_list_.empty() ? 0 : trace_data_list_.back().iter) << std::endl;
   }
 
   return status;
-- 
2.43.0

