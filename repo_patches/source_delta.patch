From 824cf26cc95060aa29c6a511a0687cab767c0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:29 +0000
Subject: [PATCH 1/9] fix: OptimizerParamsBuilder::SetPlateauPatience uses the
 same gradient-tolerance default as the other setters

Calling SetPlateauPatience first left gradient_tolerance at 1e-15, every other first setter at 1e-30, and the builder has
no setter for it: the built configuration depended on the order of the calls.
---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From 32932a5712355fea30110249b59404bd9c2a41f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 2/9] fix: duomatrix.h includes <cassert> for the assert it
 uses

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..801425d 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -17,6 +17,7 @@
 #ifndef QLPEPS_VMC_PEPS_TWO_DIM_TN_FRAMEWORK_DUOMATRIX_H
 #define QLPEPS_VMC_PEPS_TWO_DIM_TN_FRAMEWORK_DUOMATRIX_H
 
+#include <cassert>    // assert
 #include <vector>     // vector
 #include <array>      // array
 #include <utility>    // move
-- 
2.43.0


From 9b58666c6af7aee0f7e1feae559e079df4ffd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 3/9] fix: DuoMatrix::has_alloc returns whether the element is
 allocated (it was declared void and could not be instantiated)

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 801425d..bf7a599 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -239,7 +239,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) const {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From 8db8c93003a03ea113d207de62f35dc2f511d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 4/9] fix: DuoMatrix iteration visits nothing when the matrix
 has rows but no columns

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index bf7a599..3e533f3 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -379,7 +379,7 @@ class DuoMatrix {
 
   // Begin iterator for DuoMatrix
   Iterator begin() {
-    return Iterator(*this);
+    return size() == 0 ? end() : Iterator(*this);
   }
 
   // End iterator for DuoMatrix
@@ -448,7 +448,7 @@ class DuoMatrix {
 
   // Begin const iterator for DuoMatrix
   ConstIterator cbegin() const {
-    return ConstIterator(*this);
+    return size() == 0 ? cend() : ConstIterator(*this);
   }
 
   // End const iterator for DuoMatrix
-- 
2.43.0


From 0dc00b25d7ec822752cecb5d5a54ef8a81d50744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 5/9] fix: Configuration from an empty table no longer reads
 past its end

---
 include/qlpeps/vmc_basic/configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index ada76dd..de9bf57 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -64,7 +64,7 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
   /// @brief Constructor from a 2D vector of size_t
   /// @param config_data 2D vector representing the configuration data
   Configuration(std::vector<std::vector<size_t>> config_data) : DuoMatrix<size_t>(config_data.size(),
-                                                                                  config_data[0].size()) {
+                                                                                  config_data.empty() ? 0 : config_data[0].size()) {
     for (size_t row = 0; row < this->rows(); row++) {
       for (size_t col = 0; col < this->cols(); col++) {
         (*this)({row, col}) = config_data.at(row).at(col);
-- 
2.43.0


From a212245954805be6237cb80394ed4e03981e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 6/9] fix: writing a Configuration without columns no longer
 accesses missing sites

---
 include/qlpeps/vmc_basic/configuration.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index de9bf57..3434d9b 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -456,10 +456,10 @@ void Configuration::StreamRead(std::istream &is) {
 
 void Configuration::StreamWrite(std::ostream &os) const {
   for (size_t row = 0; row < this->rows(); row++) {
-    for (size_t col = 0; col < this->cols() - 1; col++) {
-      os << (*this)({row, col}) << " ";
+    for (size_t col = 0; col < this->cols(); col++) {
+      os << (*this)({row, col}) << (col + 1 < this->cols() ? " " : "");
     }
-    os << (*this)({row, this->cols() - 1}) << std::endl;
+    os << std::endl;
   }
 }
 
-- 
2.43.0


From 960c61b785051cb159e8b6f586b69da25561a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 7/9] fix: GatherStatisticSingleData reported a NaN error when
 the processes agree

---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..bc1fb0b 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -264,9 +264,9 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     if (comm_size > 1) {
       RealT sum_square = 0.0;
       for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
+        sum_square += static_cast<RealT>(std::norm(gather_data[i] - mean));
       }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
+      RealT variance = sum_square / static_cast<RealT>(comm_size);
       standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
 
       // Check if standard error is infinite and output warning with data
-- 
2.43.0


From 7e5277c73b8437e2fe5f14238c5732d02c58d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:38 +0000
Subject: [PATCH 8/9] fix: conjugate gradient reports breakdown, not
 convergence, for a non-finite initial residual

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..6bdef5d 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -196,6 +196,9 @@ CGResult<VectorType> ConjugateGradientSolver(
                                  absolute_tolerance * absolute_tolerance);
   VectorType r = b - matrix_a * x0;
   double r_norm_sq = r.NormSquare();
+  if (!std::isfinite(r_norm_sq)) {  // otherwise inf <= inf would be reported as convergence
+    return {x0, std::sqrt(r_norm_sq), 0, CGTerminationReason::kNumericalBreakdown};
+  }
   if (r_norm_sq <= tol_sq) {
     return {x0, std::sqrt(r_norm_sq), 0, CGTerminationReason::kConverged};
   }
@@ -432,6 +435,10 @@ CGResult<VectorType> ConjugateGradientSolverMaster(
   VectorType ax0 = MatrixMultiplyVectorMaster(matrix_a, x0, comm);
   VectorType r = b - ax0;
   double r_norm_sq = r.NormSquare();
+  if (!std::isfinite(r_norm_sq)) {  // otherwise inf <= inf would be reported as convergence
+    MasterBroadcastInstruction(finish, comm);
+    return {x0, std::sqrt(r_norm_sq), 0, CGTerminationReason::kNumericalBreakdown};
+  }
   if (r_norm_sq <= tol_sq) {
     MasterBroadcastInstruction(finish, comm);
     return {x0, std::sqrt(r_norm_sq), 0, CGTerminationReason::kConverged};
-- 
2.43.0


From 60a6e8be63ad4082c499dec84cfdc2d5a2835507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:20 +0000
Subject: [PATCH 9/9] fix: accept with a warning when an S4 energy spike has no
 state left to roll back to

IterativeOptimize re-evaluated the same state forever when the energy
stayed above the S4 threshold after the one stored state had been restored.
---
 include/qlpeps/optimizer/optimizer_impl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..cb70736 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,7 +736,8 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Nothing left to restore: re-evaluating the same state could repeat forever.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
@@ -760,6 +761,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
           attempts = 0;
           continue;
         }
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
       }
 
       // === E: ACCEPT — update EMA trackers (only on accepted steps) ===
-- 
2.43.0

