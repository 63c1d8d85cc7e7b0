From 2e8f76fc3d97a5fc9ee80c77b4b35b2190a3ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 01/40] fix: reconsider the second shortest distance when
 extending the chain

After a successful insertion the scan restarted at dist[2] instead of dist[1],
so the second shortest edge was never revisited: a tight second binary was
left out of adjacent chain positions.
---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..a1a01ff 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;
                     }
                 }
             }
-- 
2.43.0


From a1adfdc686ec72b4b12d2032d651906053ea2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 02/40] fix: let a reset logarithmic time slice start from its
 new start time

---
 src/args-callback/callbacks.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..3cfd1dd 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From 0e8f7c118ec701794aa23692dffbf4f0a93b5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 03/40] fix: keep the state of stop conditions between steps of
 a run

---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From 8811f209d35988c37287c2af66b45078e2934f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 04/40] fix: take only the extra forces into the binding energy
 derivative

---
 src/particle-system/archain.hpp     | 4 +++-
 src/particle-system/regu-system.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..32937b7 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -302,8 +302,10 @@ namespace hub::system {
         dy_dh.emplace_back(pos_regu);
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
+        StateScalar dbindE_dt{0};  // only the extra forces change the binding energy
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +324,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..6949460 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -319,8 +319,10 @@ namespace hub::system {
 
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
 
+        StateScalar dbindE_dt{0};  // only the extra forces change the binding energy
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +338,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From 827f3b57d033c4adfbce63e2e16791a854de10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 05/40] fix: keep the rank chosen by the first Bulirsch-Stoer
 step in range

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..cbad23e 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From efc09cbb3942e3f56a21454ebc0ae1396ee684e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 06/40] fix: reject a Bulirsch-Stoer first step that does not
 converge

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index cbad23e..bb2fc72 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // the first step uses the whole table before it is rejected
         }
     }
 
-- 
2.43.0


From 6e8e532d51bffd49ec5b9c216c435567177e6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 07/40] fix: compare the work of Bulirsch-Stoer levels
 regardless of the direction of time

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index bb2fc72..ddc52da 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -257,7 +257,7 @@ namespace hub::ode {
 
                 ideal_step_size_[k] = iter_h * step_ctrl_.next(result_order, error);
 
-                cost_per_len_[k] = consts_.cost(k) / ideal_step_size_[k];
+                cost_per_len_[k] = consts_.cost(k) / fabs(ideal_step_size_[k]);
                 // hub::print_csv(std::cout, k, ideal_rank_, error, ideal_step_size_[k], cost_per_len_[k], '\n');
                 if (in_converged_window(k)) {
                     if (error <= 1.0) {
@@ -330,7 +330,7 @@ namespace hub::ode {
                 extrapolate(k);  // extrapolate results and save it to extrap_list_[0];
                 Scalar error = err_checker_.error(input_, extrap_list_[1], extrap_list_[0]);
                 ideal_step_size_[k] = iter_h * step_ctrl_.next(result_order, error);
-                cost_per_len_[k] = consts_.cost(k) / ideal_step_size_[k];
+                cost_per_len_[k] = consts_.cost(k) / fabs(ideal_step_size_[k]);
                 // hub::print_csv(std::cout, k, ideal_rank_, error, ideal_step_size_[k], cost_per_len_[k], '\n');
                 if (in_converged_window(k)) {
                     if (error <= 1.0) {
-- 
2.43.0


From 634e9d39bca7b5c456e5ab9b8548f678dd74a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 08/40] fix: keep the time of the Bulirsch-Stoer ODE interface
 in step with its data

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index ddc52da..4f60209 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -267,6 +267,7 @@ namespace hub::ode {
                         Scalar new_h = set_next_iteration(k);
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
+                        first_step_ = false;
                         return iter_h;
                     } else if (is_diverged_anyhow(error, k)) {
                         step_reject_ = true;
@@ -408,7 +409,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From fa49d697cb106bc416355cacc5dbe2ed080f450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 09/40] fix: return the finest result when a symplectic
 refinement does not converge

---
 src/ode-iterator/sequent-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..082daa5 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -150,7 +150,7 @@ namespace hub::ode {
             auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
             error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
             // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            if (error <= 1 || i == max_iter_) {
                 break;
             }
             std::swap(output_, dual_steps_output_);
-- 
2.43.0


From a1800d8b6f047c913a96d1a7808b793f1cf55c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 10/40] fix: give the tenth order symplectic integrator
 coefficients of tenth order

---
 .../symplectic/symplectic-integrator.hpp      | 126 +++++++++---------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..34c04b7 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -297,68 +297,68 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        system.drift(-2.40799478001265014e-1 * step_size);
+        system.kick(-4.81598956002530029e-1 * step_size);
+        system.drift(-2.38984281424035218e-1 * step_size);
+        system.kick(3.63039315445959269e-3 * step_size);
+        system.drift(2.52716784370845498e-1 * step_size);
+        system.kick(5.01803175587231403e-1 * step_size);
+        system.drift(3.92393600916146976e-1 * step_size);
+        system.kick(2.82984026245062549e-1 * step_size);
+        system.drift(5.45006852599392393e-1 * step_size);
+        system.kick(8.07029678953722238e-1 * step_size);
+        system.drift(3.90469549207565016e-1 * step_size);
+        system.kick(-2.60905805385922054e-2 * step_size);
+        system.drift(-4.49478241000886460e-1 * step_size);
+        system.kick(-8.72865901463180715e-1 * step_size);
+        system.drift(-6.98300791044143266e-1 * step_size);
+        system.kick(-5.23735680625105816e-1 * step_size);
+        system.drift(-3.92586188127889620e-2 * step_size);
+        system.kick(4.45218442999527893e-1 * step_size);
+        system.drift(3.15670669235253486e-1 * step_size);
+        system.kick(1.86122895470979079e-1 * step_size);
+        system.drift(2.08748087067681343e-1 * step_size);
+        system.kick(2.31373278664383606e-1 * step_size);
+        system.drift(-1.45268543619901341e-1 * step_size);
+        system.kick(-5.21910365904186289e-1 * step_size);
+        system.drift(1.13375385620403339e-1 * step_size);
+        system.kick(7.48661137144992968e-1 * step_size);
+        system.drift(4.07698824517798513e-1 * step_size);
+        system.kick(6.67365118906040575e-2 * step_size);
+        system.drift(-3.68433365933052123e-1 * step_size);
+        system.kick(-8.03603243756708303e-1 * step_size);
+        system.drift(5.44435663009858213e-2 * step_size);
+        system.kick(9.12490376358679946e-1 * step_size);
+        system.drift(5.44435663009858213e-2 * step_size);
+        system.kick(-8.03603243756708303e-1 * step_size);
+        system.drift(-3.68433365933052123e-1 * step_size);
+        system.kick(6.67365118906040575e-2 * step_size);
+        system.drift(4.07698824517798513e-1 * step_size);
+        system.kick(7.48661137144992968e-1 * step_size);
+        system.drift(1.13375385620403339e-1 * step_size);
+        system.kick(-5.21910365904186289e-1 * step_size);
+        system.drift(-1.45268543619901341e-1 * step_size);
+        system.kick(2.31373278664383606e-1 * step_size);
+        system.drift(2.08748087067681343e-1 * step_size);
+        system.kick(1.86122895470979079e-1 * step_size);
+        system.drift(3.15670669235253486e-1 * step_size);
+        system.kick(4.45218442999527893e-1 * step_size);
+        system.drift(-3.92586188127889620e-2 * step_size);
+        system.kick(-5.23735680625105816e-1 * step_size);
+        system.drift(-6.98300791044143266e-1 * step_size);
+        system.kick(-8.72865901463180715e-1 * step_size);
+        system.drift(-4.49478241000886460e-1 * step_size);
+        system.kick(-2.60905805385922054e-2 * step_size);
+        system.drift(3.90469549207565016e-1 * step_size);
+        system.kick(8.07029678953722238e-1 * step_size);
+        system.drift(5.45006852599392393e-1 * step_size);
+        system.kick(2.82984026245062549e-1 * step_size);
+        system.drift(3.92393600916146976e-1 * step_size);
+        system.kick(5.01803175587231403e-1 * step_size);
+        system.drift(2.52716784370845498e-1 * step_size);
+        system.kick(3.63039315445959269e-3 * step_size);
+        system.drift(-2.38984281424035218e-1 * step_size);
+        system.kick(-4.81598956002530029e-1 * step_size);
+        system.drift(-2.40799478001265014e-1 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From bf80268783f819b198ed383dc1167e868fc3a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 11/40] fix: let PIDController::set_limiter take effect

---
 src/ode-iterator/step-controller/PID-controller.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..002cebb 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -74,6 +74,8 @@ namespace hub::ode {
         inline Scalar limiter_max() const { return limiter_max_[0]; };
 
        private:
+        void update_limiter();
+
         std::array<Scalar, max_order> limiter_max_;
 
         std::array<Scalar, max_order> limiter_min_;
@@ -122,6 +124,7 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        update_limiter();
     }
 
     template <typename TypeSystem>
@@ -162,6 +165,11 @@ namespace hub::ode {
 
     template <typename TypeSystem>
     PIDController<TypeSystem>::PIDController() {
+        update_limiter();
+    }
+
+    template <typename TypeSystem>
+    void PIDController<TypeSystem>::update_limiter() {
         expon_[0] = 0.0;
         limiter_max_[0] = safe_guard4_;
         limiter_min_[0] = 1.0 / safe_guard4_;
-- 
2.43.0


From 95b3656870d97249df52926cf0b5160b4baa6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 12/40] fix: let the last thread of multi_threads_loop take the
 remaining indices

---
 src/multi-thread/multi-thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..d529d4f 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,7 +63,7 @@ namespace hub::multi_thread {
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            if (th_id + 1 == thread_num) end = total_len;
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
         }
 
-- 
2.43.0


From 089a5c6a3832c20563ff041f23316e7bee4b15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 13/40] fix: give every thread of a parallel loop its own copy
 of the job and its arguments

---
 src/multi-thread/multi-thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index d529d4f..bf5eb3e 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -64,7 +64,7 @@ namespace hub::multi_thread {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
             if (th_id + 1 == thread_num) end = total_len;
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
         }
 
         for (auto &thread : threads) {
@@ -77,7 +77,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -90,7 +90,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From bc0b00230c98ae5a2edf32a435a1a31a0f4c9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 14/40] fix: let Costream accept the records it is declared to
 take

---
 src/multi-thread/ciostream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..aaa0b38 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -144,7 +144,7 @@ namespace hub::multi_thread {
             return *this;
         }
 
-        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << tup; }
+        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << T(tup); }
 
        private:
         std::unique_ptr<Opip<T>> pip_ptr_;
-- 
2.43.0


From 659fe7f8842b0130cd15fc5820416af8c7fbee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 15/40] fix: end the asynchronous input at the first record
 that cannot be read

---
 src/multi-thread/ciostream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index aaa0b38..b18650e 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -66,16 +66,16 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  while (file_.good()) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100; ++i) {
                               T data;
-                              file_ >> data;
+                              if (!(file_ >> data)) break;
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From ee5b6355829f88bedcbbed9b2ba8bc5bcb28e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 16/40] fix: start the threads of the asynchronous streams
 after their flags are initialised

---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index b18650e..f4ff1c1 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -57,8 +57,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;  // last: started when everything it uses is initialised
     };
 
     template <typename T>
@@ -121,9 +121,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;  // last: started when everything it uses is initialised
     };
 
     template <typename T>
-- 
2.43.0


From 4f93f4b1dc3c38ab93102df195f91949a7cae2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 17/40] fix: let the pops of ConcurrentDeque wait on a lock
 they can release

---
 src/multi-thread/concurrent-queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..531d0bd 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -41,7 +41,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -53,7 +53,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From 38ffc4c14c66149b605d67c7bcf699c8dfabf505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 18/40] fix: stop the thread pool under its lock, so that no
 worker misses it

---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..de94f40 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 47bf009b576e842e862206d691a96df453164ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 19/40] fix: stop the concurrent deque under its lock, so that
 no waiting pop misses it

---
 src/multi-thread/concurrent-queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 531d0bd..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
-- 
2.43.0


From 7623b4d021b37e2aba9585c489f05e9bd434fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 20/40] fix: scale the compensation of compensated numbers with
 their value

---
 src/kahan-number.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..d3c950a 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -85,7 +85,11 @@ namespace hub {
         /**
          * Opposite operator.
          */
-        friend inline Kahan operator-(const Kahan &hs) { return Kahan(-hs.real); }
+        friend inline Kahan operator-(const Kahan &hs) {
+            Kahan opposite(-hs.real);
+            opposite.err = -hs.err;
+            return opposite;
+        }
 
         /**
          * Addition assignment operator.
@@ -117,6 +121,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Kahan &operator/=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -125,6 +130,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Kahan &operator*=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -197,7 +203,11 @@ namespace hub {
         /**
          * Opposite operator.
          */
-        friend inline Neumaier operator-(const Neumaier &hs) { return Neumaier(-hs.real); }
+        friend inline Neumaier operator-(const Neumaier &hs) {
+            Neumaier opposite(-hs.real);
+            opposite.err = -hs.err;
+            return opposite;
+        }
 
         /**
          * Addition assignment operator.
@@ -235,6 +245,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Neumaier &operator/=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -243,6 +254,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Neumaier &operator*=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -318,7 +330,12 @@ namespace hub {
         /**
          * Opposite operator.
          */
-        friend inline Klein operator-(const Klein &hs) { return Klein(-hs.real); }
+        friend inline Klein operator-(const Klein &hs) {
+            Klein opposite(-hs.real);
+            opposite.err = -hs.err;
+            opposite.err_of_err = -hs.err_of_err;
+            return opposite;
+        }
 
         /**
          * Addition assignment operator.
@@ -372,6 +389,8 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Klein &operator/=(Klein &lhs, const Klein &rhs) {
+            lhs.err /= rhs.real;
+            lhs.err_of_err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -380,6 +399,8 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Klein &operator*=(Klein &lhs, const Klein &rhs) {
+            lhs.err *= rhs.real;
+            lhs.err_of_err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
-- 
2.43.0


From 927a1baa0d256d7b2bd579846231b7905216f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 21/40] fix: let StickyCollision be called, on the positions
 particle systems have

---
 src/args-callback/collision.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/args-callback/collision.hpp b/src/args-callback/collision.hpp
index 34063da..5d601e6 100644
--- a/src/args-callback/collision.hpp
+++ b/src/args-callback/collision.hpp
@@ -35,6 +35,7 @@ namespace hub::callback {
      *
      */
     class StickyCollision {
+       public:
         /**
          * @brief Callable interface for collision detection.
          *
@@ -48,18 +49,16 @@ namespace hub::callback {
         bool operator()(ParticleSys const &ptc, typename ParticleSys::Scalar step_size) {
             static_assert(HAS_METHOD(ParticleSys, radius), "Particle system doesn't have method radius()");
 
-            auto const &px = ptc.pos().x;
-            auto const &py = ptc.pos().y;
-            auto const &pz = ptc.pos().z;
+            auto const &pos = ptc.pos();
 
             auto const &r = ptc.radius();
 
             size_t num = ptc.number();
             for (size_t i = 0; i < num; ++i) {
                 for (size_t j = i + 1; j < num; ++j) {
-                    auto dx = px[i] - px[j];
-                    auto dy = py[i] - py[j];
-                    auto dz = pz[i] - pz[j];
+                    auto dx = pos[i].x - pos[j].x;
+                    auto dy = pos[i].y - pos[j].y;
+                    auto dz = pos[i].z - pos[j].z;
 
                     if (sqrt(dx * dx + dy * dy + dz * dz) <= r[i] + r[j]) {
                         return true;
-- 
2.43.0


From d898f4b60ddb73142c07bc10ee3140b393adc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 22/40] fix: let the tidal energy of two clusters be computed
 from their own sizes

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..c26f785 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -755,7 +755,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From 6c4771e2e45091f823ceccfe5b9d467233dd86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 23/40] fix: tidal factors are between the two clusters, not
 the first and itself

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index c26f785..3198d37 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -800,7 +800,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From f7d1453c89e875330385b5a81ef55ff78a4b5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 24/40] fix: measure the energy error of each energy writer
 against its own first record

---
 src/args-callback/callbacks.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 3cfd1dd..5094d0b 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -27,6 +27,7 @@ License
 
 #include <cassert>
 #include <cmath>
+#include <any>
 #include <fstream>
 #include <iomanip>
 #include <memory>
@@ -296,6 +297,7 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        std::shared_ptr<std::any> E0_{std::make_shared<std::any>()};
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +474,11 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (!std::any_cast<Scalar>(E0_.get())) {
+            *E0_ = Scalar{calc::calc_total_energy(ptc)};
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, *std::any_cast<Scalar>(E0_.get())) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From 923343dbc3a01da7cf5277dec470be9ef5f260ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 25/40] fix: place a body at its true anomaly from periapsis,
 not half a turn away

orbit_to_coord turned every orbit by pi in its plane, so the coordinates
it returned for the elements coord_to_orbit found were the negatives of
the original ones.
---
 src/orbits/orbits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..6dae53f 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -560,8 +560,8 @@ namespace hub::orbit {
         pos = r * Vector(cos_nu, sin_nu, 0);
         vel = v * Vector(-sin_nu, args.e + cos_nu, 0);
 
-        orbit::euler_rotate(pos, args.Omega, args.i, args.omega + consts::pi);
-        orbit::euler_rotate(vel, args.Omega, args.i, args.omega + consts::pi);
+        orbit::euler_rotate(pos, args.Omega, args.i, args.omega);
+        orbit::euler_rotate(vel, args.Omega, args.i, args.omega);
     }
 
     template <typename Vector, typename Scalar>
@@ -696,8 +696,8 @@ namespace hub::orbit {
         Vector pos = r * Vector(cos_nu, sin_nu, 0);
         Vector vel = v * Vector(-sin_nu, args.e + cos_nu, 0);
 
-        orbit::euler_rotate(pos, args.Omega, args.i, args.omega + consts::pi);
-        orbit::euler_rotate(vel, args.Omega, args.i, args.omega + consts::pi);
+        orbit::euler_rotate(pos, args.Omega, args.i, args.omega);
+        orbit::euler_rotate(vel, args.Omega, args.i, args.omega);
 
         return std::make_tuple(pos, vel);
     }
-- 
2.43.0


From d3f0c08f968f4459254f8f2f237820fa7a919847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 26/40] fix: take the semi-latus rectum from the angular
 momentum for every orbit

The semi-major axis of a parabola is infinite; one of the two overloads used
it for parabolas only, the other for orbits that are a parabola up to rounding.
---
 src/orbits/orbits.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 6dae53f..3c872c0 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -580,12 +580,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
@@ -641,12 +636,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
-- 
2.43.0


From 5c0b712dfab870663eefbeeb3a142acc11dcf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 27/40] fix: orbital angles of circular and of equatorial
 orbits

An equatorial orbit counted the direction of its periapsis twice, a circular
one measured its anomaly a quarter turn away from the argument of periapsis
it reported, and both had retrograde orbits mirrored.
---
 src/orbits/orbits.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 3c872c0..05e695b 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -591,18 +591,17 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(E.y) * math::sign(L.z) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dr.z) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(dr.y) * math::sign(L.z) * myacos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
     }
@@ -647,18 +646,17 @@ namespace hub::orbit {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.Omega = 0;
+                args.omega = math::sign(E.y) * math::sign(L.z) * myacos(E.x / args.e);
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
-                Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = math::sign(dr.z) * myacos(dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = math::sign(dr.y) * math::sign(L.z) * myacos(dot(Vector(1.0, 0, 0), dr / r));
             }
         }
         return args;
-- 
2.43.0


From d18aca98190eb7c69405f4e55a7ace5b89a68040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 28/40] fix: look for the eccentric anomaly where it is

It was searched within [-pi, pi] for every orbit, which misses it for a mean
anomaly beyond half a turn and for the far part of open orbits.
---
 src/orbits/orbits.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 05e695b..555c136 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -324,14 +324,16 @@ namespace hub::orbit {
 
         if (0 <= e && e < 1)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (fabs(e - 1) < math::epsilon<Scalar>::value)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else {
+                                        M_anomaly - hub::consts::pi, M_anomaly + hub::consts::pi);
+        else if (e > 1) {
+            Scalar bound = asinh(fabs(M_anomaly) / (e - 1)) + 1;
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -bound,
+                                        bound);
+        } else if (fabs(e - 1) < math::epsilon<Scalar>::value) {
+            Scalar bound = fabs(M_anomaly) + 1;
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); }, -bound,
+                                        bound);
+        } else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
     }
-- 
2.43.0


From b275e6185a1fb3d1e19e7efbbc3d5c9552555f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 29/40] fix: a hyperbolic orbit that starts at its periapsis

Rounding made the cosine of the anomaly larger than one there, and the check
for the NaN that followed could never be true.
---
 src/orbits/orbits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 555c136..dbed538 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -522,8 +522,8 @@ namespace hub::orbit {
             spacehub_abort("r = p/(1+e*cos(theta)) = ", r,
                            " is smaller than pericenter distance a*(1-e) = ", a * (1 - e));
         }
-        this->nu = -acos((p - r) / (e * r));
-        if (std::isinf(this->nu) && std::isnan(this->nu)) {
+        this->nu = -myacos((p - r) / (e * r));
+        if (std::isinf(this->nu) || std::isnan(this->nu)) {
             spacehub_abort("true anomaly is inf/nan. a = ", a, " e = ", this->e);
         }
         this->b = b;
-- 
2.43.0


From eb6504175b2670245b5b034a6ac901ef466aaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 30/40] fix: time to periapsis at the apsides

Rounding made the cosine of the anomaly larger than one there.
---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 3198d37..b15b08f 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -489,7 +489,7 @@ namespace hub::orbit {
             auto h = cross(dr, dv);
             auto h2 = dot(h, h);
             auto p = h2 / u;
-            auto T_anomaly = acos((p / r - 1) / e);
+            auto T_anomaly = e > 0 ? myacos((p / r - 1) / e) : e;
             auto M_anomaly = E_anomaly_to_M_anomaly(T_anomaly_to_E_anomaly(T_anomaly, e), e);
 
             if (orbit_type == OrbitType::Parabola) {
-- 
2.43.0


From 0877bd9ef0058244b9afbb41c6c718d75ee8d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 31/40] fix: orbital elements in other number types than double

in_range and iseq were called with two different types and did not compile.
---
 src/orbits/orbits.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index dbed538..371d3e3 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -259,7 +259,7 @@ namespace hub::orbit {
     \*---------------------------------------------------------------------------*/
     template <typename Scalar>
     Scalar myacos(Scalar x) {
-        return acos(math::in_range(-1.0, x, 1.0));
+        return acos(math::in_range<Scalar>(-1.0, x, 1.0));
     }
 
     template <typename Scalar>
@@ -301,7 +301,7 @@ namespace hub::orbit {
             return 2 * atan2(sqrt(1 + e) * sin(E_anomaly * 0.5), sqrt(1 - e) * cos(0.5 * E_anomaly));
         else if (e > 1)
             return 2 * atan2(sqrt(1 + e) * sinh(E_anomaly * 0.5), sqrt(e - 1) * cosh(0.5 * E_anomaly));
-        else if (math::iseq(e, 1.0))
+        else if (math::iseq<Scalar>(e, 1.0))
             return 2 * atan(E_anomaly);
         else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
@@ -372,7 +372,7 @@ namespace hub::orbit {
                 spacehub_abort("True anomaly ", T_anomaly, " is out of range [", -limit, ", ", limit,
                                "] in hyperbolic orbit with e = ", e);
             }
-        } else if (math::iseq(e, 1.0)) {
+        } else if (math::iseq<Scalar>(e, 1.0)) {
             return tan(0.5 * T_anomaly);
         } else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf! e=", e, "true anomaly=", T_anomaly);
@@ -393,7 +393,7 @@ namespace hub::orbit {
             return E_anomaly - e * sin(E_anomaly);
         } else if (e > 1) {
             return e * sinh(E_anomaly) - E_anomaly;
-        } else if (math::iseq(e, 1.0)) {
+        } else if (math::iseq<Scalar>(e, 1.0)) {
             return E_anomaly + E_anomaly * E_anomaly * E_anomaly / 3.0;
         } else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
@@ -419,7 +419,7 @@ namespace hub::orbit {
             return OrbitType::Ellipse;
         } else if (eccentricity > 1) {
             return OrbitType::Hyperbola;
-        } else if (math::iseq(eccentricity, 1.0)) {
+        } else if (math::iseq<T>(eccentricity, 1.0)) {
             return OrbitType::Parabola;
         } else {
             return OrbitType::None;
-- 
2.43.0


From 083feff79128894c74393884abdd46b008a9227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 32/40] fix: second order post-Newtonian acceleration of the
 second body of a pair

It is the first body's with the two exchanged, n and all; one term kept the
wrong velocity.
---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..d6c3044 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From 13756b9d4d71c39b7a6c463cfc234c9ed0def7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 33/40] fix: drag on a star that moves along with the disk

---
 src/interaction/disk-capture-star.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interaction/disk-capture-star.hpp b/src/interaction/disk-capture-star.hpp
index 2285f38..8c29c91 100644
--- a/src/interaction/disk-capture-star.hpp
+++ b/src/interaction/disk-capture-star.hpp
@@ -78,9 +78,9 @@ namespace hub::force {
             acceleration[i] -= std::max(f1, f2) * v_rel / vabs;
             acceleration[0] -= std::max(f1, f2) * v_rel / vabs;*/
             // double f1 = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
-            double f = consts::pi * rd * rd * rho * dot(v_rel, v_rel);
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            double f_on_v = consts::pi * rd * rd * rho * vabs;
+            acceleration[i] -= f_on_v * v_rel / m[i];
+            acceleration[0] += f_on_v * v_rel / m[0];
         }
     }
 
-- 
2.43.0


From 16c5f6c1c795b2ca89b6b7a53f1a3911e9dffe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 34/40] fix: the ExtPlus methods use compensated sums as their
 name says

---
 src/spaceHub.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spaceHub.hpp b/src/spaceHub.hpp
index ff5acc6..e768275 100644
--- a/src/spaceHub.hpp
+++ b/src/spaceHub.hpp
@@ -268,8 +268,8 @@ namespace hub {
     using NAME##_Ext = Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_ext>; \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
-    using NAME##_ExtPlus =                                                                                             \
-        Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_extplus>;            \
+    using NAME##_ExtPlus = Simulator<system::SYSTEM<particle<details::extended_precise_type>, interactions>,           \
+                                     details::ITER##_extplus>;                                                         \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using Const_##NAME##_Ext =                                                                                         \
-- 
2.43.0


From c6ce82f2fa0f763a13d7d2768fbd24cd5a38de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 35/40] fix: parameters without boundaries may be negative or
 zero

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From 29679a51ed2248dde49da1d036fc6c4ae78b08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 36/40] fix: reading a Klein number left the second
 compensation of the number before

---
 src/kahan-number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index d3c950a..26c9073 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -419,6 +419,7 @@ namespace hub {
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
             v.err = 0;
+            v.err_of_err = 0;
             return input;
         }
     };
-- 
2.43.0


From 93f5d77ce4e60b47afbf045930a7088dde145a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:41 +0000
Subject: [PATCH 37/40] fix: automatic names are different even if other
 prefixes were named in between

---
 src/tools/auto-name.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..43eb3df 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -6,14 +6,14 @@
 
 #include <ctime>
 #include <iomanip>
+#include <map>
 #include <sstream>
 #include <string>
 
 namespace hub::tools {
 
     std::string auto_name(std::string const &prefix = "space_") {
-        static int duplicate = 1;
-        static std::string last_name;
+        static std::map<std::string, int> used;
 
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
@@ -22,11 +22,10 @@ namespace hub::tools {
 
         auto name = prefix + oss.str();
 
-        if (name == last_name) {
-            return name + '(' + std::to_string(duplicate++) + ").dat";
+        int duplicate = used[name]++;
+        if (duplicate > 0) {
+            return name + '(' + std::to_string(duplicate) + ").dat";
         } else {
-            duplicate = 1;
-            last_name = name;
             return name + ".dat";
         }
     }
-- 
2.43.0


From a0c5c21efab484a6af2f0a73e6194ce4ea440702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:38 +0000
Subject: [PATCH 38/40] fix: the period of the inner orbit in the Kozai-Lidov
 timescale falls with its mass

---
 src/secular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/secular.hpp b/src/secular.hpp
index bd69572..f1c8000 100644
--- a/src/secular.hpp
+++ b/src/secular.hpp
@@ -36,7 +36,7 @@ namespace hub::secular {
     template <typename T = double>
     T ELK_quad_timescale(T m1, T m2, T m3, T a1, T a2, T e2) {
         T m_in = m1 + m2;
-        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / consts::G * m_in);
+        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / (consts::G * m_in));
         T a_ratio_eff = a2 * sqrt(1 - e2 * e2) / a1;
         return P * m_in / m3 * a_ratio_eff * a_ratio_eff * a_ratio_eff;
     }
-- 
2.43.0


From fd3740a9123b16e4bc8baa3fbc02cb7f0bbc2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:33 +0000
Subject: [PATCH 39/40] fix: bisection for a root at zero never ended

---
 src/math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.hpp b/src/math.hpp
index 0efb0d0..fc05084 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -245,6 +245,7 @@ namespace hub::math {
 
         for (; fabs((high - low)) > fabs(high) * math::epsilon<Scalar>::value;) {
             Scalar mid = 0.5 * (high + low);
+            if (mid == low || mid == high) break;  // a root at zero
             if (f(mid) * f(high) > 0)
                 high = mid;
             else
-- 
2.43.0


From 41115f3c30c0c9bd122cc59bc0bed4352905eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:31 +0000
Subject: [PATCH 40/40] fix: drag by alpha and magnetic disks on a star that
 moves along is zero, not 0/0

---
 src/interaction/alpha-disk.hpp   | 5 +++--
 src/interaction/magneto-disk.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interaction/alpha-disk.hpp b/src/interaction/alpha-disk.hpp
index f2ee780..e22d398 100644
--- a/src/interaction/alpha-disk.hpp
+++ b/src/interaction/alpha-disk.hpp
@@ -138,8 +138,9 @@ namespace hub::force {
                 double aeo = 4 * consts::pi * rd * rd * rho * v2;
                 f = df + aeo;
             }
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            double f_on_v = vabs > 0 ? f / vabs : 0;
+            acceleration[i] -= f_on_v * v_rel / m[i];
+            acceleration[0] += f_on_v * v_rel / m[0];
         }
     }
 
diff --git a/src/interaction/magneto-disk.hpp b/src/interaction/magneto-disk.hpp
index 1e3b620..659e22f 100644
--- a/src/interaction/magneto-disk.hpp
+++ b/src/interaction/magneto-disk.hpp
@@ -611,8 +611,9 @@ namespace hub::force {
             double aeo = 4 * consts::pi * rd * rd * rho * v2;
             double f = df + aeo;
 
-            acceleration[i] -= f * v_rel / vabs / m[i];
-            acceleration[0] += f * v_rel / vabs / m[0];
+            double f_on_v = vabs > 0 ? f / vabs : 0;
+            acceleration[i] -= f_on_v * v_rel / m[i];
+            acceleration[0] += f_on_v * v_rel / m[0];
         }
     }
 
-- 
2.43.0

