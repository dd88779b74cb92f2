From 95c7ad34a41b9e6cbb3749829ac6f83d464965de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 01/24] fix: report PolishFailed from QPSolver

The code was stored in sol_.code, which is unconditionally overwritten a few
lines below, so a failed polish was reported as Optimal.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..0175aaf 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -534,7 +534,7 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        ret_code = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From 6f967f4a7ca88b78b36749114c863f087e23838e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 02/24] fix: check stopping criteria when stop_check_iter is 0
 or 1

iter % 1 == 1 never holds, so with stop_check_iter = 1 the solver never
checked for convergence, infeasibility or timeout; stop_check_iter = 0 was a
division by zero. Both now mean a check in every iteration.
---
 include/smooth/feedback/qp_solver.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 0175aaf..bc9a016 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -355,6 +355,10 @@ public:
     const Scalar alpha_comp = Scalar(1) - alpha;
     const Scalar sigma      = static_cast<Scalar>(prm_.sigma);
 
+    // check stopping criteria (for the first time at iteration 1) every check_iter iterations
+    const uint32_t check_iter = std::max<uint32_t>(1u, prm_.stop_check_iter);
+    const uint32_t check_rem  = 1u % check_iter;
+
     // return code: when set algorithm is finished
     std::optional<QPSolutionStatus> ret_code = std::nullopt;
 
@@ -462,7 +466,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % check_iter == check_rem) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -476,7 +480,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % check_iter == check_rem) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From 500cc8c5e670cbefb59e52735ea1ada1d3bd74a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 03/24] fix: redo symbolic factorization after
 QPSolver::analyze

analyze() on a solver that has already solved a sparse problem left the old
symbolic factorization in place, which does not match the new structure.
---
 include/smooth/feedback/qp_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index bc9a016..0cb4efa 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -327,6 +327,7 @@ public:
     Ax_.resize(m);
 
     // preallocate nonzeros in H
+    ldlt_.first = true;
     H_.setZero();
     H_.resize(k, k);
     if constexpr (sparse) {
-- 
2.43.0


From 45b6c1e3674fc11a66a713ac842c76faf243ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 04/24] fix: ignore unbounded rows in dual infeasibility
 certificate

A row with l = -inf and u = inf does not restrict the recession direction,
but was treated as if it had a finite lower bound.
---
 include/smooth/feedback/qp_solver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 0cb4efa..0fe5f67 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -634,7 +634,9 @@ protected:
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
-      if (pbm.u(i) == inf) {
+      if (pbm.u(i) == inf && pbm.l(i) == -inf) {
+        continue;  // unbounded row does not restrict the direction
+      } else if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
       } else if (pbm.l(i) == -inf) {
         dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From 50f25f1b69d24904079ce260152d4125c98975e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 05/24] fix: allow warmstarting QPSolver from its own solution

With warmstart = solver.sol() the primal was scaled in place before z was
computed from it, so the warmstart was inconsistent.
---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 0fe5f67..37fbcce 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -440,9 +440,10 @@ public:
     // initialize solver variables
     if (warmstart.has_value()) {
       // warmstart variables must be scaled
+      // NOTE warmstart may refer to sol_: z_ must be set before sol_ is modified
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From aa2277177a517dc5079c04a937e40ac58ab912f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 06/24] fix: only use upper triangular part of P in QPSolver

The documentation of QuadraticProgram states that only the upper triangular
part of P is used, and that is all that enters the factorized system. The
scaling, stopping criteria and reported objective read the full matrix, so a
problem given by its upper triangle never met the dual stopping criterion and
got a wrong objective. Such problems are generated by ocp_to_qp.
---
 include/smooth/feedback/qp_solver.hpp | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 37fbcce..89b21c4 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -494,13 +494,15 @@ public:
         ret_code = check_stopping(pbm);
 
         if (prm_.verbose) {
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
+
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -526,13 +528,15 @@ public:
           y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
           z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
 
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
+
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -550,7 +554,8 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    Px_.noalias()  = pbm.P.template selfadjointView<Eigen::Upper>() * sol_.primal;
+    sol_.objective = sol_.primal.dot(Scalar(0.5) * Px_ + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -592,7 +597,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -630,7 +635,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
@@ -688,7 +693,9 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
+        if (it.col() < it.row()) { continue; }  // only upper triangular part is used
         sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), std::fabs(it.value()));
       }
     }
 
@@ -708,11 +715,11 @@ protected:
       sy_inc_.setZero();
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
+          if (it.col() < it.row()) { continue; }  // only upper triangular part is used
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From 00b4165604524b2d9d6bd351b96bd41bd09af29f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 07/24] fix: make QPSolver compile for scalar types other than
 double

---
 include/smooth/feedback/qp_solver.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 89b21c4..2869f85 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -500,7 +500,7 @@ public:
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (Scalar(0.5) * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
             << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
@@ -534,7 +534,7 @@ public:
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (Scalar(0.5) * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
             << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
@@ -705,7 +705,7 @@ protected:
     }
 
     // scale cost function
-    c_ = Scalar(1) / std::max({1e-6, sx_inc_.mean(), pbm.q.template lpNorm<Eigen::Infinity>()});
+    c_ = Scalar(1) / std::max({Scalar(1e-6), sx_inc_.mean(), pbm.q.template lpNorm<Eigen::Infinity>()});
 
     int iter = 0;
 
@@ -738,8 +738,8 @@ protected:
         if (sy_inc_(i) == 0) { sy_inc_(i) = 1; }
       }
 
-      sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
-      sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
+      sx_.applyOnTheLeft(sx_inc_.cwiseMax(Scalar(1e-8)).cwiseInverse().cwiseSqrt().asDiagonal());
+      sy_.applyOnTheLeft(sy_inc_.cwiseMax(Scalar(1e-8)).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
              && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
   }
-- 
2.43.0


From 55dd42de3f9790e5f99dcd4bb9600da241647a7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 08/24] fix: allow problems without constraints in QPSolver

maxCoeff() is undefined (assertion failure) for empty vectors.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 2869f85..ce3a084 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -741,7 +741,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(Scalar(1e-8)).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(Scalar(1e-8)).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                  (sx_inc_ - Rn::Ones(sx_inc_.size())).template lpNorm<Eigen::Infinity>(),
+                  (sy_inc_ - Rm::Ones(sy_inc_.size())).template lpNorm<Eigen::Infinity>())
+                  > Scalar(0.1));
   }
 
 private:
-- 
2.43.0


From 0d9c86d999184dd3aa697e1f2d0012ca71962c22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 09/24] fix: require a nonzero direction for dual infeasibility
 in QPSolver

A zero step satisfies all inequalities of the certificate when no row has two
finite bounds, so a solver that had converged as far as possible (tight
tolerances) reported DualInfeasible for feasible and bounded problems.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index ce3a084..c6ff232 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -638,7 +638,7 @@ protected:
     Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (dx_norm > Scalar(0)) && (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
       if (pbm.u(i) == inf && pbm.l(i) == -inf) {
         continue;  // unbounded row does not restrict the direction
-- 
2.43.0


From 2c2cfc917cec0e5f349d8d1d6e3d9fa9da266e6b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 10/24] fix: set_zero() on an inner block clears that block,
 not the start of its matrix

---
 include/smooth/feedback/utils/sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..608f8d9 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -139,7 +139,8 @@ template<typename SparseMat>
   requires(std::is_base_of_v<Eigen::SparseCompressedBase<std::decay_t<SparseMat>>, std::decay_t<SparseMat>>)
 inline void set_zero(SparseMat && mat)
 {
-  if (mat.isCompressed()) {
+  // coeffs() starts at the first value of the underlying matrix, also for a block that starts later
+  if (mat.isCompressed() && mat.outerIndexPtr() && mat.outerIndexPtr()[0] == 0) {
     mat.coeffs().setZero();
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
-- 
2.43.0


From c4387c771ba21a508b262895417aa54b38a07305 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 11/24] fix: IpoptNLP compiles for problems without Hessian

---
 include/smooth/feedback/compat/ipopt.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..ecb0d84 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -215,9 +215,11 @@ public:
       Eigen::Map<const Eigen::VectorXd> xvar(x, n);
       Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
+      if constexpr (HessianNLP<Problem>) {
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
+      }
 
       for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
         for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-- 
2.43.0


From 44b77e60064e636dbcf0ee9a0430e6ccfc1664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 12/24] fix: solve_nlp_ipopt() does not report the warm start's
 (or an uninitialized) status when Ipopt cannot solve

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index ecb0d84..f08ccba 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -328,6 +328,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // reported unless Ipopt finalizes a solution
+  ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0


From 4786b73686ecfc08e413085b2e9e0138d70d8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 13/24] fix: solve_nlp_ipopt() without options does not ask for
 a Hessian that is not provided

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index f08ccba..12a915b 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -331,6 +331,9 @@ inline NLPSolution solve_nlp_ipopt(
   // reported unless Ipopt finalizes a solution
   ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
 
+  // Ipopt defaults to exact Hessians
+  if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0


From 8ef51faa508dda32d7cbe2098104539abfeb3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 14/24] fix: asif_to_qp does not step past the next constraint
 instant

The step length was limited once per constraint instead of once per step, so that the
trajectory went past the instant of the next constraint whenever T / K is not a multiple
of dt (T = 1, K = 4, dt = 0.1: instants 0, 0.3, 0.5, 0.8 instead of 0, 0.25, 0.5, 0.75).
---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From 02e6248c1f9e98b6ddb4b092f7c3c500feb548d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 15/24] fix: asif_to_qp uses the requested differentiation
 method

---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 74c9cbf..268e087 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -254,7 +254,7 @@ asif_to_qp(const ASIFProblem<X, U> & pbm, const ASIFtoQPParams & prm, auto && f,
   const int nu_ineq = pbm.ulim.A.rows();
   QuadraticProgram<-1, -1, double> qp;
   asif_to_qp_allocate<X, U>(qp, prm.K, nu_ineq, nh);
-  asif_to_qp_update(
+  asif_to_qp_update<X, U, DT>(
     qp, pbm, prm, std::forward<decltype(f)>(f), std::forward<decltype(h)>(h), std::forward<decltype(bu)>(bu));
   return qp;
 }
-- 
2.43.0


From dd7eff198ccfc697eca49378328a2eb26e6c4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 16/24] fix: ocp_to_qp halved the Hessian of the end cost

---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From 65b52312fa7df3a3907a8309cbe20022185d6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 17/24] fix: qpsol_to_ocpsol returned a solution type with Ncr
 and Nce swapped

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..d2c4cd0 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -490,7 +490,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From d6de5de79633c7e893ed09ed20692ee09c00c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 18/24] fix: refine_ph gives the first part of a split interval
 the degree Kmin as well

---
 include/smooth/feedback/collocation/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..0316020 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -153,6 +153,8 @@ public:
       const double tauf = i + 1 < intervals_.size() ? intervals_[i + 1].tau0 : 1.;
       const double taum = (tauf - tau0) / static_cast<double>(n);
 
+      intervals_[i].K = Kmin;
+
       while (n-- > 1) {
         intervals_.insert(
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
-- 
2.43.0


From bc8b634bd3ccb30f9ea999c6cbbec08ba638ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 19/24] fix: Mesh::eval returns derivatives with respect to t

---
 include/smooth/feedback/collocation/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 0316020..e9ffc7c 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -7,6 +7,7 @@
  * @brief Refinable Legendre-Gauss-Radau mesh of time interval [0, 1]
  */
 
+#include <cmath>
 #include <ranges>
 #include <span>
 #include <vector>
@@ -469,7 +470,8 @@ public:
       }
     });
 
-    return ret;
+    // derivative is w.r.t. t, not w.r.t. u
+    return ret * std::pow(2. / (tauf - tau0), static_cast<double>(p));
   }
 
 private:
-- 
2.43.0


From c53058c0955f78a0d4c7d86640c0c86eabd379b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 20/24] fix: mixed second derivatives by integrals and end
 states in the OCP NLP

The blocks were written below the diagonal, where block_add with upper = true
drops them: the Hessians of objective and end constraints lacked them.
---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..717fdb0 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(1 + 2 * Nx,          1, Nq, Nx), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(1 + 2 * Nx,     1 + Nx, Nq, Nx), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(1 + 2 * Nx, b0 +          1, Nq, Nx), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(1 + 2 * Nx, b0 +     1 + Nx, Nq, Nx), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From c9e347ccdf1be4e402bf7f4e2391010f2e821d4e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 21/24] fix: test R and not Q for zeros when the MPC input
 weights are written

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..76c4592 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From 7f254f9349b4f6786c2586d08ae9846058aada6a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 22/24] fix: MPC end weights apply to the final and not to the
 initial state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 76c4592..baf8ed9 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From 5c3c8d827e1a652e75e8b5583285d78abb92fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 23/24] fix: MPC running constraints follow the desired
 trajectories they are linearized around

---
 include/smooth/feedback/mpc.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index baf8ed9..3f49f18 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -479,10 +479,7 @@ public:
 
     // transcribe to QP
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From a3efb6c02c860a9254d43eef8ef77837288a1f90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 24/24] fix: MPC weights set with set_weights reach the
 quadratic program

---
 include/smooth/feedback/mpc.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 3f49f18..fe71a27 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -478,12 +478,21 @@ public:
     ocp_.ce.x0_fix    = x;
 
     // transcribe to QP
+    if (weights_changed_) {
+      ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    }
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
 
+    if (weights_changed_) {
+      // weights determine the sparsity pattern of P
+      qp_solver_.analyze(qp_);
+      weights_changed_ = false;
+    }
+
     // solve QP
     const auto & sol = qp_solver_.solve(qp_, warmstart_);
 
@@ -592,6 +601,8 @@ public:
     ocp_.g.R       = weights.R;
     ocp_.g.Q       = weights.Q;
     ocp_.theta.Qtf = weights.Qtf;
+
+    weights_changed_ = true;
   }
 
   /**
@@ -625,6 +636,9 @@ private:
   detail::OcpToQpWorkmemory work_;
   QuadraticProgramSparse<double> qp_;
 
+  // true if qp_ does not have the current weights yet
+  bool weights_changed_{false};
+
   // internal QP solver
   QPSolver<QuadraticProgramSparse<double>> qp_solver_;
 
-- 
2.43.0

