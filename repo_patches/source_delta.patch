From 5766b88c60bcfa208d1b7165bc0d474a1ba4c5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 01/32] fix: keep the constant of linear constraints whose
 variables cancel out

---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..e3d633a 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -130,8 +130,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -149,8 +149,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+	  this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From 979b0c728d496bcc112860a0be8dd596335742a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 02/32] fix: setObjective drops the auxiliary variables of the
 previous objective

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index e3d633a..513f2d6 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From fb80e80769fb290f53726de64034a38add14f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 03/32] fix: const views s() and z() of OptimizationVector
 return the same parts as the mutable ones

---
 solver/include/solver/interface/Cone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..18768e4 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -350,8 +350,8 @@ namespace solver {
 
 	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
 	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
 	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-- 
2.43.0


From aea15cc3d4a9f67336fa54dd5c837b7dffcf0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 04/32] fix: adding a linear expression to itself never
 terminated

---
 solver/src/solver/interface/Exprs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/Exprs.cpp b/solver/src/solver/interface/Exprs.cpp
index 8d167f3..6cd3fe1 100644
--- a/solver/src/solver/interface/Exprs.cpp
+++ b/solver/src/solver/interface/Exprs.cpp
@@ -66,7 +66,8 @@ namespace solver {
 
   LinExpr& LinExpr::operator+=(const LinExpr& rhs) {
     this->getConstant() += rhs.getConstant();
-    for (size_t i=0; i<rhs.size(); i++) {
+    const size_t num_terms = rhs.size(); // rhs may be this expression itself
+    for (size_t i=0; i<num_terms; i++) {
     	  this->vars_.push_back(rhs.vars_[i]);
       this->coeffs_.push_back(rhs.coeffs_[i]);
     }
-- 
2.43.0


From d340d1529bf91b57075bd294ded4ca79f12997b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 05/32] fix: branch and bound prunes nodes whose relaxation is
 infeasible

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..d836f06 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -113,7 +113,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..b96af60 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -110,7 +110,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
-- 
2.43.0


From 767e096c51e137edcca00130d2b81031fb178193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 06/32] fix: branch and bound compares true costs, not
 equilibrated cost times unscaled point

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 6 +++---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index d836f06..e9200f6 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -115,7 +115,7 @@ namespace solver {
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -125,7 +125,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -134,7 +134,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index b96af60..53ffeb1 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -112,7 +112,7 @@ namespace solver {
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -122,7 +122,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -131,7 +131,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
-- 
2.43.0


From 58eaca976f40d0499516d7abb8caf6b1c74acdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 07/32] fix: branch and bound keeps the incumbent found at the
 root node

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index e9200f6..84a8cb7 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -198,7 +198,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 53ffeb1..1d2e1b7 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -195,7 +195,6 @@ namespace solver {
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-    prob_upper_bound_ = nodes_[node_id_].upper_bound_;
 
     while ( optimilityCheck(node_id_) )
     {
-- 
2.43.0


From 9a399c969224ac36cb51f0b34fb6068fee8b93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 08/32] fix: nonconvex branch and bound sized its solution with
 the cone of no problem

---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 1d2e1b7..d8ace61 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -98,6 +98,7 @@ namespace solver {
   //! Loads back the solution of the node with best statistics
   void NcvxBnBSolver::loadSolution()
   {
+    if (prob_upper_bound_ >= SolverSetting::inf) { return; }
     this->getProblem().getSolver().getInfo() = this->getInfo();
     this->getProblem().getSolver().optimalVector() = opt_;
   }
@@ -221,7 +222,6 @@ namespace solver {
     conic_problem_ = &conic_problem;
 
     nbin_vars_ = this->getProblem().problemBinaryVariables().size();
-    opt_.initialize(this->getProblem().getCone());
     prob_upper_bound_ = SolverSetting::inf;
     nodes_.resize(this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
     binvars_mat_id_.resize(nbin_vars_, this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
-- 
2.43.0


From 470a3aba14839b3053f264eddb56467ca01c8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 09/32] fix: degenerate constraints made the QP solver loop
 forever or index its active set with an equality

---
 .../include/solver/rt_optimizer/RtQPSolver.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtQPSolver.hpp b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
index 5f60035..5ffa910 100644
--- a/solver/include/solver/rt_optimizer/RtQPSolver.hpp
+++ b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
@@ -174,10 +174,13 @@ namespace rt_solver {
             R.col(i) = R.col(i+1);
           }
 
-          A(iq - 1) = A(iq);
-          u(iq - 1) = u(iq);
-          A(iq) = 0;
-          u(iq) = 0.0;
+          // the entry after the last active constraint holds the candidate, if there is one
+          if (iq < A.size()) {
+            A(iq - 1) = A(iq);
+            u(iq - 1) = u(iq);
+            A(iq) = 0;
+            u(iq) = 0.0;
+          }
           for (j=0; j<iq; j++)
             R(j,iq - 1) = 0.0;
 
@@ -381,6 +384,7 @@ namespace rt_solver {
            x_old = x;
 
           l2: /* Step 2: check for feasibility and determine a new S-pair */
+          ss = 0.0;
           for (i = 0; i < mi; i++)
           {
             if (s(i) < ss && iai(i) != -1 && iaexcl(i))
@@ -391,6 +395,10 @@ namespace rt_solver {
           }
           if (ss >= 0.0)
           {
+            /* a violated constraint that could not be added to the active set */
+            for (i = 0; i < mi; i++)
+              if (s(i) < 0.0 && iai(i) != -1 && !iaexcl(i)) { return inf; }
+
             // q = iq;
             return f_value;
           }
@@ -483,7 +491,7 @@ namespace rt_solver {
 
               for (i = 0; i < m; i++)
                 iai(i) = i;
-              for (i = 0; i < iq; i++)
+              for (i = me; i < iq; i++)
               {
                 A(i) = A_old(i);
                 iai(A(i)) = -1;
-- 
2.43.0


From a1dfabf4ca9d0627e38d9b3d8c6c70472a1b26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 10/32] fix: removeZeroRows of a matrix did not compile and
 ignored the first row; selector sized for the columns

---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index 44f5f07..ed42ed4 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -93,7 +93,7 @@ namespace rt_solver {
         squared_norms = mat.rowwise().squaredNorm();
         const double normed_threash = squared_norms.size() * threshold * threshold;
         int num_valids = 0;
-        for (int row_id=1; row_id<squared_norms.size(); row_id++)
+        for (int row_id=0; row_id<squared_norms.size(); row_id++)
           if(squared_norms[row_id] > normed_threash)
             ++num_valids;
 
@@ -101,8 +101,8 @@ namespace rt_solver {
         else if (num_valids == 0) { RtMatrixUtils::resize(mat, 0, mat.cols()); }
         else
         {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          createSelectorMat(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
           mat = selector_mat * mat;
         }
       }
@@ -492,8 +492,8 @@ namespace rt_solver {
           RtVectorUtils::resize(vec, 0);
           RtMatrixUtils::resize(mat, 0, mat.cols());
         } else {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          RtMatrixUtils::createSelectorMat<MaxRows, MaxCols>(selector_mat, squared_norms, num_valids, normed_thresh);
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          RtMatrixUtils::createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_thresh);
           mat = selector_mat * mat;
           vec = selector_mat * vec;
         }
-- 
2.43.0


From 7df32a2a9743db69db0fc40ad65527b15cd57fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 11/32] fix: a lower priority could violate a higher priority's
 inequalities further (slack applied after the clamp, and again at later
 ranks)

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..b8d4c2f 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,14 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) { //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+        RtVectorUtils::resize(wopt_, 0);
+      }
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
-- 
2.43.0


From 0a0aef48a8cd87f92434126f0e143faafc86d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 12/32] fix: priorities declared without slacks were never
 solved that way, and their least-norm step ignored the higher priorities

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 5 ++++-
 solver/include/solver/rt_optimizer/RtModel.h     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index b8d4c2f..5345975 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -239,7 +239,10 @@ namespace rt_solver {
     /*
      * Update the solution
      */
-    if (!apply_ineq_slacks_) { zopt_ = -eq_mat.transpose()*(eq_mat*eq_mat.transpose()).inverse()*eq_vec; }
+    if (!apply_ineq_slacks_) {
+      if (eq_mat.rows() != 0) { zopt_ = -B_Nprev_.transpose()*(B_Nprev_*B_Nprev_.transpose()).inverse()*(eq_vec + eq_mat*xopt_); }
+      else                    { RtVectorUtils::setZero(zopt_, dim_z); }
+    }
     else {
       if (qp_solver_interface_.isOptimized()) { zopt_ = qp_solver_interface_.solution().topRows(dim_z); }
       else                                    { RtVectorUtils::setZero(zopt_, dim_z); }
diff --git a/solver/include/solver/rt_optimizer/RtModel.h b/solver/include/solver/rt_optimizer/RtModel.h
index 7eacfb2..cb09fc2 100644
--- a/solver/include/solver/rt_optimizer/RtModel.h
+++ b/solver/include/solver/rt_optimizer/RtModel.h
@@ -305,10 +305,10 @@ namespace rt_solver {
   template<int Max_Ineq_Rows, int Max_Eq_Rows, int Num_OptVars>
   void RtModel<Max_Ineq_Rows, Max_Eq_Rows, Num_OptVars>::checkSlacknessOfHierarchy(const int rank)
   {
+    hqp_solver_.applyIneqSlacks() = true;
     for (size_t id=0; id<hierarchies_without_slacks_.size(); id ++)
       if (hierarchies_without_slacks_[id] == rank)
         hqp_solver_.applyIneqSlacks() = false;
-    hqp_solver_.applyIneqSlacks() = true;
   }
 
   template<int Max_Ineq_Rows, int Max_Eq_Rows, int Num_OptVars>
-- 
2.43.0


From b16ebb4c602a8054c20191e056db623b8b51ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 13/32] fix: StateSequence::resize and BackwardPass::initialize
 start from empty storage when repeated

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp   | 1 +
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..a5db16e 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -32,6 +32,7 @@ namespace solverlqr
     QxuR_.resize(xdim_, udim_);  QxuR_.setZero();
     QuuR_.resize(udim_, udim_);  QuuR_.setZero();
 
+    Vx_.clear();  Vxh_.clear();  Vxx_.clear();  Vxxh_.clear();  Vxhxh_.clear();
     for (int time_id=0; time_id<=tdim_; time_id++) {
       Vx_.push_back(Eigen::VectorXd::Zero(xdim_));
       Vxh_.push_back(Eigen::VectorXd::Zero(xdim_));
diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From 1fe55722afd8c32e410350b53dfe286508dc2017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 14/32] fix: FiniteDifferences::initialize follows the problem
 it is given on every call

---
 solver_lqr/src/solver_lqr/FiniteDifferences.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
index c670e41..89d6580 100644
--- a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
+++ b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
@@ -15,7 +15,7 @@ namespace solverlqr
 		  bool compute_objective_first_derivatives, bool compute_dynamics_first_derivatives,
 		  bool compute_objective_second_derivatives, bool compute_dynamics_second_derivatives)
   {
-	if (!is_initialized_) {
+	{
 	  is_initialized_ = true;
 	  ocp_ = ocp_description;
 	  compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
@@ -28,6 +28,8 @@ namespace solverlqr
 	  udim_ = ocp_->udim();
 
       // resizing storages
+      cx_seq_.clear();  cu_seq_.clear();  cxx_seq_.clear();  cxu_seq_.clear();  cuu_seq_.clear();
+      fx_seq_.clear();  fu_seq_.clear();  fxx_seq_.clear();  fxu_seq_.clear();  fuu_seq_.clear();
 	  std::vector<Eigen::MatrixXd> fxx, fxu, fuu;
 	  for (int id=0; id<xdim_; id++) { fxx.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
 	  for (int id=0; id<udim_; id++) { fxu.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
-- 
2.43.0


From 5e99bf524e537188f1d8f17ddcb378f273183bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 15/32] fix: control-limited step minimises the quadratic model
 1\/2 v'Hv + g'v

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index a5db16e..dbf61ac 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -121,7 +121,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From c4898820558d234691004c8d20e4a4b9e6ac83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 16/32] fix: Interpolator velocity and acceleration are finite
 at time zero

---
 momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..e008f19 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -59,8 +59,8 @@ namespace momentumopt
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>=1) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i); }
+      if (i>=2) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0); }
     }
   }
 
-- 
2.43.0


From 2223319ecb08caf1bc7408b062ea5a0b090eb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 17/32] fix: required and integrated angular velocities are
 angular velocities, not rotation vector rates

---
 .../src/momentumopt/utilities/OrientationUtils.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..0dfc3dc 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -118,9 +118,10 @@ namespace momentumopt {
 
     Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
     Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
 
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    // delta_rotation is expressed in world coordinates: the constant velocity covering it is parallel to it
+    if (!in_body_coordinates) { return delta_rotation/time_step; }
+    else                      { return q_current.inverse() * Eigen::Vector3d(delta_rotation/time_step); }
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -131,11 +132,9 @@ namespace momentumopt {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
     if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
-
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    Eigen::Vector3d world_velocity = angular_velocity;
+    if (in_body_coordinates) { world_velocity = q_current * angular_velocity; }
+    return exponentialMap(world_velocity*time_step) * current_orientation;
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From 2d707958a579d86023a555453624b12b1d432eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 18/32] fix: storeSolution writes past the end of the dynamics
 sequence

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..055e18a 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -626,15 +626,15 @@ namespace momentumopt {
   {
 	com_.getGuessValue(mat_guess_);
   dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
-    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps)-1; time_id++)
       dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
-- 
2.43.0


From a5fb4a919b6d36267145a71669f0c2e8774972df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 19/32] fix: friction cones look up the contact type of
 end-effectors in contact only

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 055e18a..e16699b 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -296,8 +296,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From 2c1a34e67ac8fd531cf801582c4edf8e59a64783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 20/32] fix: minimum height reference when the first
 end-effector starts out of contact

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e16699b..6cfbde8 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -258,8 +258,9 @@ namespace momentumopt {
       model_.setObjective(quad_objective_, 0.0);
 
       // center of mass above endeffector positions
+      double reference_height = dynamicsSequence().dynamicsState(0).endeffectorActivation(0) ? this->contactLocation(0, 0, 2) : ini_state_.endeffectorPosition(0).z();
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(0, 0, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
+        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(reference_height), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
         //for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
         //  if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
         //      model_.addLinConstr(vars_[com_.id(2,time_id)] - this->contactLocation(time_id, eff_id, 2), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
-- 
2.43.0


From 97258a9e8e3887dcc86d02b17cb45e6788ecac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 21/32] fix: fillDynamicsSequence clears the activations of an
 earlier contact plan

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..ff40ad7 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -22,6 +22,11 @@ namespace momentumopt {
     dynamics_sequence.activeEndeffectorSteps().setZero();
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
       int counter = 0;
+      for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+      }
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
       for (int cnt_id=ini_id; cnt_id<end_id; cnt_id++) {
         if (contact_sequence_.endeffectorContacts(eff_id)[cnt_id].selectedAsActive()) {
-- 
2.43.0


From 10ceeb6261b9ab72af2ffae5de361e1ca50c890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 22/32] fix: mutable access to the second stage joint and
 orientation gains

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..7baef68 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -585,6 +585,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From 8037870d8a4c4c65ce5451564130508c04f3f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:38 +0000
Subject: [PATCH 23/32] fix: angular momentum is integrated with the optimised
 durations

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 6cfbde8..7709269 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -576,7 +576,8 @@ namespace momentumopt {
       	  frc.y() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(1,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  frc.z() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(2,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  trq     = rz * vars_[trq_local_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-      	  angmom.col(time_id).head(3) += dynamicsSequence().dynamicsState(time_id).time()*(len.cross(frc)+trq);
+      	  double dt = this->getSetting().heuristic() == Heuristic::TimeOptimization ? vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X) : dynamicsSequence().dynamicsState(time_id).time();
+      	  angmom.col(time_id).head(3) += dt*(len.cross(frc)+trq);
         }
       }
     }
-- 
2.43.0


From 0d07f8b7e089d030e0a78da23580b4afc7ca7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 24/32] fix: the terminal cost of the momentum feedback read
 past the end of the plan

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..1c3c9b6 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -65,9 +65,10 @@ namespace momentumopt {
 	}
 
 	double objective = 0.0;
-    for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
-      if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
-        objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
+    if (!is_final_timestep) // there is no control (and no planned step) at the final time
+      for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
+        if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
+          objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
     if (time_id>0) {
       objective += (state.stateVector().segment<3>(0)-this->dynamicsSequence().dynamicsState(time_id-1).centerOfMass()).dot( com_tracking*(state.stateVector().segment<3>(0)-this->dynamicsSequence().dynamicsState(time_id-1).centerOfMass()) );
-- 
2.43.0


From a782a54a1a992c8ee9a4bf2d6c5ed533a72f79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:48 +0000
Subject: [PATCH 25/32] fix: contact plans keep a contact that lasts to the end
 and feet that start in the air

---
 .../kinoptpy/momentum_kinematics_optimizer.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..4f699b9 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -48,18 +48,17 @@ class EndeffectorTrajectoryGenerator(object):
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
             start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
+            for it in range(mom_kin_optimizer.num_time_steps):
                 current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+                is_last_step = it == mom_kin_optimizer.num_time_steps-1
+                if not is_last_step:
+                    next_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
+                if current_contact_activation and (is_last_step or not next_contact_activation):
+                    end_time = it
+                    plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
+                    contact_plan[eff].append(plan)
+                elif not current_contact_activation and not is_last_step and next_contact_activation:
+                    start_time = it+1
         return contact_plan
 
 
-- 
2.43.0


From effa79a4febddf24b69b7069188538e128ef72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:48 +0000
Subject: [PATCH 26/32] fix: finite differences of the dynamics had the wrong
 sign

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..48a7cfd 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From 3b8ab888527113bec64a7f768843f7ad84b222f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:48 +0000
Subject: [PATCH 27/32] fix: second derivatives of the cost were evaluated at a
 drifting point

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 48a7cfd..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From 1978a9b695163b1b75b93ff441c6dcd0044d3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:35 +0000
Subject: [PATCH 28/32] fix: the flight momentum reference overwrote the
 dynamics result of the last contact

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 4f699b9..111749d 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -391,7 +391,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From daae25fa2e1f0cbb294b15a0add7ee29c41b4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:35 +0000
Subject: [PATCH 29/32] fix: end-effector velocities were stored with the
 Jacobian of another posture

---
 .../python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 111749d..b9321e2 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -239,6 +239,7 @@ class MomentumKinematicsOptimizer(object):
                 ]).reshape(-1)
 
         data = self.inv_kin.robot.data
+        self.inv_kin.fill_jacobians(q)
         hg = self.inv_kin.robot.centroidalMomentum(q, dq)
 
         # Storing on the internal array.
-- 
2.43.0


From 2a80710b18c809e66e788f7d9391facd2417aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:10 +0000
Subject: [PATCH 30/32] fix: save the joint velocities in create_qp_files

quadruped_velocities.dat is the companion of quadruped_positions.dat, which
holds joint positions; the joint velocities were computed and dropped, and
the foot velocities (already in quadruped_velocities_eff.dat) were written in
their place.
---
 momentumopt/python/momentumopt/kinoptpy/create_data_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
index 49bcc7a..5537abf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
+++ b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
@@ -177,7 +177,7 @@ def create_qp_files(time_vector, optimized_motion_eff, optimized_sequence, optim
 
         print("saving trajectories....")
         np.savetxt("quadruped_positions.dat", desired_joint_positions)
-        np.savetxt("quadruped_velocities.dat", des_velocities_final)
+        np.savetxt("quadruped_velocities.dat", desired_joint_velocities)
         np.savetxt("quadruped_positions_eff.dat", des_positions_final)
         np.savetxt("quadruped_velocities_eff.dat", des_velocities_final)
         np.savetxt("quadruped_com.dat", des_com)
-- 
2.43.0


From 0c20a325ee55ed71632504c8032ba3ff35c1935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:21 +0000
Subject: [PATCH 31/32] fix: kinematics optimizer maps active dofs to the
 robot's joints everywhere

The posture program, the default posture term and the stored velocities and
accelerations used the position in the list of active dofs as joint index,
while joint limits and references of the trajectory program used the listed
joints. With active dofs other than the first ones, wrong joints moved.
---
 .../kinopt/KinematicsOptimizer.cpp            | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 6bc7739..9fe9589 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -149,7 +149,7 @@ namespace momentumopt {
 
           // penalty on joint default posture
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); dof_id++)
-            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[dof_id] - vars_[jnt_q_.id(6+dof_id,time_id)]);
+            quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[dof_id], this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[dof_id]] - vars_[jnt_q_.id(6+dof_id,time_id)]);
 
           // penalty on joint velocities and accelerations
           for (int dof_id=0; dof_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); dof_id++) {
@@ -261,13 +261,13 @@ namespace momentumopt {
         // integrate current generalized velocities
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
 
           this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->integratePosture(this->kinematicsSequence().kinematicsState(time_id), this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
           if (time_id==0) { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(*ini_state_, this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           else            { this->kinematicsSequence().kinematicsState(time_id) = kin_interface_->differentiatePostures(this->kinematicsSequence().kinematicsState(time_id-1), this->kinematicsSequence().kinematicsState(time_id), dyn_sequence.dynamicsState(time_id).time()); }
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[jnt_id] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
+            this->kinematicsSequence().kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[total_qdd_.id(jnt_id,time_id)].get(SolverDoubleParam_X);
         }
       }
       catch(...)
@@ -345,28 +345,28 @@ namespace momentumopt {
           // center of mass tracking
           lin_cons_ = -desired_com_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centerOfMassJacobian()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingCenterOfMass)[axis_id], lin_cons_);
 
           // linear momentum tracking
           lin_cons_ = -desired_lmom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingLinearMomentum)[axis_id], lin_cons_);
 
           // angular momentum tracking
           lin_cons_ = -desired_amom_velocity_[axis_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,jnt_id)*vars_[jnt_qdd_.id(jnt_id,0)]
-                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,jnt_id)*vars_[total_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->centroidalMomentumMatrix()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qdd_.id(jnt_id,0)]
+                       + kin_interface_->centroidalMomentumMatrixVariation()(3+axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[total_qd_.id(jnt_id,0)];
           quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingAngularMomentum)[axis_id], lin_cons_);
 
           // end-effector motion tracking
           for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
             lin_cons_ = -desired_eff_velocity_[eff_id][axis_id];
             for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,jnt_id)*vars_[jnt_qd_.id(jnt_id,0)];
+              lin_cons_ += kin_interface_->endeffectorJacobians()[eff_id](axis_id,this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id])*vars_[jnt_qd_.id(jnt_id,0)];
             if (desired_state.endeffectorActivation(eff_id)) {
               quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicTrackingEndeffectorPosition)[axis_id], lin_cons_);
             } else {
@@ -387,7 +387,7 @@ namespace momentumopt {
 
         // penalty over default posture
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[jnt_id]);
+          quadobj.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightKinematicDefaultJointPositions)[jnt_id], vars_[jnt_q_.id(jnt_id,0)] - this->getSetting().get(PlannerVectorParam_KinematicDefaultJointPositions)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         model_.setObjective(quadobj, 0.0);
@@ -406,17 +406,17 @@ namespace momentumopt {
         for (int con_id=0; con_id<num_constraints; con_id++) {
           lin_cons_ = -kin_interface_->constraintsVector()[con_id];
           for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[jnt_id]*vars_[jnt_qd_.id(jnt_id,0)];
+            lin_cons_ += kin_interface_->constraintsMatrix().row(con_id)[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]]*vars_[jnt_qd_.id(jnt_id,0)];
           model_.addLinConstr(vars_[slack_vars_.id(con_id,0)], ">", 0.0);
           model_.addLinConstr(lin_cons_, "<", vars_[slack_vars_.id(con_id,0)]);
         }
 
         // integrating joint positions and adding joint limits
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumActiveDofs); jnt_id++) {
-          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[jnt_id] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
+          lin_cons_ = -vars_[jnt_q_.id(jnt_id,0)] + current_state.robotPosture().jointPositions()[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]] + this->getSetting().get(PlannerDoubleParam_KinIntegrationStep)*vars_[jnt_qd_.id(6+jnt_id,0)];
           model_.addLinConstr(lin_cons_, "=", 0.0);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[jnt_id]);
-          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[jnt_id]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], ">", this->getSetting().get(PlannerVectorParam_MinJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
+          model_.addLinConstr(vars_[jnt_q_.id(jnt_id,0)], "<", this->getSetting().get(PlannerVectorParam_MaxJointAngles)[this->getSetting().get(PlannerIntVectorParam_ActiveDofs)[jnt_id]]);
         }
 
         // bodies non-penetration constraints// Write problem in standard conic form and solve it
@@ -436,7 +436,7 @@ namespace momentumopt {
 
         // storing solution
         for (int jnt_id=0; jnt_id<this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs); jnt_id++)
-          current_state.robotVelocity().generalizedJointVelocities()[jnt_id] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
+          current_state.robotVelocity().generalizedJointVelocities()[this->getSetting().get(PlannerIntVectorParam_ExtendedActiveDofs)[jnt_id]] = vars_[jnt_qd_.id(jnt_id,0)].get(SolverDoubleParam_X);
 
         // integrate current step velocities and update total velocities
         current_state = kin_interface_->integratePosture(current_state, this->getSetting().get(PlannerDoubleParam_KinIntegrationStep));
-- 
2.43.0


From d1552c05e5c2aec8baac7b24dd2548b103deff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:21 +0000
Subject: [PATCH 32/32] fix: destroying a kinematics optimizer that was never
 initialised

Its destructor deleted indeterminate pointers.
---
 momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
index 73fb1dd..b67c6c8 100644
--- a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
@@ -32,7 +32,7 @@ namespace momentumopt {
 
     public:
 	  /*! default class constructor and destructor */
-	  KinematicsOptimizer(){}
+	  KinematicsOptimizer() : ini_state_(nullptr), current_state_(nullptr) {}
       ~KinematicsOptimizer();
 
       /**
-- 
2.43.0

