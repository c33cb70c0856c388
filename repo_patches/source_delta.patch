From 3d0b45a7d88a86c6d529926fbf7713d9f5ad1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 01/19] fix: keep performed_iter_ up to date during fit

---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..ebb18fd 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ = self.iter_
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From aab86081e414030620ba942af03991dc1f5d801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 02/19] fix: do not append generated paths to the caller's
 initial path list

---
 col_gen_estimator/_dtree_classifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..9572e9a 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -546,7 +546,9 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        # Columns are appended to this list. The list passed by the caller must
+        # not be modified.
+        self.paths_ = list(initial_paths)
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-- 
2.43.0


From c64d1f6217a4dc37bdf4ce1af70ed167c091246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 03/19] fix: assign a valid target to generated paths that no
 training row follows

---
 col_gen_estimator/_dtree_classifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 9572e9a..55e37fd 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1300,7 +1300,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
@@ -1973,7 +1973,8 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            # Any target is best when no training row follows the path.
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 381f097b52ef9d870599eda8288e2e2856d00a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 04/19] fix: count all correctly predicted rows in the cost of
 intermediate SAT paths

---
 col_gen_estimator/_dtree_classifier.py | 27 +++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 55e37fd..332f44a 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1916,9 +1916,34 @@ class DTreeSubProblemSat(BaseSubproblem):
         #       sp_solver.StatusName(status))
         print(self.leaf_id_, " Path generation objective: ",
               path_generator.original_objective)
-        paths = path_generator.paths
+        paths = []
+        for path in path_generator.paths:
+            # The z variables are not tight in the intermediate solutions, so
+            # the cost is recomputed from the rows following the path.
+            path.cost = self.get_path_cost(path)
+            if not any(path.is_same_as(p) for p in paths):
+                paths.append(path)
         return paths
 
+    def get_path_cost(self, path):
+        """Returns the number of rows following the path with correct target.
+
+        Parameters
+        ----------
+        path: (Path) The path.
+        """
+        cost = 0
+        for row in range(self.X_.shape[0]):
+            weight = 1
+            if self.data_rows != None:
+                if self.data_rows[row].removed_from_sp:
+                    continue
+                weight = self.data_rows[row].weight
+            if self.y_[row] == path.target and row_satisfies_path(
+                    self.X_[row], self.leaf_, self.splits_, path):
+                cost += weight
+        return cost
+
 
 class DTreeSubProblemHeuristic(BaseSubproblem):
     """TODO: Documentation."""
-- 
2.43.0


From dda5d8ff5134e922fa058d03a3dd6d9f46a40736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 05/19] fix: use the row weights in the old decision tree
 subproblem

---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 332f44a..d4f4661 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2137,7 +2137,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2236,12 +2236,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2362,10 +2362,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 5174024a493cabd38d65e444806acb25793fa907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 06/19] fix: retry the master LP without presolve when the
 solver fails

---
 col_gen_estimator/_dtree_classifier.py | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index d4f4661..2cde021 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1023,6 +1023,28 @@ class DTreeMasterProblem(BaseMasterProblem):
                 xp_var = self.solver_.variable(path.id)
                 xp_var.SetUb(0)
 
+    def solve_lp(self, lp_params):
+        """Solves the LP with given parameters and returns the result status.
+        The LP always has an optimal solution, but sometimes the solver fails
+        to find it due to numerical issues. In this case, we solve the LP again
+        from scratch without the presolve.
+
+        Parameters
+        ----------
+        lp_params : MPSolverParameters,
+            The solver parameters for solving the LP.
+        """
+        status = self.solver_.Solve(lp_params)
+        if status != pywraplp.Solver.OPTIMAL:
+            lp_params.SetIntegerParam(
+                pywraplp.MPSolverParameters.INCREMENTALITY,
+                pywraplp.MPSolverParameters.INCREMENTALITY_OFF)
+            lp_params.SetIntegerParam(
+                pywraplp.MPSolverParameters.PRESOLVE,
+                pywraplp.MPSolverParameters.PRESOLVE_OFF)
+            status = self.solver_.Solve(lp_params)
+        return status
+
     def solve_rmp(self, solver_params=''):
         """TODO: Documentation.
         """
@@ -1030,7 +1052,7 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.prev_rmp_objective_ = self.rmp_objective_
         self.iter_ += 1
 
-        self.rmp_result_status = self.solver_.Solve(
+        self.rmp_result_status = self.solve_lp(
             get_params_from_string(solver_params))
 
         # TODO: Hide this under optional logging flag.
@@ -1064,8 +1086,7 @@ class DTreeMasterProblem(BaseMasterProblem):
                         cuts_params.SetIntegerParam(
                             pywraplp.MPSolverParameters.LP_ALGORITHM,
                             pywraplp.MPSolverParameters.DUAL)
-                        self.rmp_result_status = self.solver_.Solve(
-                            cuts_params)
+                        self.rmp_result_status = self.solve_lp(cuts_params)
                         if len(cut_rows) > 0:
                             newly_added_cuts.extend(cut_rows)
                     else:
-- 
2.43.0


From a0cdcb8b9a0f45cde78ebdab326a5abb6eb24a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 07/19] fix: forget the cuts and paths of an earlier model when
 splits and rows are reused

---
 col_gen_estimator/_dtree_classifier.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 2cde021..840365d 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -627,6 +627,14 @@ class DTreeMasterProblem(BaseMasterProblem):
 
         self.X_ = X
         self.y_ = y
+        # The splits and the data rows might have been used before for training
+        # another model. Forget the cuts and the paths of that model.
+        for split in self.splits_:
+            split.left_cuts = set()
+            split.right_cuts = set()
+        if self.data_rows != None:
+            for data_row in self.data_rows:
+                data_row.reachable_paths = set()
         self.create_cut_gen_model()
         infinity = self.solver_.infinity()
         self.solver_.SetNumThreads(1)
-- 
2.43.0


From 823fbf854a85f0e9c59c7eb28769b2309cc64255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 08/19] fix: store all decision tree parameters so that
 get_params, repr and clone work

---
 col_gen_estimator/_col_gen_classifier.py | 14 +++++++++++++-
 col_gen_estimator/_dtree_classifier.py   | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index ebb18fd..afc91d1 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -420,7 +420,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        self.get_subproblem_params(sp_level, sp_ind))
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
@@ -459,6 +459,18 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         # Return the classifier
         return self
 
+    def get_subproblem_params(self, sp_level, sp_ind):
+        """ Returns the parameters for solving the given subproblem.
+
+        Parameters
+        ----------
+        sp_level : int,
+            The level of the subproblem.
+        sp_ind : int,
+            The index of the subproblem in its level.
+        """
+        return self.subproblem_params[sp_level][sp_ind]
+
     def predict(self, X):
         """ Predicts the class based on the solution of master problem. This
         method is abstract.
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 840365d..1a1ef8a 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2495,6 +2495,8 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
         split_ids = []
         for split in splits:
             split_ids.append(split.id)
@@ -2567,6 +2569,21 @@ class DTreeClassifier(ColGenClassifier):
                          self.master_problem, self.subproblems,
                          rmp_is_ip, rmp_solver_params, master_ip_solver_params,
                          all_subproblem_params)
+        # scikit-learn expects the parameters to be stored as they are passed.
+        self.subproblem_params = subproblem_params
+
+    def get_subproblem_params(self, sp_level, sp_ind):
+        """Returns the parameters for solving the given subproblem. The
+        heuristic at level 0 has no parameters.
+
+        Parameters
+        ----------
+        sp_level : int,
+            The level of the subproblem.
+        sp_ind : int,
+            The index of the subproblem in its level.
+        """
+        return "" if sp_level == 0 else self.subproblem_params
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
-- 
2.43.0


From 2dce60546fbbdba1fc4ff332ec1681da6235acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 09/19] fix: train the boolean decision rules on the given data
 and parameters when refitted

---
 col_gen_estimator/_bdr_classifier.py     | 32 ++++++++++++++++++++++++
 col_gen_estimator/_col_gen_classifier.py |  9 +++++++
 2 files changed, 41 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..001291f 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -669,6 +669,33 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
 
+    def create_subproblems(self):
+        """Returns the new subproblems for the current parameters."""
+        return [[BDRSubProblem(self.C, self.subproblem_solver)]]
+
+    def set_params(self, **params):
+        """Sets the parameters of this estimator. They are used by the next
+        call of fit.
+
+        Parameters
+        ----------
+        params : dict,
+            The estimator parameters.
+        """
+        super().set_params(**params)
+        self._params_changed = True
+        return self
+
+    def reset_problems(self):
+        """Creates the master problem and the subproblems again if they are
+        already used for training or if the parameters are changed."""
+        if self.master_problem.generated_ or \
+                getattr(self, '_params_changed', False):
+            self.master_problem = BDRMasterProblem(
+                self.C, self.p, self.rmp_solver)
+            self.subproblems = self.create_subproblems()
+            self._params_changed = False
+
     def _more_tags(self):
         return {'X_types': ['categorical'],
                 'non_deterministic': True,
@@ -842,3 +869,8 @@ class BooleanDecisionRuleClassifierWithHeuristic(
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def create_subproblems(self):
+        """Returns the new subproblems for the current parameters."""
+        return [[BDRHeuristic(K=1)],
+                [BDRSubProblem(self.C, self.subproblem_solver)]]
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index afc91d1..bf2a34d 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -361,6 +361,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                 "Classifier can't train when only one class is present.")
 
         # Initiate the master and subproblems
+        self.reset_problems()
         self.master_problem.generate_mp(X, self.processed_y_)
 
         self.performed_iter_ = 0
@@ -459,6 +460,14 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         # Return the classifier
         return self
 
+    def reset_problems(self):
+        """ (Optional) Called by fit before generating the master problem. The
+        classifiers that create the master problem and the subproblems from
+        their own parameters need to create them again when they are already
+        used for training or when the parameters are changed.
+        """
+        return
+
     def get_subproblem_params(self, sp_level, sp_ind):
         """ Returns the parameters for solving the given subproblem.
 
-- 
2.43.0


From eb5358079a8e7c69bf5f57c89d7df2b121e6de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 10/19] fix: create new decision tree problems when refitted or
 when the parameters change

---
 col_gen_estimator/_dtree_classifier.py | 73 +++++++++++++++++---------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 1a1ef8a..f799b8a 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2497,8 +2497,23 @@ class DTreeClassifier(ColGenClassifier):
         self.data_rows = data_rows
         self.use_old_sp = use_old_sp
         self.master_solver_type = master_solver_type
+        self.create_problems()
+        all_subproblem_params = [
+            [subproblem_params for _ in level] for level in self.subproblems]
+
+        rmp_is_ip = True
+        super().__init__(max_iterations, time_limit,
+                         self.master_problem, self.subproblems,
+                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
+                         all_subproblem_params)
+        # scikit-learn expects the parameters to be stored as they are passed.
+        self.subproblem_params = subproblem_params
+
+    def create_problems(self):
+        """Creates the new master problem and the new subproblems for the
+        current parameters."""
         split_ids = []
-        for split in splits:
+        for split in self.splits:
             split_ids.append(split.id)
         # Each node must be in sequence.
         node_ids = []
@@ -2511,7 +2526,7 @@ class DTreeClassifier(ColGenClassifier):
         # Each leaf must be in sequence.
         leaf_ids = []
         leaf_id = 0
-        for leaf in leaves:
+        for leaf in self.leaves:
             assert leaf.id == leaf_id
             leaf_ids.append(leaf.id)
             leaf_id += 1
@@ -2523,54 +2538,62 @@ class DTreeClassifier(ColGenClassifier):
                 assert node_id in node_ids
             for split_id in path.splits:
                 assert split_id in split_ids, "split id " + str(split_id)
-            assert path.target in targets
+            assert path.target in self.targets
             assert len(path.node_ids) == self.tree_depth
             assert len(path.splits) == self.tree_depth
 
         self.master_problem = DTreeMasterProblem(
             self.initial_paths, self.leaves, self.nodes, self.splits,
-            num_cuts_round=num_master_cuts_round,
-            beta_constraints_as_cuts=master_beta_constraints_as_cuts,
-            generate_cuts=master_generate_cuts,
-            solver_type=master_solver_type,
-            data_rows=data_rows)
+            num_cuts_round=self.num_master_cuts_round,
+            beta_constraints_as_cuts=self.master_beta_constraints_as_cuts,
+            generate_cuts=self.master_generate_cuts,
+            solver_type=self.master_solver_type,
+            data_rows=self.data_rows)
         self.subproblems = []
-        all_subproblem_params = []
         heuristic = DTreeSubProblemHeuristic(
             self.leaves, self.nodes, self.splits, self.targets,
-            self.tree_depth, data_rows=data_rows)
+            self.tree_depth, data_rows=self.data_rows)
         self.subproblems.append([heuristic])
-        all_subproblem_params.append([""])
         self.subproblems.append([])
-        all_subproblem_params.append([])
         for leaf in self.leaves:
-            if use_old_sp:
+            if self.use_old_sp:
                 for target in self.targets:
                     subproblem = DTreeSubProblemOld(
                         leaf, self.nodes, self.splits, target,
                         self.tree_depth, solver_str='sat',
-                        data_rows=data_rows)
+                        data_rows=self.data_rows)
                     self.subproblems[1].append(subproblem)
-                    all_subproblem_params[1].append(subproblem_params)
             else:
                 # subproblem = DTreeSubProblem(
                 #     leaf, self.nodes, self.splits, self.targets,
                 #     self.tree_depth, solver_str='sat',
-                #     data_rows=data_rows)
+                #     data_rows=self.data_rows)
                 subproblem = DTreeSubProblemSat(
                     leaf, self.nodes, self.splits, self.targets,
                     self.tree_depth,
-                    data_rows=data_rows)
+                    data_rows=self.data_rows)
                 self.subproblems[1].append(subproblem)
-                all_subproblem_params[1].append(subproblem_params)
 
-        rmp_is_ip = True
-        super().__init__(max_iterations, time_limit,
-                         self.master_problem, self.subproblems,
-                         rmp_is_ip, rmp_solver_params, master_ip_solver_params,
-                         all_subproblem_params)
-        # scikit-learn expects the parameters to be stored as they are passed.
-        self.subproblem_params = subproblem_params
+    def set_params(self, **params):
+        """Sets the parameters of this estimator. They are used by the next
+        call of fit.
+
+        Parameters
+        ----------
+        params : dict,
+            The estimator parameters.
+        """
+        super().set_params(**params)
+        self._params_changed = True
+        return self
+
+    def reset_problems(self):
+        """Creates the master problem and the subproblems again if they are
+        already used for training or if the parameters are changed."""
+        if self.master_problem.generated_ or \
+                getattr(self, '_params_changed', False):
+            self.create_problems()
+            self._params_changed = False
 
     def get_subproblem_params(self, sp_level, sp_ind):
         """Returns the parameters for solving the given subproblem. The
-- 
2.43.0


From 432c1d1c5b374dbab85807cdf30c50c1c20cad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 11/19] fix: reject more than two classes in the binary boolean
 decision rule classifier

---
 col_gen_estimator/_bdr_classifier.py     | 3 +++
 col_gen_estimator/_col_gen_classifier.py | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index 001291f..ad92761 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -644,6 +644,9 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
         The classes seen at :meth:`fit`.
     """
 
+    # The rule only separates the examples of one class from the others.
+    max_classes = 2
+
     def __init__(self, max_iterations=-1,
                  C=10,
                  p=1,
diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index bf2a34d..90b55c5 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -306,6 +306,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         Set to true if the given time limit is reached.
     """
 
+    # Maximum number of classes the classifier can handle. None removes the
+    # limit.
+    max_classes = None
+
     def __init__(self, max_iterations=-1,
                  time_limit=-1,
                  master_problem=BaseMasterProblem(),
@@ -359,6 +363,11 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         if len(self.classes_) <= 1:
             raise ValueError(
                 "Classifier can't train when only one class is present.")
+        if self.max_classes is not None and \
+                len(self.classes_) > self.max_classes:
+            raise ValueError(
+                "Classifier can't train with more than " +
+                str(self.max_classes) + " classes.")
 
         # Initiate the master and subproblems
         self.reset_problems()
-- 
2.43.0


From d8c7c73e9297290f8119ec2717ed9812f8c86ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 12/19] fix: use only paths with candidate splits to initialize
 the decision tree experiment

---
 examples/dtree_experiment.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index bf7f9fe..91dd8a6 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -266,6 +266,10 @@ def main(argv):
                 y_train)
             if path == None:
                 continue
+            # The master problem keeps the paths consistent only with respect
+            # to the candidate splits of the nodes.
+            if not uses_candidate_splits(path, nodes):
+                continue
             found = False
             for p in paths:
                 if path.is_same_as(p):
@@ -639,6 +643,13 @@ def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y):
     return path
 
 
+def uses_candidate_splits(path, nodes):
+    for node_id, split_id in zip(path.node_ids, path.splits):
+        if split_id not in nodes[node_id].candidate_splits:
+            return False
+    return True
+
+
 def row_satisfies_path(splits, X, path, leaf, row):
     split_ids = path.splits
     node_ids = path.node_ids
@@ -774,6 +785,11 @@ def reduce_splits(nodes, splits, q_root, q_node):
         print(list1[:q_value], list2[:q_value])
         node.candidate_splits_count = list1[:q_value]
         node.candidate_splits = list2[:q_value]
+        # The paths of the initial tree use the last split of the node.
+        if node.last_split in list2[q_value:]:
+            split_ind = list2.index(node.last_split)
+            node.candidate_splits_count[-1] = list1[split_ind]
+            node.candidate_splits[-1] = node.last_split
         final_nodes.append(node)
         for split_id in node.candidate_splits:
             used_split_ids.add(split_id)
-- 
2.43.0


From e19ddf162c6a95de0a861a538821026ec60eea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 13/19] fix: keep at least one candidate split per node in deep
 tree experiments

---
 examples/dtree_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 91dd8a6..a62b3dc 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -143,8 +143,8 @@ def main(argv):
         node.id = node_id
         node.candidate_splits = []
         combined_nodes[node_id] = node
-    q_root = int(150 / max_num_nodes)
-    q_node = int(100 / max_num_nodes)
+    q_root = max(1, int(150 / max_num_nodes))
+    q_node = max(1, int(100 / max_num_nodes))
 
     for i in range(300):
         if preprocessing_time_limit > 0 and time() - t0 > preprocessing_time_limit:
-- 
2.43.0


From b7285c86a1c843fae8e0a3abfccdc7f6436baa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 14/19] fix: keep the experiment time limit when preprocessing
 uses all of it

---
 examples/dtree_experiment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index a62b3dc..2799848 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -294,7 +294,9 @@ def main(argv):
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    time_limit -= preprocessing_time
+    if time_limit > 0:
+        # The limit must stay positive, otherwise it is ignored.
+        time_limit = max(time_limit - preprocessing_time, 0.01)
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
-- 
2.43.0


From cf1276a3704449a30d985eabcebd6c54e6a5afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 15/19] fix: create the results directory of the experiment

---
 examples/dtree_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 2799848..301691b 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -367,6 +367,7 @@ def main(argv):
     prefix = results_dir + 'T_' + train_file_name + \
         '_d_' + str(experiment_max_depth)
     results_filename = prefix + '_results.csv'
+    os.makedirs(results_dir, exist_ok=True)
     with open(results_filename, 'w', newline='') as f:
         # fieldnames lists the headers for the csv.
         w = csv.DictWriter(f, fieldnames=sorted(vars(cart_results)))
-- 
2.43.0


From 79963a3c86313e8dffdbeba4809c6ad5f46ab4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 16/19] fix: do not use the duals of an unsolved master LP in
 the boolean decision rules

---
 col_gen_estimator/_bdr_classifier.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index ad92761..eec41ae 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -286,8 +286,21 @@ class BDRMasterProblem(BaseMasterProblem):
 
         # TODO(krunalp): Warm start LP
         # Solve lp
-        result_status = self.solver_.Solve(
-            get_params_from_string(solver_params))
+        lp_params = get_params_from_string(solver_params)
+        result_status = self.solver_.Solve(lp_params)
+        if result_status != pywraplp.Solver.OPTIMAL:
+            # The solver sometimes fails due to numerical issues. Solve the LP
+            # again from scratch without the presolve.
+            lp_params.SetIntegerParam(
+                pywraplp.MPSolverParameters.INCREMENTALITY,
+                pywraplp.MPSolverParameters.INCREMENTALITY_OFF)
+            lp_params.SetIntegerParam(
+                pywraplp.MPSolverParameters.PRESOLVE,
+                pywraplp.MPSolverParameters.PRESOLVE_OFF)
+            result_status = self.solver_.Solve(lp_params)
+        # The duals are meaningless when the LP is not solved.
+        assert result_status == pywraplp.Solver.OPTIMAL, \
+            "RMP couldn't be solved."
         n_positive_examples = self.solver_.NumConstraints() - 1
 
         # TODO: Hide this under optional logging flag.
-- 
2.43.0


From b3e767346d6b82f4a497fdcde170bfc670de1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 17/19] fix: predict the rows of sparse matrices

---
 col_gen_estimator/_bdr_classifier.py   | 4 ++++
 col_gen_estimator/_dtree_classifier.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index eec41ae..7dbca49 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -86,6 +86,7 @@ import itertools
 from bitarray.util import int2ba
 from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -732,6 +733,9 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
             The label for each sample. The labels only contain values in {0,1}.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            # The rows are accessed by the index of the feature.
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         explanation = self.master_problem.explanation
         print("Explanation=", explanation)
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index f799b8a..3b033f4 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -122,6 +122,7 @@ from ortools.linear_solver import pywraplp
 from ortools.linear_solver import linear_solver_pb2
 from ortools.sat.python import cp_model
 from math import floor, ceil
+from scipy.sparse import issparse
 from sklearn.utils.validation import check_array, check_is_fitted
 from ._col_gen_classifier import BaseMasterProblem
 from ._col_gen_classifier import BaseSubproblem
@@ -2627,6 +2628,9 @@ class DTreeClassifier(ColGenClassifier):
             The label for each sample.
         """
         X = check_array(X, accept_sparse=True)
+        if issparse(X):
+            # The rows are accessed by the index of the feature.
+            X = X.toarray()
         check_is_fitted(self, 'is_fitted_')
         selected_paths = self.master_problem.selected_paths
         # Check for each row, which path it satisfies. There should be exactly
-- 
2.43.0


From 4df3f072a9093da7ee665d4c2f74667488b58c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 18/19] Revert the experiment fixes: examples are left as they
 are

They are recorded as known findings instead (d8c7c73, e19ddf1, b7285c8,
cf1276a).
---
 examples/dtree_experiment.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/examples/dtree_experiment.py b/examples/dtree_experiment.py
index 301691b..bf7f9fe 100644
--- a/examples/dtree_experiment.py
+++ b/examples/dtree_experiment.py
@@ -143,8 +143,8 @@ def main(argv):
         node.id = node_id
         node.candidate_splits = []
         combined_nodes[node_id] = node
-    q_root = max(1, int(150 / max_num_nodes))
-    q_node = max(1, int(100 / max_num_nodes))
+    q_root = int(150 / max_num_nodes)
+    q_node = int(100 / max_num_nodes)
 
     for i in range(300):
         if preprocessing_time_limit > 0 and time() - t0 > preprocessing_time_limit:
@@ -266,10 +266,6 @@ def main(argv):
                 y_train)
             if path == None:
                 continue
-            # The master problem keeps the paths consistent only with respect
-            # to the candidate splits of the nodes.
-            if not uses_candidate_splits(path, nodes):
-                continue
             found = False
             for p in paths:
                 if path.is_same_as(p):
@@ -294,9 +290,7 @@ def main(argv):
     t2 = time()
     preprocessing_time = t2-t0
     print("Total preprocessing time: ", t2-t0)
-    if time_limit > 0:
-        # The limit must stay positive, otherwise it is ignored.
-        time_limit = max(time_limit - preprocessing_time, 0.01)
+    time_limit -= preprocessing_time
 
     t0 = time()
     clf = DTreeClassifier(paths.copy(), leaves.copy(), nodes.copy(),
@@ -367,7 +361,6 @@ def main(argv):
     prefix = results_dir + 'T_' + train_file_name + \
         '_d_' + str(experiment_max_depth)
     results_filename = prefix + '_results.csv'
-    os.makedirs(results_dir, exist_ok=True)
     with open(results_filename, 'w', newline='') as f:
         # fieldnames lists the headers for the csv.
         w = csv.DictWriter(f, fieldnames=sorted(vars(cart_results)))
@@ -646,13 +639,6 @@ def get_path_for_leaf(leaf, tree_nodes, depth, splits, X, y):
     return path
 
 
-def uses_candidate_splits(path, nodes):
-    for node_id, split_id in zip(path.node_ids, path.splits):
-        if split_id not in nodes[node_id].candidate_splits:
-            return False
-    return True
-
-
 def row_satisfies_path(splits, X, path, leaf, row):
     split_ids = path.splits
     node_ids = path.node_ids
@@ -788,11 +774,6 @@ def reduce_splits(nodes, splits, q_root, q_node):
         print(list1[:q_value], list2[:q_value])
         node.candidate_splits_count = list1[:q_value]
         node.candidate_splits = list2[:q_value]
-        # The paths of the initial tree use the last split of the node.
-        if node.last_split in list2[q_value:]:
-            split_ind = list2.index(node.last_split)
-            node.candidate_splits_count[-1] = list1[split_ind]
-            node.candidate_splits[-1] = node.last_split
         final_nodes.append(node)
         for split_id in node.candidate_splits:
             used_split_ids.add(split_id)
-- 
2.43.0


From a44ee4abde61daa27facc8bc521005e06fe17b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 19/19] fix: leaves and paths of very deep trees got wrong
 nodes

The number of the father node was computed with a floating point division,
which is not exact for numbers above 2**53.
---
 col_gen_estimator/_dtree_classifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 3b033f4..72dd2bc 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -253,7 +253,7 @@ class Path:
         self.node_ids = []
         count = 2**(depth) - 1 + leaf_id
         while (count > 0):
-            father = math.floor((count-1) / 2)
+            father = (count-1) // 2
             self.node_ids.append(father)
             count = father
 
@@ -322,7 +322,7 @@ class Leaf:
         self.right_nodes = []
         count = 2**(depth) - 1 + id
         while (count > 0):
-            father = math.floor((count-1) / 2)
+            father = (count-1) // 2
             if count % 2 == 0:
                 self.right_nodes.append(father)
             else:
-- 
2.43.0

