From 8e59edef31ed49dee972b8593db64650c04b1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 001/170] fix: IntegerVar.generate no longer draws ub + 1 when
 the upper bound is negative

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..1f78398 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,7 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        return self.generator.integers(np.rint(self.lb + 0.5).astype(int), np.rint(self.ub + 0.5 + self.eps).astype(int))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From a15e2655f6b0d52a3c40a9ba8cccc060f808831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 002/170] fix: PermutationVar.correct returns ranks, so that
 encoded permutations are left alone and decode to themselves

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 1f78398..4f2ca7a 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -333,7 +333,7 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        return np.argsort(np.argsort(x, kind="stable"), kind="stable")
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From 4de79ea7635fef3a6a81e68e6fc741c6b2e8eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 003/170] fix: the lower bound given to TransferBinaryVar and
 TransferBoolVar is used

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 4f2ca7a..045c3ab 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -372,7 +372,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -430,7 +430,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From e6f10fbec7ed1deaf06526322f7af2257dc644c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 004/170] fix: repeated labels in StringVar/CategoricalVar no
 longer decode to 'unknown'

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 045c3ab..37861ce 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -236,7 +236,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -246,7 +246,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From 6f81b5f4ee5bb9c1fb2a9ed61fd36ae2142f58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 005/170] fix: seeded problems draw their variables from
 independent random streams

---
 mealpy/utils/problem.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 081def8..6f77eb9 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -62,18 +62,16 @@ class Problem:
 
     def set_bounds(self, bounds):
         if isinstance(bounds, BaseVar):
-            bounds.seed = self.seed
             self._bounds = [bounds, ]
         elif type(bounds) in self.SUPPORTED_ARRAYS:
             self._bounds = []
             for bound in bounds:
-                if isinstance(bound, BaseVar):
-                    bound.seed = self.seed
-                else:
+                if not isinstance(bound, BaseVar):
                     raise ValueError(f"Invalid bounds. All variables in bounds should be an instance of {self.SUPPORTED_VARS}")
                 self._bounds.append(bound)
         else:
             raise TypeError(f"Invalid bounds. It should be type of {self.SUPPORTED_ARRAYS} or an instance of {self.SUPPORTED_VARS}")
+        self.set_seed(self.seed)
         self.lb = np.concatenate([bound.lb for bound in self._bounds])
         self.ub = np.concatenate([bound.ub for bound in self._bounds])
         self.n_dims = len(self.lb)
@@ -81,7 +79,8 @@ class Problem:
     def set_seed(self, seed: int = None) -> None:
         self.seed = seed
         for idx in range(len(self._bounds)):
-            self._bounds[idx].seed = seed
+            # Each variable needs its own random stream, different from the optimizer's one
+            self._bounds[idx].seed = None if seed is None else int(np.random.SeedSequence([seed, idx + 1]).generate_state(1)[0])
 
     def obj_func(self, x: np.ndarray) -> Union[List, Tuple, np.ndarray, int, float]:
         """Objective function
-- 
2.43.0


From d81c760ed0540e9e6deca3c5b7f8e45dc5c95f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 006/170] fix: solve no longer writes the seed into the user's
 problem dictionary

---
 mealpy/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..ad0816c 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -165,8 +165,7 @@ class Optimizer:
             problem.set_seed(seed)
             self.problem = problem
         elif type(problem) == dict:
-            problem["seed"] = seed
-            self.problem = Problem(**problem)
+            self.problem = Problem(**{**problem, "seed": seed})
         else:
             raise ValueError("problem needs to be a dict or an instance of Problem class.")
         self.generator = np.random.default_rng(seed)
-- 
2.43.0


From 82f3c47e4a7781851fcacb3c9d8aa1ebe5a83752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 007/170] fix: starting solutions are copied to arrays, so
 lists and tuples work and the caller's data is not shared

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ad0816c..ca7c3ca 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,6 +132,7 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From dc416b940dab246cc3e00f3820558a284fce3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 008/170] fix: the function evaluation counter starts at zero
 in every run

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ca7c3ca..e346abc 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -195,6 +195,7 @@ class Optimizer:
     def check_termination(self, mode="start", termination=None, epoch=None):
         if mode == "start":
             self.termination = termination
+            self.nfe_counter = 0
             if termination is not None:
                 if isinstance(termination, Termination):
                     self.termination = termination
@@ -202,7 +203,6 @@ class Optimizer:
                     self.termination = Termination(log_to=self.problem.log_to, log_file=self.problem.log_file, **termination)
                 else:
                     raise ValueError("Termination needs to be a dict or an instance of Termination class.")
-                self.nfe_counter = 0
                 self.termination.set_start_values(0, self.nfe_counter, time.perf_counter(), 0)
         else:
             finished = False
-- 
2.43.0


From 6e1531d4a87eeda6a1c59b37b01b0636b0b8ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 009/170] fix: parallel modes draw the initial population in
 order from one stream and evaluate it concurrently; new agents are completed
 in all modes

---
 mealpy/optimizer.py            | 31 +++++++++++++++++--------------
 mealpy/swarm_based/BFO.py      |  4 +---
 mealpy/swarm_based/BSA.py      |  4 +---
 mealpy/swarm_based/ESOA.py     |  4 +---
 mealpy/swarm_based/PSO.py      | 20 +++++---------------
 mealpy/swarm_based/SLO.py      |  5 ++---
 mealpy/swarm_based/SRSR.py     |  4 +---
 mealpy/swarm_based/SSpiderA.py |  8 +++-----
 8 files changed, 31 insertions(+), 49 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index e346abc..96b7d23 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -135,7 +135,7 @@ class Optimizer:
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-                    self.pop = self.update_target_for_population(self.pop)
+                    self.pop = [self.complete_agent(agent) for agent in self.update_target_for_population(self.pop)]
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -333,6 +333,18 @@ class Optimizer:
         """
         agent = self.generate_empty_agent(solution)
         agent.target = self.get_target(agent.solution)
+        return self.complete_agent(agent)
+
+    def complete_agent(self, agent: Agent) -> Agent:
+        """
+        Set the attributes of a new agent that depend on its target (personal best, ...). Override it if the agents have such attributes.
+
+        Args:
+            agent: The new agent, with its solution and its target
+
+        Returns:
+            The new agent with full information
+        """
         return agent
 
     def generate_population(self, pop_size: int = None) -> List[Agent]:
@@ -345,19 +357,10 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
+        if self.mode in self.PARALLEL_MODES:
+            # The solutions are drawn here (in order, from one random stream), only their evaluation is distributed
+            pop = self.update_target_for_population([self.generate_empty_agent() for _ in range(0, pop_size)])
+            pop = [self.complete_agent(agent) for agent in pop]
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..300a906 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -259,9 +259,7 @@ class ABFO(Optimizer):
         local_solution = solution.copy()
         return Agent(solution=solution, nutrients=nutrients, local_solution=local_solution)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..8b439e3 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -101,9 +101,7 @@ class OriginalBSA(Optimizer):
         local_position = solution.copy()
         return Agent(solution=solution, local_solution=local_position)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index da641ed..45bf437 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -70,7 +70,7 @@ class OriginalESOA(Optimizer):
         v = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, weights=weights, local_solution=solution.copy(), m=m, v=v)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
             ID_WEI = 2
             ID_LOC_X = 3
@@ -79,8 +79,6 @@ class OriginalESOA(Optimizer):
             ID_M = 6
             ID_V = 7
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.local_target = agent.target.copy()
         agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
         return agent
diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..72890dd 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -85,9 +85,7 @@ class OriginalPSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -193,9 +191,7 @@ class AIW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -311,9 +307,7 @@ class LDW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -408,9 +402,7 @@ class P_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -745,9 +737,7 @@ class CL_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..2363dca 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -150,9 +150,8 @@ class ModifiedSLO(Optimizer):
         local_pos = self.correct_solution(local_pos)
         return Agent(solution=solution, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
+        target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
             t1 = agent.local_solution.copy()
diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..49649bf 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -65,9 +65,7 @@ class OriginalSRSR(Optimizer):
         target_move = 0
         return Agent(solution=solution, mu=mu, sigma=sigma, solution_new=x_new, target_move=target_move)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.target_new = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..d797d3b 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -98,15 +98,13 @@ class DevSSpiderA(Optimizer):
         mask = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, target_solution=target_solution, local_vector=local_vector, mask=mask)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
-        Generate new agent with full information
+        Set the attributes of a new agent that depend on its target
 
         Args:
-            solution (np.ndarray): The solution
+            agent: The new agent
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
         return agent
 
-- 
2.43.0


From 8299f8da02667743d4ca8de20a94d8920c320f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 010/170] fix: the tuner ranks parameter sets correctly when
 maximising and accepts Problem objects

---
 mealpy/tuner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..34cc52c 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -396,7 +396,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = self.problem.minmax if isinstance(self.problem, Problem) else self.problem.get("minmax", "min")
+        ascending = minmax == "min"
 
         best_fit_results = []
         loss_results = []
@@ -426,8 +427,9 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        ## The ranks already follow the direction of the problem (1 is the best), and a smaller spread is always better
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From bc23b13448f1c25433338eb64df0b5d42e1001c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 011/170] fix: indexing a ParameterGrid works and agrees with
 its iteration order

---
 mealpy/tuner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 34cc52c..8b69832 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -131,17 +131,18 @@ class ParameterGrid:
             ## My version: Don't sort the values and don't reverse here. Keep it as it is
             keys, values_lists = zip(*sub_grid.items())
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = int(np.prod(sizes))
 
             if ind >= total:
                 # Try the next grid
                 ind -= total
             else:
                 out = {}
-                for key, v_list, n in zip(keys, values_lists, sizes):
+                # The last parameter is the most frequent cycling one, as in iteration
+                for key, v_list, n in list(zip(keys, values_lists, sizes))[::-1]:
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in keys}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From 761ceab907f3304fc58dbfd7d11b5c931742ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 012/170] fix: Multitask accepts terminations and modes given
 per algorithm or per algorithm-problem pair

---
 mealpy/multitask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..e9306fc 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,11 +101,12 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [[deepcopy(values[idx * self.m_problems + jdx]) for jdx in range(0, self.m_problems)]
+                                for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From df90cc05ee1bc5e1104d9b3fb0992e1591d48a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 013/170] fix: get_optimizer_by_name no longer returns the base
 class as a variant

---
 mealpy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..179b7cb 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -123,13 +123,13 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
             for cls_name, cls_obj in inspect.getmembers(obj):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
+    cls.pop("Optimizer", None)
     if verbose:
         if not flag:
             print(f"Mealpy doesn't support optimizer named: {name}.\n"
                   f"Please see the supported Optimizer name from here:\n"
                   f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
             return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
         for name, optimizer in cls.items():
             print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
-- 
2.43.0


From 0869b8799dcbb65e1ffe1dda8e9f8cded15e6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 014/170] fix: OriginalBCO accepts its own default
 n_chemotaxis=1

---
 mealpy/bio_based/BCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..f0e6d4d 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -23,7 +23,7 @@ class OriginalBCO(Optimizer):
     c_max : float
         Maximum chemotaxis step size, in range (c_min, 10.0). Default is 0.2.
     n_chemotaxis : int
-        Nonlinear parameter for chemotaxis step, in range (1, 5). Default is 1.
+        Nonlinear parameter for chemotaxis step, in range [1, 4]. Default is 1.
     max_swim_steps : int
         Maximum swimming steps, in range (2, 10). Default is 4.
     migration_prob : float
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 4])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From 250021f9cc7b16035289a23b50cc7543ca8139bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 015/170] fix: JADE, SHADE, L_SHADE and LSHADEcnEpSin draw from
 the seeded generator instead of the global one

---
 mealpy/evolutionary_based/DE.py    |  2 +-
 mealpy/evolutionary_based/SHADE.py |  4 ++--
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..d57e1b6 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..84c4f4b 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From 113943ed0f541bd24b464900460b933099b9a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 016/170] fix: every run logs to its own destination, whatever
 earlier runs in the process asked for

---
 mealpy/utils/logger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/logger.py b/mealpy/utils/logger.py
index b0ff2d4..c4a78b1 100644
--- a/mealpy/utils/logger.py
+++ b/mealpy/utils/logger.py
@@ -48,6 +48,11 @@ class Logger:
                 formatter = logging.Formatter(format_str, datefmt="%Y/%m/%d %I:%M:%S %p")
             handler = logging.StreamHandler()
             handler.setFormatter(formatter)
-        if not logger.hasHandlers():
+        # Loggers are shared by name: the handler of an earlier run must not receive the messages of this one
+        for old_handler in [item for item in logger.handlers if getattr(item, "from_mealpy", False)]:
+            logger.removeHandler(old_handler)
+            old_handler.close()
+        if self.log_to == "file" or not logger.hasHandlers():
+            handler.from_mealpy = True
             logger.addHandler(handler)
         return logger
-- 
2.43.0


From 872ea08cf77605db936d37c96713c4ca2c217887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 017/170] fix: a copied agent no longer shares its arrays with
 the original

---
 mealpy/utils/agent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..46d72df 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,11 +28,11 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        agent = Agent(np.array(self.solution, copy=True), self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-                setattr(agent, attr, value)
+                setattr(agent, attr, value.copy() if isinstance(value, (np.ndarray, Target)) else value)
         return agent
 
     def update_agent(self, solution: np.ndarray, target: Target) -> None:
-- 
2.43.0


From f22f8fb5fa18c9de6f6b6505c85bbe327c8b95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 018/170] fix: the history keeps copies of the best and worst
 agents instead of aliases into the live population

---
 mealpy/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 96b7d23..215ec60 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -624,15 +624,16 @@ class Optimizer:
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
+            ## The history keeps copies, agents of the population can be changed in place by the next epochs
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
-            return sorted_pop, better
+            return sorted_pop, better.copy()
         else:
             ## Handle current best
             local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-- 
2.43.0


From 1f1750c578642b0617e7c4e4fe9553a0e5e17e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 019/170] fix: updating the global best within an epoch no
 longer rewrites the history of the previous epoch

---
 mealpy/optimizer.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 215ec60..1cdf470 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -52,7 +52,7 @@ class Optimizer:
         super(Optimizer, self).__init__()
         self.epoch, self.pop_size = None, None
         self.mode, self.n_workers, self.name = None, None, None
-        self.pop, self.g_best, self.g_worst = None, None, None
+        self.pop, self.g_best, self.g_worst, self.best_in_epoch = None, None, None, None
         self.problem, self.logger, self.history = None, None, None
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
@@ -174,7 +174,7 @@ class Optimizer:
         self.logger = Logger(self.problem.log_to, log_file=self.problem.log_file).create_logger(name=f"{self.__module__}.{self.__class__.__name__}")
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
-        self.pop, self.g_best, self.g_worst = None, None, None
+        self.pop, self.g_best, self.g_worst, self.best_in_epoch = None, None, None, None
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
@@ -616,7 +616,7 @@ class Optimizer:
 
         Args:
             pop (list): The population of pop_size individuals
-            save (bool): True if you want to add new current/global best to history, False if you just want to update current/global best
+            save (bool): True if you want to add new current/global best to history, False if you just want the global best in the middle of an epoch
 
         Returns:
             list: Sorted population and the global best solution
@@ -628,6 +628,9 @@ class Optimizer:
             ## Save current best
             self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
+            if self.best_in_epoch is not None:
+                better = self.get_better_agent(better, self.best_in_epoch, self.problem.minmax)
+                self.best_in_epoch = None
             self.history.list_global_best.append(better)
             ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
@@ -635,17 +638,12 @@ class Optimizer:
             self.history.list_global_worst.append(worse)
             return sorted_pop, better.copy()
         else:
-            ## Handle current best
-            local_better = self.get_better_agent(c_best, self.history.list_current_best[-1], self.problem.minmax)
-            self.history.list_current_best[-1] = local_better
+            ## The last entries of the history belong to the previous epoch, the best found so far is kept for the end of this one
             global_better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
-            self.history.list_global_best[-1] = global_better
-            ## Handle current worst
-            local_worst = self.get_better_agent(c_worst, self.history.list_current_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_current_worst[-1] = local_worst
-            global_worst = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
-            self.history.list_global_worst[-1] = global_worst
-            return sorted_pop, global_better
+            if self.best_in_epoch is not None:
+                global_better = self.get_better_agent(global_better, self.best_in_epoch, self.problem.minmax)
+            self.best_in_epoch = global_better
+            return sorted_pop, global_better.copy()
 
     @staticmethod
     def sample_indexes_exclude_one(generator, pop_size: int, exclude_idx: int, n_samples: int, replace: bool=False):
-- 
2.43.0


From cadc9a03ffd82973ced1aedfa63855b5e03d9d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 020/170] fix: FOA, DevFOA and WhaleFOA evaluate and keep the
 same solutions, inside the bounds, also for negative upper bounds

---
 mealpy/swarm_based/FOA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..f64adca 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From c2881024cc7ee4c414c3f8aedf6daf6e61ce4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 021/170] fix: the TWO variants no longer overwrite the
 solutions of the population before evaluating them, and weigh teams by the
 direction

---
 mealpy/physics_based/TWO.py | 57 ++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..dbf9e76 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -79,6 +79,8 @@ class OriginalTWO(Optimizer):
 
     def update_weight__(self, teams):
         list_fits = np.array([agent.target.fitness for agent in teams])
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
@@ -95,7 +97,7 @@ class OriginalTWO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -171,10 +173,11 @@ class OppoTWO(OriginalTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        list_idx = self.generator.choice(range(0, self.pop_size), int(self.pop_size/2), replace=False)
-        pop_temp = [self.pop[list_idx[idx]] for idx in range(0, int(self.pop_size/2))]
+        n_oppo = int(self.pop_size/2)
+        list_idx = self.generator.choice(range(0, self.pop_size), self.pop_size - n_oppo, replace=False)
+        pop_temp = [self.pop[idx] for idx in list_idx]
         pop_oppo = []
-        for idx in range(len(pop_temp)):
+        for idx in range(n_oppo):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
             pos_opposite = self.correct_solution(pos_opposite)
             agent = self.generate_empty_agent(pos_opposite)
@@ -193,7 +196,7 @@ class OppoTWO(OriginalTWO):
             epoch (int): The current iteration
         """
         ## Apply force of others solution on each individual solution
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.pop_size):
@@ -205,14 +208,14 @@ class OppoTWO(OriginalTWO):
                     delta_x = 1 / 2 * acceleration + np.power(self.alpha, epoch) * self.beta * \
                               (self.problem.ub - self.problem.lb) * self.generator.normal(0, 1, self.problem.n_dims)
                     pos_new += delta_x
-            self.pop[idx].solution = pos_new
+            pop_new[idx].solution = pos_new
         ## Amend solution and update fitness value
         for idx in range(self.pop_size):
             pos_new = self.g_best.solution + self.generator.normal(0, 1, self.problem.n_dims) / (epoch) * (self.g_best.solution - pop_new[idx].solution)
             conditions = np.logical_or(pop_new[idx].solution < self.problem.lb, pop_new[idx].solution > self.problem.ub)
             conditions = np.logical_and(conditions, self.generator.random(self.problem.n_dims) < 0.5)
-            pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(np.where(conditions, pos_new, pop_new[idx].solution))
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -278,7 +281,7 @@ class LevyTWO(OriginalTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -292,7 +295,7 @@ class LevyTWO(OriginalTWO):
                     pos_new +=delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -304,7 +307,8 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -316,12 +320,12 @@ class LevyTWO(OriginalTWO):
             ## Chance for each agent to update using levy is 50%
             if self.generator.random() < 0.5:
                 levy_step = self.get_levy_flight_step(beta=1.0, multiplier=0.01, size=self.problem.n_dims, case=-1)
-                pos_new = pop_new[idx].solution + levy_step
+                pos_new = self.pop[idx].solution + levy_step
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
-                if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                    pop_new[idx] = agent
-        self.pop = self.update_weight__(pop_new)
+                if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = agent
+        self.pop = self.update_weight__(self.pop)
 
 
 class EnhancedTWO(OppoTWO, LevyTWO):
@@ -374,7 +378,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
@@ -392,7 +396,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
         Args:
             epoch (int): The current iteration
         """
-        pop_new = self.pop.copy()
+        pop_new = self.duplicate_pop(self.pop)
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy().astype(float)
             for kdx in range(self.pop_size):
@@ -406,7 +410,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                     pos_new += delta_x
             pop_new[idx].solution = pos_new
         for idx in range(self.pop_size):
-            pos_new = self.pop[idx].solution.copy().astype(float)
+            pos_new = pop_new[idx].solution.copy().astype(float)
             for jdx in range(self.problem.n_dims):
                 if pos_new[jdx] < self.problem.lb[jdx] or pos_new[jdx] > self.problem.ub[jdx]:
                     if self.generator.random() <= 0.5:
@@ -418,7 +422,8 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.lb[jdx]
                         if pos_new[jdx] > self.problem.ub[jdx]:
                             pos_new[jdx] = self.problem.ub[jdx]
-            pop_new[idx].solution = self.correct_solution(pos_new)
+            pos_new = self.correct_solution(pos_new)
+            pop_new[idx].solution = pos_new
             if self.mode not in self.AVAILABLE_MODES:
                 pop_new[idx].target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
@@ -427,16 +432,16 @@ class EnhancedTWO(OppoTWO, LevyTWO):
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
 
         for idx in range(self.pop_size):
-            C_op = self.generate_opposition_solution(pop_new[idx], self.g_best)
+            C_op = self.generate_opposition_solution(self.pop[idx], self.g_best)
             pos_new = self.correct_solution(C_op)
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                pop_new[idx] = agent
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                self.pop[idx] = agent
             else:
                 levy_step = self.get_levy_flight_step(beta=1.0, multiplier=1.0, size=self.problem.n_dims, case=-1)
-                pos_new = pop_new[idx].solution + 1.0 / np.sqrt(epoch) * levy_step
+                pos_new = self.pop[idx].solution + 1.0 / np.sqrt(epoch) * levy_step
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
-                if self.compare_target(agent.target, pop_new[idx].target, self.problem.minmax):
-                    pop_new[idx] = agent
-        self.pop = self.update_weight__(pop_new)
+                if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = agent
+        self.pop = self.update_weight__(self.pop)
-- 
2.43.0


From 37230ea981b587bf7a5d8a575a31bf8151d995ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 022/170] fix: AAA keeps evaluated solutions unchanged, works
 below three dimensions and treats both directions alike

---
 mealpy/bio_based/AAA.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..170ab1c 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -149,14 +149,14 @@ class OriginalAAA(Optimizer):
         Args:
             epoch: The current iteration
         """
-        energy = self.calculate_energy(self.alg_size_matrix, self.problem.minmax)
-        alg_friction = self.calculate_friction(self.alg_size_matrix, self.problem.minmax)
+        energy = self.calculate_energy(self.alg_size_matrix)
+        alg_friction = self.calculate_friction(self.alg_size_matrix)
         # 1. Helical Movement Phase
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, self.problem.n_dims < 3)
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From 31a05f2d5bb9dc0f07851383c3da85bd2921c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 023/170] fix: ArchOA evaluates the corrected solution

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 3263ff218e952d4e4b3efd1dfb203a00f7535a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 024/170] fix: BCO evaluates the corrected solution

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index f0e6d4d..bd149b3 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
-- 
2.43.0


From 698347d2dc72065ae6883f47be9de7e2a23683d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 025/170] fix: the BeesA variants no longer change solutions
 after their evaluation, and work in one dimension and with small bee ratios

---
 mealpy/swarm_based/BeesA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..b8fb991 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
@@ -209,12 +209,13 @@ class OriginalBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
-        self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
-        self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
+        self.n_selected_bees_local = max(1, int(round(self.selected_site_bee_ratio * self.pop_size)))
+        self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
         self.sort_flag = True
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -329,6 +330,7 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
-- 
2.43.0


From 842292b0a73490d87dda0f636160e71370f7ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 026/170] fix: OriginalSBO stores the evaluated solution
 together with its target and weighs bowers by the direction

---
 mealpy/bio_based/SBO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..4ec643f 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -198,7 +198,9 @@ class OriginalSBO(DevSBO):
         # (percent of the difference between the upper and lower limit (Eq. 7))
         self.sigma = self.psw * (self.problem.ub - self.problem.lb)
         ## Calculate the probability of bowers using Eqs. (1) and (2)
-        fx_list = np.array([agent.target.fitness for agent in self.pop])
+        fx_list = np.array([agent.target.fitness for agent in self.pop], dtype=float)
+        if self.problem.minmax == "max":
+            fx_list = -fx_list      # Eq. (2) is stated for minimisation
         fit_list = fx_list.copy()
         for idx in range(0, self.pop_size):
             if fx_list[idx] < 0:
@@ -225,6 +227,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From 0a8902a025e7e6687e181356287894c95bca5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 027/170] fix: THRO no longer overwrites the solutions of its
 horses while training them

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..dbe5e2a 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_king[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 1b768f18f7542fc6c2c2e99d884a051eae8a8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 028/170] fix: TSeedA evaluates the corrected seed and works
 with a single seed

---
 mealpy/bio_based/TSeedA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..4e3f3ab 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,7 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From c5968ae28fad6ed93414e0d8ffa2e2908cfa683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 029/170] fix: WHO keeps the corrected solution it evaluated

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From a44ea15d119f76dce0deadd7046c266edfcf1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 030/170] fix: GA parents are copies and the second roulette
 parent is drawn among the others instead of in an endless loop

---
 mealpy/evolutionary_based/GA.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..a5da894 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -135,14 +135,13 @@ class BaseGA(Optimizer):
         """
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -161,14 +160,13 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +190,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
-- 
2.43.0


From 56861bbd911ff60733123f91e61cb64d7ec01977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 031/170] fix: the GA variants work with odd populations and
 below four dimensions

---
 mealpy/evolutionary_based/GA.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index a5da894..5909196 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -210,11 +210,12 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims-1))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            points = range(1, self.problem.n_dims-1) if self.problem.n_dims > 3 else range(0, self.problem.n_dims+1)
+            idxs = self.generator.choice(points, 2, replace=False)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
@@ -246,6 +247,8 @@ class BaseGA(Optimizer):
             np.array: The mutated vector of the child
         """
 
+        if self.problem.n_dims == 1 and self.mutation != "flip":
+            return child
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
@@ -305,7 +308,7 @@ class BaseGA(Optimizer):
         """
         list_fitness = np.array([agent.target.fitness for agent in self.pop])
         pop_new = []
-        for i in range(0, int(self.pop_size/2)):
+        for i in range(0, int(np.ceil(self.pop_size/2))):
             ### Selection
             child1, child2 = self.selection_process__(list_fitness)
 
@@ -428,6 +431,8 @@ class SingleGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        if self.problem.n_dims == 1 and self.mutation != "flip":
+            return child
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -680,6 +685,8 @@ class MultiGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        if self.problem.n_dims == 1 and self.mutation != "flip":
+            return child
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
                 idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-- 
2.43.0


From 484836b9bc2cc361d78f6048bb34de3b0c5d3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 032/170] fix: tournament selection draws at least as many
 candidates as it returns

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 1cdf470..ce1017f 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -707,7 +707,7 @@ class Optimizer:
             list: List of the selected indexes
         """
         if 0 < k_way < 1:
-            k_way = int(k_way * len(pop))
+            k_way = max(output, int(k_way * len(pop)))
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From 4372695c211dad21ee6c1753f60a473b10e332e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 033/170] fix: OriginalSA and GaussianSA stay inside the bounds

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From d80175181f8504087b1656ef33e97cc67da7fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 034/170] fix: PO corrects new positions and keeps the previous
 positions it refers to

---
 mealpy/human_based/PO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..3b491bc 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -171,7 +171,9 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            agent = self.generate_empty_agent(self.correct_solution(pos_new))
+            agent.target = self.pop[k].target
+            self.pop[k] = agent
 
         # Party Switching Phase
         for k in range(self.pop_size):
-- 
2.43.0


From 6b7091114916f95902c2651f8e59e8e36259f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 035/170] fix: CA stays inside the bounds and accepts at least
 one individual

---
 mealpy/human_based/CA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..55c95c6 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,11 +71,11 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
-- 
2.43.0


From f524a79be0f42383a9ab4c11713f9c4c9e764ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 036/170] fix: OriginalBRO corrects the position of a respawned
 soldier

---
 mealpy/human_based/BRO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..c4b88b2 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -223,6 +223,7 @@ class OriginalBRO(DevBRO):
                 self.pop[vic].damage = 0
             else:
                 pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
-- 
2.43.0


From 2a1086132691497e4ef6c93828f175e5c551db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 037/170] fix: OrcaOA keeps its best orca and restarts its
 radius in every run, OrcaPA stays inside the bounds and compares agents
 pairwise in parallel modes

---
 mealpy/swarm_based/ORCA.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..7f01464 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,9 +59,11 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
-        self.n_removes = int(self.p_percent * pop_size)
+
+    def initialize_variables(self):
+        self.R = self.R0
+        self.n_removes = int(self.p_percent * self.pop_size)
 
     def evolve(self, epoch: int):
         """
@@ -72,7 +74,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = np.abs(fit_list - self.g_best.target.fitness)
         e_min = np.min(e)
         e_max = np.max(e)
 
@@ -94,7 +96,7 @@ class OriginalOrcaOA(Optimizer):
                 if norm > 0:
                     direction /= norm
                 # Random position between R-d_i and R
-                r_dist = self.generator.uniform(self.R - d_list[idx], self.R)
+                r_dist = self.R - d_list[idx] * self.generator.random()
                 # Update position
                 pos_new = self.pop[0].solution + r_dist * direction
             else:
@@ -107,7 +109,7 @@ class OriginalOrcaOA(Optimizer):
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-        self.pop = pop_new
+        self.pop = [self.pop[0]] + pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
         self.R = self.R0 * (1. - epoch / self.epoch)
@@ -242,8 +244,8 @@ class OriginalOrcaPA(Optimizer):
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             for idx in range(self.pop_size):
-                if self.compare_target(pop_new[-1].target, self.pop[idx].target, self.problem.minmax):
-                    self.pop[idx] = pop_new[-1].copy()
+                if self.compare_target(pop_new[idx].target, self.pop[idx].target, self.problem.minmax):
+                    self.pop[idx] = pop_new[idx].copy()
                 else:
                     flag_attack[idx] = True
 
@@ -253,7 +255,7 @@ class OriginalOrcaPA(Optimizer):
                 if self.generator.random() < self.p2:
                     # Assign the minimum boundary value (lb) for some dimensions
                     cond = self.generator.random(self.problem.n_dims) < self.p2
-                    pos_new = np.where(cond, self.problem.lb, pop_chase[idx].solution)
+                    pos_new = self.correct_solution(np.where(cond, self.problem.lb, pop_chase[idx].solution))
                     self.pop[idx] = self.generate_agent(pos_new)
                 else:
                     self.pop[idx] = pop_chase[idx].copy()
-- 
2.43.0


From 7fa443754aaa6f8b953310c37ef38af91b35d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 038/170] fix: KLA moves towards better agents in both
 directions and never takes roots of negative ratios

---
 mealpy/physics_based/KLA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/KLA.py b/mealpy/physics_based/KLA.py
index b790453..6d91685 100644
--- a/mealpy/physics_based/KLA.py
+++ b/mealpy/physics_based/KLA.py
@@ -79,11 +79,13 @@ class OriginalKLA(Optimizer):
             q = (f_i - f_jj) / (np.abs(f_i - f_jj) + self.EPSILON)
             Q = (f_i - f_a) / (np.abs(f_i - f_a) + self.EPSILON)
             Q2 = (f_i - f_b) / (np.abs(f_i - f_b) + self.EPSILON)
+            if self.problem.minmax == "max":
+                q, Q, Q2 = -q, -Q, -Q2
 
             # Calculate random components
-            q1 = (f_jj / (f_i + self.EPSILON)) ** (2 * self.generator.random())
-            Q1 = (f_a / (f_i + self.EPSILON)) ** (2 * self.generator.random())
-            Q21 = (f_b / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            q1 = np.abs(f_jj / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            Q1 = np.abs(f_a / (f_i + self.EPSILON)) ** (2 * self.generator.random())
+            Q21 = np.abs(f_b / (f_i + self.EPSILON)) ** (2 * self.generator.random())
 
             # Calculate steps S1, S2, S3
             s1 = q1 * q * self.generator.random(self.problem.n_dims) * (self.pop[jj].solution - self.pop[idx].solution)
-- 
2.43.0


From b7fe5a357d32e8e7d130b8db4b1b7bf6c35d3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 039/170] fix: the DMOA variants prefer better alphas in both
 directions and no longer divide by zero

---
 mealpy/swarm_based/DMOA.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..5897570 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -88,10 +88,8 @@ class OriginalDMOA(Optimizer):
         ## Abandonment Counter
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
-        mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = self.get_index_roulette_wheel_selection(fit_list)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
@@ -111,7 +109,7 @@ class OriginalDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness)/np.max([agent.target.fitness, self.pop[idx].target.fitness])
+            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness) / (np.max(np.abs([agent.target.fitness, self.pop[idx].target.fitness])) + self.EPSILON)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
@@ -124,7 +122,7 @@ class OriginalDMOA(Optimizer):
         ## Next Mongoose position
         new_tau = np.mean(SM)
         for idx in range(0, self.pop_size):
-            M = SM[idx] * self.pop[idx].solution / self.pop[idx].solution
+            M = SM[idx]
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
             if new_tau > self.tau:
                 new_pos = self.pop[idx].solution - CF * phi * self.generator.random() * (self.pop[idx].solution - M)
@@ -198,12 +196,10 @@ class DevDMOA(Optimizer):
         ## Abandonment Counter
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
-        mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-            alpha = self.get_index_roulette_wheel_selection(fi)
+            alpha = self.get_index_roulette_wheel_selection(fit_list)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
             ## Define Vocalization Coeff.
             phi = (self.peep / 2) * self.generator.uniform(-1, 1, self.problem.n_dims)
@@ -225,7 +221,7 @@ class DevDMOA(Optimizer):
             new_pos = self.correct_solution(new_pos)
             agent = self.generate_agent(new_pos)
             ## Sleeping mould
-            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness) / (np.max([agent.target.fitness, self.pop[idx].target.fitness]) + self.EPSILON)
+            SM[idx] = (agent.target.fitness - self.pop[idx].target.fitness) / (np.max(np.abs([agent.target.fitness, self.pop[idx].target.fitness])) + self.EPSILON)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
             else:
-- 
2.43.0


From 207be52d6c9723dd09e591198d6fd49ca65924e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 040/170] fix: undefined coordinates of a new position are
 drawn again instead of being evaluated as NaN

---
 mealpy/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ce1017f..ec402b2 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -390,6 +390,9 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(solution)
+        if np.any(undefined):       # the update formula gave no number there (0/0, inf - inf): draw these coordinates again
+            solution = np.where(undefined, self.generator.uniform(self.problem.lb, self.problem.ub), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From bc241a23aefcf2f647937e225f05545cf22ea24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 041/170] fix: FLA keeps the size of its groups for every
 accepted C3 and C4

---
 mealpy/physics_based/FLA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index a2910f5..4a74ead 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -126,7 +126,7 @@ class OriginalFLA(Optimizer):
             tdo = self.C5 * tf - self.generator.random()
             if tdo < self.generator.random():
                 m1n, m2n = self.C3*self.n1, self.C4*self.n1
-                nt12 = int(np.round((m2n - m1n)*self.generator.random() + m1n))
+                nt12 = int(np.clip(np.round((m2n - m1n)*self.generator.random() + m1n), 0, self.n1))
                 for idx in range(0, nt12):
                     dfg = self.generator.integers(1, 3)
                     jj = -self.DD * (xm2 - xm1) / (np.linalg.norm(self.best2.solution - self.pop1[idx].solution) + self.EPSILON)
-- 
2.43.0


From cb5d4335b9dbd3534331d4305f1ed7ca09f3eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 042/170] fix: HCO gives up looking for a fitter initial agent
 after a bounded number of tries and no longer divides by zero

---
 mealpy/human_based/HCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..ecc2140 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -110,7 +110,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(self.pop_size):
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
@@ -133,7 +133,7 @@ class OriginalHCO(Optimizer):
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
         LL = (self.g_best.target.fitness - fit_mean)
-        VV = lamda * (ll / (4 * neu * LL))
+        VV = lamda * (ll / (4 * neu * LL)) if LL != 0 else np.zeros(self.pop_size)
         pop_new = []
         for idx in range(0, self.pop_size):
             a1 = self.pop_p[idx].solution - self.pop[idx].solution
-- 
2.43.0


From a4bab206efc31724fa4e809b5ba85a3121bb9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 043/170] fix: ETLBO corrects the positions that replace
 duplicates

---
 mealpy/human_based/TLO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..092d9be 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -122,6 +122,7 @@ class ETLBO(Optimizer):
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
             pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
+            pos_new = self.correct_solution(pos_new)
             self.pop[idx] = self.generate_agent(pos_new)
 
 
-- 
2.43.0


From c9a0f6a0189fef89d572893071c294d611a386e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 044/170] fix: C_PSO weighs particles and compares its local
 search in the direction of the problem, and no longer divides by zero

---
 mealpy/swarm_based/PSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 72890dd..ada54f4 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -601,6 +601,8 @@ class C_PSO(P_PSO):
         self.dyn_ub = self.problem.ub.copy()
 
     def get_weights__(self, fit, fit_avg, fit_min):
+        if fit_avg == fit_min:
+            return self.w_max
         temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_min) / (fit_avg - fit_min)
         if self.problem.minmax == "min":
             output = temp1 if fit <= fit_avg else self.w_max
@@ -620,7 +622,7 @@ class C_PSO(P_PSO):
         """
         list_fits = [agent.target.fitness for agent in self.pop]
         fit_avg = np.mean(list_fits)
-        fit_min = np.min(list_fits)
+        fit_min = np.min(list_fits) if self.problem.minmax == "min" else np.max(list_fits)
         for idx in range(self.pop_size):
             w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_min)
             v_new = w * self.pop[idx].velocity + self.c1 * self.generator.random() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
@@ -643,7 +645,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From 17ebcc1855f87812919ab9356b90f2f1333a3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 045/170] fix: IOBL_GWO and OGWO correct opposite positions,
 IOBL_GWO replaces its worst wolves

---
 mealpy/swarm_based/GWO.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..fe9ae23 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,15 +1020,15 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
         for idx in range(0, 3):
             if self.compare_target(obl_pop[idx].target, self.pop[indices[-3+idx]].target, self.problem.minmax):
-                self.pop[idx] = obl_pop[idx]
+                self.pop[indices[-3+idx]] = obl_pop[idx]
 
 
 class OGWO(Optimizer):
@@ -1098,7 +1098,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1142,7 +1142,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From d6f16ecd831779c36208b80ca95d18d101a5414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 046/170] fix: TSeedA works with a single seed

---
 mealpy/bio_based/TSeedA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index 4e3f3ab..55b87a4 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -87,7 +87,9 @@ class OriginalTSeedA(Optimizer):
             n_seeds = self.generator.integers(min_seeds, max_seeds + 1)
             
             pop_new = []
-            rdx_list = np.atleast_1d(self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True))
+            rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            if n_seeds == 1:
+                rdx_list = [rdx_list]
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
-- 
2.43.0


From 8ba1a9d77ca123e5c6c1dbae5c9438d33aa15bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 047/170] fix: ABFO keeps its parameters across runs and its
 population size, and accepts N_adapt=0

---
 mealpy/swarm_based/BFO.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 300a906..5dc3ab6 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -238,8 +238,8 @@ class ABFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.C_s = self.Ped = self.validator.check_float("C_s", C_s, (0, 2.0))
-        self.C_e = self.Ped = self.validator.check_float("C_e", C_e, (0, 1.0))
+        self.C_s = self.validator.check_float("C_s", C_s, (0, 2.0))
+        self.C_e = self.validator.check_float("C_e", C_e, (0, 1.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.N_adapt = self.validator.check_int("N_adapt", N_adapt, [0, 4])
@@ -249,8 +249,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_s = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_e = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -265,7 +265,8 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        ratio = pop[idx].target.fitness / total_fitness if total_fitness != 0 else 1.0 / len(pop)
+        step_size = self.step_s - (self.step_s - self.step_e) * ratio
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
@@ -293,13 +294,13 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(1, self.N_adapt))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(1, self.N_adapt)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
@@ -312,7 +313,7 @@ class ABFO(Optimizer):
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From 572fce0a327ae032bc3e7bb81add719bdcb0a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 048/170] fix: OriginalBFO keeps an odd population size and no
 longer puts the same bacterium into the population twice

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 5dc3ab6..c460f32 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -164,7 +164,7 @@ class OriginalBFO(Optimizer):
                     sum_nutrients += self.pop[idx].cost
                 self.pop[idx].nutrients = sum_nutrients
             cells = sorted(self.pop, key=lambda cell: cell.nutrients)
-            self.pop = cells[0:self.half_pop_size].copy() + cells[0:self.half_pop_size].copy()
+            self.pop = cells[0:self.half_pop_size] + [cell.copy() for cell in cells[0:self.pop_size - self.half_pop_size]]
             for idc in range(self.pop_size):
                 if self.generator.random() < self.p_eliminate:
                     self.pop[idc] = self.generate_agent()
-- 
2.43.0


From 0468434505878c24f5b7aa53fac678065e5c0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 049/170] fix: AdaptiveBA draws between its limits in whichever
 order they were given, as validated

---
 mealpy/swarm_based/BA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BA.py b/mealpy/swarm_based/BA.py
index 85a6d19..f855c99 100644
--- a/mealpy/swarm_based/BA.py
+++ b/mealpy/swarm_based/BA.py
@@ -186,8 +186,8 @@ class AdaptiveBA(Optimizer):
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
         velocity = self.generator.uniform(self.problem.lb, self.problem.ub)
-        loudness = self.generator.uniform(self.loudness_min, self.loudness_max)
-        pulse_rate = self.generator.uniform(self.pr_min, self.pr_max)
+        loudness = self.generator.uniform(*sorted((self.loudness_min, self.loudness_max)))
+        pulse_rate = self.generator.uniform(*sorted((self.pr_min, self.pr_max)))
         return Agent(solution=solution, velocity=velocity, loudness=loudness, pulse_rate=pulse_rate)
 
     def evolve(self, epoch):
@@ -201,7 +201,7 @@ class AdaptiveBA(Optimizer):
         pop_new = []
         for idx in range(0, self.pop_size):
             agent = self.pop[idx].copy()
-            pulse_frequency = self.generator.uniform(self.pf_min, self.pf_max)
+            pulse_frequency = self.generator.uniform(*sorted((self.pf_min, self.pf_max)))
             agent.velocity = agent.velocity + pulse_frequency * (self.pop[idx].solution - self.g_best.solution)
             x_new = self.pop[idx].solution + agent.velocity
             ## Local Search around g_best position
-- 
2.43.0


From 781b72c216a451daf4e465c676e953a7132dad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 050/170] fix: the EFO variants accept every valid p_field and
 n_field

---
 mealpy/physics_based/EFO.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..3f6a5c9 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,15 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def get_field_limits__(self) -> tuple:
+        """
+        Returns:
+            First index of the middle field and first index of the bottom field, both inside the population
+        """
+        top = min(int((self.pop_size * self.p_field) + 1), self.pop_size - 1)
+        bottom = min(int(self.pop_size * (1 - self.n_field)), self.pop_size - 1)
+        return top, bottom
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -87,9 +96,10 @@ class DevEFO(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
-            r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            top, bottom = self.get_field_limits__()
+            r_idx1 = self.generator.integers(0, max(1, int(self.pop_size * self.p_field)))  # top
+            r_idx2 = self.generator.integers(bottom, self.pop_size)  # bottom
+            r_idx3 = self.generator.integers(top, max(top + 1, bottom))  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +198,12 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        top, bottom = self.get_field_limits__()
+        self.r_index1 = self.generator.integers(0, max(1, int(self.pop_size * self.p_field)), (self.problem.n_dims, self.epoch))
         # random particles from positive field
-        self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
+        self.r_index2 = self.generator.integers(bottom, self.pop_size, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(top, max(top + 1, bottom), (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From 2dea08a6e2292a8149a9cb23112d6a2615ee7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 051/170] fix: the GSKA variants accept every valid pb

---
 mealpy/human_based/GSKA.py | 40 ++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..43d6e8e 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -70,6 +70,20 @@ class DevGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kr"])
         self.sort_flag = True
 
+    def choose_member__(self, start: int, stop: int, idx: int) -> int:
+        """
+        Args:
+            start (int): first index of the group
+            stop (int): index behind the group
+            idx (int): the current agent, chosen only when the group has no other member
+
+        Returns:
+            Index of a random member of the group (of the agent next to it if the group is empty)
+        """
+        start = min(start, self.pop_size - 1)
+        members = list(range(start, max(start + 1, stop)))
+        return self.generator.choice(list(set(members) - {idx}) or members)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -104,9 +118,9 @@ class DevGSKA(Optimizer):
                 if self.generator.uniform() <= self.kr:
                     id1 = int(self.pb * self.pop_size)
                     id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    rand_best = self.choose_member__(0, id1, idx)
+                    rand_worst = self.choose_member__(id2, self.pop_size, idx)
+                    rand_mid = self.choose_member__(id1, id2, idx)
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -196,6 +210,20 @@ class OriginalGSKA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "pb", "kf", "kr", "kg"])
         self.sort_flag = True
 
+    def choose_member__(self, start: int, stop: int, idx: int) -> int:
+        """
+        Args:
+            start (int): first index of the group
+            stop (int): index behind the group
+            idx (int): the current agent, chosen only when the group has no other member
+
+        Returns:
+            Index of a random member of the group (of the agent next to it if the group is empty)
+        """
+        start = min(start, self.pop_size - 1)
+        members = list(range(start, max(start + 1, stop)))
+        return self.generator.choice(list(set(members) - {idx}) or members)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -234,9 +262,9 @@ class OriginalGSKA(Optimizer):
                     if self.generator.uniform() <= self.kr:
                         id1 = int(self.pb * self.pop_size)
                         id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        rand_best = self.choose_member__(0, id1, idx)
+                        rand_worst = self.choose_member__(id2, self.pop_size, idx)
+                        rand_mid = self.choose_member__(id1, id2, idx)
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From bd93b5bd151ed2985a378653b8f1c80cf533c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 052/170] fix: DevHS works with negative upper bounds

---
 mealpy/music_based/HS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
-- 
2.43.0


From f30ea1f06062933042d4467d09ff48c01a194aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 053/170] fix: DevSMO works with groups of different sizes and
 weighs monkeys by the direction

---
 mealpy/swarm_based/SMO.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..d1af3ab 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -123,7 +123,7 @@ class DevSMO(Optimizer):
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}) or [idx], size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -140,24 +140,27 @@ class DevSMO(Optimizer):
         # Calculate selection probabilities
         list_fits = np.array([agent.target.fitness for group in self.groups for agent in group])
         # Calculate fitness using formula from paper
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         fitness = np.where(list_fits >= 0, 1 / (1 + list_fits), 1 + np.abs(list_fits))
 
         max_fitness = np.max(fitness)
         prob = 0.9 * (fitness / max_fitness) + 0.1
 
         for group_idx, group in enumerate(self.groups):
+            start = sum(len(self.groups[jdx]) for jdx in range(group_idx))
             attempts = 0
             while attempts < self.group_size:
                 for idx, agent in enumerate(group):
                     if attempts >= self.group_size:
                         break
-                    prob_idx = idx + group_idx * self.group_size
+                    prob_idx = idx + start
                     if self.generator.uniform(0, 1) < prob[prob_idx]:
                         attempts += 1
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(list(set(range(len(group))) - {idx}) or [idx])
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
@@ -218,7 +221,7 @@ class DevSMO(Optimizer):
         # Update global leader
         g_best_current = self.get_sorted_population(self.pop, self.problem.minmax)[0][0]
         if self.compare_target(g_best_current.target, self.g_best.target, self.problem.minmax):
-            self.g_best = g_best_current
+            self.g_best = g_best_current.copy()
             # Update global limit count
             self.global_limit_count = 0
         else:
-- 
2.43.0


From dce7a416295f6ab43e51c71cade7cbf1b0579248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 054/170] fix: DS_GWO works when more groups than wolves are
 asked for

---
 mealpy/swarm_based/GWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index fe9ae23..840673a 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -881,12 +881,13 @@ class DS_GWO(Optimizer):
         4. Set delta candidate farthest from alpha as beta
         """
         # Divide population into n_groups
-        group_size = self.pop_size // self.n_groups
+        n_groups = min(self.n_groups, self.pop_size)
+        group_size = self.pop_size // n_groups
         self.delta_candidates = []
 
-        for idx in range(self.n_groups):
+        for idx in range(n_groups):
             start_idx = idx * group_size
-            if idx == self.n_groups - 1:  # Last group takes remaining wolves
+            if idx == n_groups - 1:  # Last group takes remaining wolves
                 end_idx = self.pop_size
             else:
                 end_idx = (idx + 1) * group_size
-- 
2.43.0


From a751e82883dc9757e6a5917b72be6ef610a614ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 055/170] fix: DevSSpiderA works in the parallel modes

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index d797d3b..0771f37 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -137,7 +137,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 40fb30838c76fd6000fe288afb3870ca8fe08fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 056/170] fix: the BSO variants work when the population is not
 a multiple of the clusters

---
 mealpy/human_based/BSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..71476c1 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -97,7 +97,7 @@ class ImprovedBSO(Optimizer):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
 
@@ -209,7 +209,7 @@ class OriginalBSO(ImprovedBSO):
             idx = self.generator.integers(0, self.m_clusters)
             self.centers[idx] = self.generate_agent()
         pop_group = self.pop_group
-        for idx in range(0, self.pop_size):  # Generate new individuals
+        for idx in range(0, self.m_clusters * self.m_solution):  # Generate new individuals
             cluster_id = int(idx / self.m_solution)
             location_id = int(idx % self.m_solution)
             if self.generator.uniform() < self.p2:  # p_6b
-- 
2.43.0


From df18d41a9c9acb564b643d92cc695d5dab56adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 057/170] fix: ImprovedNMRA works in one dimension

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..ce70a55 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -147,7 +147,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims / 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From bb8734016939e96bd537d96d46f4aa79e790fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 058/170] fix: the CRO variants work in one dimension

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f7e4596 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,7 +119,7 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
-        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
+        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=len(pos1) < 2)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
         return self.correct_solution(pos_new)
-- 
2.43.0


From 86f8b94b6ae44344d1e186452135abaa8c522043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 059/170] fix: the depredation of the CRO variants removes the
 worst corals in both directions and none when none are to be removed

---
 mealpy/evolutionary_based/CRO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index f7e4596..4b1b921 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -142,7 +142,7 @@ class OriginalCRO(Optimizer):
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
             return self.pop[idx].target.fitness
-        return sorted(self.occupied_idx_list, key=reef_fitness)
+        return sorted(self.occupied_idx_list, key=reef_fitness, reverse=self.problem.minmax == "max")
 
     def broadcast_spawning_brooding__(self):
         # Step 1a
@@ -185,7 +185,7 @@ class OriginalCRO(Optimizer):
         if self.generator.random() < self.dyn_Pd:
             num__depredation__ = int(len(self.occupied_idx_list) * self.Fd)
             idx_list_sorted = self.sort_occupied_reef__()
-            selected_depredator = idx_list_sorted[-num__depredation__:]
+            selected_depredator = idx_list_sorted[len(idx_list_sorted) - num__depredation__:]
             self.occupied_idx_list = np.setdiff1d(self.occupied_idx_list, selected_depredator)
             for idx in selected_depredator:
                 self.occupied_list[idx] = 0
@@ -313,7 +313,7 @@ class OCRO(OriginalCRO):
         if self.generator.random() < self.dyn_Pd:
             num__depredation__ = int(len(self.occupied_idx_list) * self.Fd)
             idx_list_sorted = self.sort_occupied_reef__()
-            selected_depredator = idx_list_sorted[-num__depredation__:]
+            selected_depredator = idx_list_sorted[len(idx_list_sorted) - num__depredation__:]
             for idx in selected_depredator:
                 ### Using opposition-based leanring
                 pos_oppo = self.generate_opposition_solution(self.pop[idx], self.g_best)
-- 
2.43.0


From d5fbac3e965eef67c747ca06ffbee04c667a5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 060/170] fix: OriginalCDDO works with fractional bounds and
 with patterns larger than the population

---
 mealpy/human_based/CDDO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index b56df44..6f88ea2 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -109,7 +109,7 @@ class OriginalCDDO(Optimizer):
         # Pattern matrix
         _, pattern, _ = self.get_special_agents(self.pop, n_best=self.pattern_size, minmax=self.problem.minmax)
         for idx in range(0, self.pop_size):
-            hand_pressure = self.generator.integers(self.problem.lb[0], self.problem.ub[0] + 1)
+            hand_pressure = self.generator.integers(int(np.floor(self.problem.lb[0])), int(np.floor(self.problem.ub[0])) + 1)
             pp = self.generator.integers(0, self.problem.n_dims)
             pos_new = self.pop[idx].solution.copy()
             if self.pop[idx].solution[pp] <= hand_pressure:
@@ -122,7 +122,7 @@ class OriginalCDDO(Optimizer):
                 self.SR = self.generator.integers(6, 11) / 10
             elif 1.5 < self.list_gr[idx] < 2:
                 # Consider the learnt patterns
-                pos_new = pattern[self.generator.integers(0, self.pattern_size)].solution - self.creativity_rate * self.pop_local[idx].solution
+                pos_new = pattern[self.generator.integers(0, len(pattern))].solution - self.creativity_rate * self.pop_local[idx].solution
                 self.LR = self.generator.integers(0, 6) / 10
                 self.SR = self.generator.integers(0, 6) / 10
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From dfb316692ac9dbf7d751f7ccf2d3019dbdfbf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 061/170] fix: OriginalCOA works with two coyotes per pack

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..0072931 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -101,7 +101,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From 87de6359ab35035c3cc3263c1bb0e5b498372876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 062/170] fix: the tournament of OriginalCSO works with small
 memory pools

---
 mealpy/swarm_based/CSO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CSO.py b/mealpy/swarm_based/CSO.py
index 5415e64..a44a811 100644
--- a/mealpy/swarm_based/CSO.py
+++ b/mealpy/swarm_based/CSO.py
@@ -138,8 +138,8 @@ class OriginalCSO(Optimizer):
         if self.selected_strategy == 0:  # Best fitness-self
             cat, _ = self.get_best_agent(candidate_cats, self.problem.minmax)
         elif self.selected_strategy == 1:  # Tournament
-            k_way = 4
-            idx = self.generator.choice(range(0, self.smp), k_way, replace=False)
+            k_way = min(4, len(candidate_cats))
+            idx = self.generator.choice(range(0, len(candidate_cats)), k_way, replace=False)
             cats_k_way = [candidate_cats[_] for _ in idx]
             cat, _ = self.get_best_agent(cats_k_way, self.problem.minmax)
         elif self.selected_strategy == 2:  ### Roul-wheel selection
-- 
2.43.0


From af23d1e6ea94a6ac84c4cc3e9fd69a58c45e0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 063/170] fix: OriginalDOA uses the bounds of the coordinate it
 changes and works in a few dimensions

---
 mealpy/human_based/DOA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..fa3a44a 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -93,7 +93,7 @@ class OriginalDOA(Optimizer):
                 # Calculate k for current group
                 aa = max(1, np.ceil(self.problem.n_dims / 8 / (m + 1)))
                 bb = np.ceil(self.problem.n_dims / 3 / (m + 1)) + 1
-                kk = self.generator.integers(aa, bb)
+                kk = min(self.generator.integers(aa, bb), self.problem.n_dims)
                 # Group indices
                 group_start = int((m / 5) * self.pop_size)
                 group_end = int(((m + 1) / 5) * self.pop_size)
@@ -134,12 +134,12 @@ class OriginalDOA(Optimizer):
             pop_new = []
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
-                k = self.generator.integers(2, km + 1)
+                k = min(self.generator.integers(2, km + 1), self.problem.n_dims)
                 in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From 4006d792cf3d557bf80331273ff4f44b74bf3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 064/170] fix: OriginalDandelionO works with a single epoch

---
 mealpy/swarm_based/DandelionO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/DandelionO.py b/mealpy/swarm_based/DandelionO.py
index fb00f9a..d1cb443 100644
--- a/mealpy/swarm_based/DandelionO.py
+++ b/mealpy/swarm_based/DandelionO.py
@@ -72,7 +72,7 @@ class OriginalDandelionO(Optimizer):
         alpha = self.generator.random() * ((epoch / self.epoch)**2 - 2.0 * epoch / self.epoch + 1)
 
         # Eq. (11) Local search domain factor k
-        aa = 1.0 / (self.epoch ** 2 - 2 *self.epoch + 1)
+        aa = 1.0 / max(1, self.epoch ** 2 - 2 * self.epoch + 1)
         bb = -2 * aa
         cc = 1 - aa - bb
         kk = 1 - self.generator.random() * (cc + aa*epoch**2 + bb * epoch)
-- 
2.43.0


From 74d7d83da1d2fc8d8fee9ea91b3a85a1d21c32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 065/170] fix: OriginalEHO works when the population is not a
 multiple of the clans

---
 mealpy/swarm_based/EHO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..7b10a0a 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -87,7 +87,8 @@ class OriginalEHO(Optimizer):
         """
         # Clan updating operator
         pop_new = []
-        for idx in range(0, self.pop_size):
+        n_members = self.n_clans * self.n_individuals   # elephants left over stay outside the clans
+        for idx in range(0, n_members):
             clan_idx = int(idx / self.n_individuals)
             pos_clan_idx = int(idx % self.n_individuals)
             if pos_clan_idx == 0:  # The best in clan, because all clans are sorted based on fitness
@@ -104,10 +105,10 @@ class OriginalEHO(Optimizer):
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-            self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
+            self.pop[:n_members] = self.greedy_selection_population(self.pop[:n_members], pop_new, self.problem.minmax)
         self.pop_group = self.generate_group_population(self.pop, self.n_clans, self.n_individuals)
         # Separating operator
         for idx in range(0, self.n_clans):
             self.pop_group[idx], _ = self.get_sorted_population(self.pop_group[idx], self.problem.minmax)
             self.pop_group[idx][-1] = self.generate_agent()
-        self.pop = [agent for pack in self.pop_group for agent in pack]
+        self.pop = [agent for pack in self.pop_group for agent in pack] + self.pop[n_members:]
-- 
2.43.0


From 122f8ed85242f482fd1a32c515590c9d3ce9eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 066/170] fix: OriginalEVO works with integer encoded solutions

---
 mealpy/physics_based/EVO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/EVO.py b/mealpy/physics_based/EVO.py
index 8aef286..17bc52d 100644
--- a/mealpy/physics_based/EVO.py
+++ b/mealpy/physics_based/EVO.py
@@ -81,8 +81,8 @@ class OriginalEVO(Optimizer):
             eb = np.mean(fit_list)
             sl = (fit_list[idx] - self.g_best.target.fitness) / (self.g_worst.target.fitness - self.g_best.target.fitness + self.EPSILON)
 
-            pos_new1 = self.pop[idx].solution.copy()
-            pos_new2 = self.pop[idx].solution.copy()
+            pos_new1 = self.pop[idx].solution.astype(float)
+            pos_new2 = self.pop[idx].solution.astype(float)
             if self.compare_fitness(eb, self.pop[idx].target.fitness, self.problem.minmax):
                 if self.generator.random() > sl:
                     a1_idx = self.generator.integers(self.problem.n_dims)
-- 
2.43.0


From b48cb378c2ad90ade6b7f8445bd7109e03b6ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 067/170] fix: the empires of OriginalICA really hand over
 their weakest colonies, and small or collapsed empires no longer break a run

---
 mealpy/human_based/ICA.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..bd980d9 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -96,6 +96,18 @@ class OriginalICA(Optimizer):
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
+    def get_power__(self, cost_list: np.ndarray) -> np.ndarray:
+        """
+        Args:
+            cost_list (np.ndarray): the cost of every empire
+
+        Returns:
+            The power of every empire, as shares that add up to 1
+        """
+        power = np.max(cost_list) + np.min(cost_list) - cost_list
+        total = np.sum(power)
+        return np.abs(power / total) if total != 0 else np.full(len(cost_list), 1.0 / len(cost_list))
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
@@ -109,14 +121,13 @@ class OriginalICA(Optimizer):
         self.pop_colonies = [agent.copy() for agent in self.pop[self.empire_count:]]
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
-        cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        prob_empires_list = self.get_power__(cost_empires_list)
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = min(int(round(prob_empires_list[i] * colony_count)), colony_count - len(idx_already_selected))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
@@ -171,21 +182,24 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * (np.mean(fit_list) if len(fit_list) > 0 else 0)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
-        cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))  # Vector P
+        prob_empires_list = self.get_power__(cost_empires_list)  # Vector P
         uniform_list = self.generator.uniform(0, 1, len(prob_empires_list))  # Vector R
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
         # Find the weakest empire and weakest colony inside it
-        idx_weakest_empire = np.argmax(cost_empires_list)
+        idx_weakest_empire = np.argmax(cost_empires_list) if self.problem.minmax == "min" else np.argmin(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
-            colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
-            self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
+            self.empires[idx_weakest_empire], _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
+            self.empires[idx_empire].append(self.empires[idx_weakest_empire].pop(-1))
+        else:   # The empire has collapsed
             self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
-
-        self.pop = self.pop_empires + self.pop_colonies
+            if idx_empire != idx_weakest_empire:
+                del self.empires[idx_weakest_empire]
+                self.empires = dict(enumerate(self.empires.values()))
+            else:
+                self.pop_empires.insert(idx_weakest_empire, self.empires[idx_empire].pop(-1))
+        self.pop = self.pop_empires + [colony for colonies in self.empires.values() for colony in colonies]
-- 
2.43.0


From 2da1d9130ad34bd9289d25e4444c7584b19fde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 068/170] fix: OriginalILA draws between its limits in
 whichever order they were given, as validated

---
 mealpy/human_based/ILA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/ILA.py b/mealpy/human_based/ILA.py
index cb7c745..09082df 100644
--- a/mealpy/human_based/ILA.py
+++ b/mealpy/human_based/ILA.py
@@ -159,9 +159,9 @@ class OriginalILA(Optimizer):
             r_p = self.normalize(p_i)
 
             for idx, real_idx in enumerate(group_indices):
-                b_c = self.generator.uniform(self.b_min, self.b_max)
-                b_p = self.generator.uniform(self.b_min, self.b_max)
-                b_d = self.generator.uniform(self.b_min, self.b_max)
+                b_c = self.generator.uniform(*sorted((self.b_min, self.b_max)))
+                b_p = self.generator.uniform(*sorted((self.b_min, self.b_max)))
+                b_d = self.generator.uniform(*sorted((self.b_min, self.b_max)))
 
                 e_i = self.experts[real_idx]
                 e_r = group_experts[self.generator.integers(len(group_experts))]
@@ -217,9 +217,9 @@ class OriginalILA(Optimizer):
         r_p = self.normalize(p_i)
 
         for idx in range(self.pop_size):
-            b_c = self.generator.uniform(self.b_min, self.b_max)
-            b_p = self.generator.uniform(self.b_min, self.b_max)
-            b_d = self.generator.uniform(self.b_min, self.b_max)
+            b_c = self.generator.uniform(*sorted((self.b_min, self.b_max)))
+            b_p = self.generator.uniform(*sorted((self.b_min, self.b_max)))
+            b_d = self.generator.uniform(*sorted((self.b_min, self.b_max)))
 
             e_i = self.experts[idx]
             e_r = self.experts[self.generator.integers(self.pop_size)]
-- 
2.43.0


From 2a6832b0740f515d953078b5d918f78dd2c7b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 069/170] fix: OriginalLSHADEcnEpSin works in one dimension and
 with a minimum population above the population size

---
 mealpy/sota_based/LSHADEcnEpSin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 84c4f4b..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
-- 
2.43.0


From e6f0cb57a25f9b21a91d8c3eafb9f8e1af1af81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 070/170] fix: OriginalMA works with odd populations

---
 mealpy/evolutionary_based/MA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index 5915507..b9c8a60 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -176,9 +176,10 @@ class OriginalMA(Optimizer):
             children.append(self.pop[idx_offspring].copy())
         pop = []
         for idx in range(0, self.pop_size):
-            ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             if idx == self.pop_size - 1:
                 ancient = children[0]
+            else:
+                ancient = children[idx + 1] if idx % 2 == 0 else children[idx - 1]
             bitstring_new = self.crossover__(children[idx].bitstring, ancient.bitstring)
             bitstring_new = self.point_mutation__(bitstring_new)
             pos_new = self.decode__(bitstring_new)
-- 
2.43.0


From 754d82b58e248d39103d1cf1be8e43485b48574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 071/170] fix: OriginalNRO takes one Levy step per coordinate

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From 7820c47ae158b411d59b6a5cc6dd1d7bc2e14cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 072/170] fix: OriginalSFO never changes more coordinates than
 there are

---
 mealpy/swarm_based/SFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..4b07531 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -107,7 +107,7 @@ class OriginalSFO(Optimizer):
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
-            beta = int(self.problem.n_dims * np.abs(AP))
+            beta = min(int(self.problem.n_dims * np.abs(AP)), self.problem.n_dims)
             ### Random self.generator.choice number of sardines which will be updated their position
             list1 = self.generator.choice(range(0, self.s_size), alpha)
             for idx in range(0, self.s_size):
-- 
2.43.0


From 27469e2728278389ccf936f267b3754636a342dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 073/170] fix: OriginalSHO works with more trials than hyenas

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..42bd420 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -97,6 +97,7 @@ class OriginalSHO(Optimizer):
                         N += 1
                         break
                     N += 1
+                N = min(N, self.pop_size)
                 circle_list = []
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
-- 
2.43.0


From 5d7410df53b51e761fc7140d274e401de3e78e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 074/170] fix: the second phase of OriginalSOO no longer mixes
 in the agents of the first one in parallel modes

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..ff95cd4 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -119,6 +119,7 @@ class OriginalSOO(Optimizer):
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
 
         # Get top 3 stars
+        pop_new = []
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
-- 
2.43.0


From 3d33dd767f115015fd9d487046b38e32c7a6d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 075/170] fix: OriginalSRSR works with negative upper bounds

---
 mealpy/swarm_based/SRSR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 49649bf..143261a 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -136,8 +136,8 @@ class OriginalSRSR(Optimizer):
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-        if self.SIF > np.max(self.problem.ub):
-            self.SIF = np.max(self.problem.ub) * self.generator.uniform()
+        if self.SIF > np.max(np.abs(self.problem.ub)):
+            self.SIF = np.max(np.abs(self.problem.ub)) * self.generator.uniform()
 
         # ========================================================================================= %%
         #            Phase 2 (Exploration): Moving Slave Robots Toward Master Robot                   %
-- 
2.43.0


From cf461dbfea729faf6851e4797857143a8c5ec88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 076/170] fix: OriginalSquirrelSA relocates squirrels when the
 season changes and works with one or many food sources

---
 mealpy/swarm_based/SquirrelSA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..5f55f3f 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -88,7 +88,8 @@ class OriginalSquirrelSA(Optimizer):
         self.surface_area = 154e-4  # Surface area (m²)
         self.height_loss = 8  # Height loss during gliding (m)
         # Assign roles: 1 hickory, 3 acorn, rest normal trees
-        self.n_acorn_trees = self.n_food_sources - 1  # Number of acorn trees
+        self.n_food = min(self.n_food_sources, self.pop_size - 1)
+        self.n_acorn_trees = self.n_food - 1  # Number of acorn trees
 
     def calculate_gliding_distance(self):
         """Calculate gliding distance based on aerodynamics"""
@@ -134,13 +135,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Case 2: Normal squirrels move toward acorn trees
-        indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
+        indices_random = np.array(list(range(self.pop_size - self.n_food)))
         self.generator.shuffle(indices_random)
-        indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        indices_random = indices_random + self.n_food # True indices of normal squirrels
+        n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_food - 1))
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
-            jdx = self.generator.integers(0, self.n_acorn_trees) + 1
+            jdx = self.generator.integers(0, max(1, self.n_acorn_trees)) + 1
             d_g = self.calculate_gliding_distance()
             if self.generator.random() >= self.predator_prob:
                 # No predator: move toward acorn
@@ -170,13 +171,13 @@ class OriginalSquirrelSA(Optimizer):
             pop_new[idx] = agent
 
         # Seasonal monitoring condition
-        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, self.n_food_sources) ])
+        S_c = np.mean([ np.sqrt(np.sum((self.pop[idx].solution - self.pop[0].solution)**2)) for idx in range(1, max(2, self.n_food)) ])
         # Calculate minimum seasonal constant
         S_min = (10e-6 / 365) * (epoch / (self.epoch / 2.5))
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From 073f3bd92881d74cc35409c00a546503f55fbe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 077/170] fix: OriginalTS goes on from a random position when
 every neighbour is tabu

---
 mealpy/math_based/TS.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..73fe096 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -105,6 +105,11 @@ class OriginalTS(Optimizer):
             list_candidates.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
+        if len(list_candidates) == 0:   # All neighbours are known, go on from somewhere else
+            agent = self.generate_empty_agent()
+            list_candidates.append(agent)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
         list_candidates = self.update_target_for_population(list_candidates)
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
-- 
2.43.0


From cf105fefe9bdea67785f4efe91abbb7a27bf0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 078/170] fix: OriginalWCA works with rivers that have no
 streams

---
 mealpy/system_based/WCA.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..d1caffd 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,14 +96,17 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
+        total_cost = np.sum(cost_river_list)
+        ratios = np.abs(cost_river_list / total_cost) if total_cost != 0 else np.full(self.nsr, 1.0 / self.nsr)
+        num_child_in_river_list = np.round(np.minimum(ratios, 1.0) * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
         streams = {}
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)),
+                                             min(num_child_in_river_list[i], n_stream - len(idx_already_selected)), replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
@@ -133,9 +136,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 1f8e8e2e403f86d706f9712f7dd380deb1aa360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 079/170] fix: OriginalPSS samples with the seeded generator
 and accepts the MC sampling

---
 mealpy/math_based/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..9879c74 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,9 +75,9 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
-- 
2.43.0


From ff4a23cf508fb493a8eba8772b49a5d953752212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 080/170] fix: OriginalCDDO imports numpy for its bounds

---
 mealpy/human_based/CDDO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/CDDO.py b/mealpy/human_based/CDDO.py
index 6f88ea2..cb7a025 100644
--- a/mealpy/human_based/CDDO.py
+++ b/mealpy/human_based/CDDO.py
@@ -4,6 +4,7 @@
 #       Github: https://github.com/thieu1995        %                         
 # --------------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
-- 
2.43.0


From 79105bbef97976b6f7a73c20424a5020c822f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 081/170] fix: OriginalNRO works in one dimension

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..47b4ebe 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = np.atleast_1d(self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1))
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From 0c3f7219d130a67a249c80a2cddb4d7d330a24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 082/170] fix: the AO variants work with a single epoch

---
 mealpy/swarm_based/AO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/AO.py b/mealpy/swarm_based/AO.py
index 5152d10..fab3078 100644
--- a/mealpy/swarm_based/AO.py
+++ b/mealpy/swarm_based/AO.py
@@ -79,7 +79,7 @@ class OriginalAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
         for idx in range(0, self.pop_size):
             x_mean = np.mean(np.array([agent.solution for agent in self.pop]), axis=0)
@@ -182,7 +182,7 @@ class AAO(Optimizer):
         phi = -w * dim_list + phi0
         x = r * np.sin(phi)  # Eq.(9)
         y = r * np.cos(phi)  # Eq.(10)
-        QF = epoch ** ((2 * self.generator.random() - 1) / (1 - self.epoch) ** 2)  # Eq.(15)        Quality function
+        QF = epoch ** ((2 * self.generator.random() - 1) / max(1, (1 - self.epoch) ** 2))  # Eq.(15)        Quality function
         pop_new = []
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 96b9e5176225d085f79e6bf8e1a789429375c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 083/170] fix: OriginalNO works when its deviation passes
 through -1

---
 mealpy/swarm_based/NWOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NWOA.py b/mealpy/swarm_based/NWOA.py
index fd2d876..78ab5b0 100644
--- a/mealpy/swarm_based/NWOA.py
+++ b/mealpy/swarm_based/NWOA.py
@@ -298,7 +298,7 @@ class OriginalNO(Optimizer):
             SP = SE * PR
             # Calculate the step delta
             r1 = self.generator.random()
-            beta = r1 - (1.0 / (sigma_t + 1.0))
+            beta = r1 - (1.0 / ((sigma_t + 1.0) or self.EPSILON))
             delta = beta * np.abs(SP * self.g_best.solution - self.pop[idx].solution)
             # Update the position of the current narwhal
             pos_new = self.pop[idx].solution + delta
-- 
2.43.0


From b67729efbdebe290dd3e34dc04cd0f79847e84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 084/170] fix: OriginalSquirrelSA works with beta=0

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 5f55f3f..2f605c8 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -180,7 +180,7 @@ class OriginalSquirrelSA(Optimizer):
             n_relocate = max(1, (self.pop_size - self.n_food) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
-                levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
+                levy = self.get_levy_flight_step(beta = max(self.beta, 0.01), multiplier = 0.01, size = self.problem.n_dims, case = -1)
                 pos_new = self.problem.lb + levy * (self.problem.ub - self.problem.lb)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From e9ca7339cffb2bdbbf5f7dd7f8f0bb2e99a96b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 085/170] fix: QleSCA works when all agents are at the same
 place

---
 mealpy/math_based/SCA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/SCA.py b/mealpy/math_based/SCA.py
index e209657..bc3d123 100644
--- a/mealpy/math_based/SCA.py
+++ b/mealpy/math_based/SCA.py
@@ -198,8 +198,8 @@ class QTable:
         self.epsilon = 0.1
 
     def get_state(self, density, distance):
-        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1])
-        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1])
+        density_range = next(i for i, r in enumerate(self.density_ranges) if density <= r[1] or i == 2)
+        distance_range = next(i for i, r in enumerate(self.distance_ranges) if distance <= r[1] or i == 2)
         return density_range * 3 + distance_range
 
     def get_action(self, state):
@@ -296,6 +296,8 @@ class QleSCA(DevSCA):
         distances = np.sqrt(np.sum((agents[:, np.newaxis, :] - agents) ** 2, axis=-1))
         L = np.max(distances)
         # calculate the density
+        if L == 0:
+            return 0.0
         return 1 / (len(pop) * L) * np.sum(np.sqrt(np.sum((agents - Y) ** 2, axis=1)))
 
     def distance__(self, best, pop, lb, ub):
-- 
2.43.0


From 42bdc7ba720c82af0b4bd70776ef2ca113d26d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 086/170] fix: the CHIO variants work without immune or
 susceptible cases and follow the best immune case in both directions

---
 mealpy/human_based/CHIO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..78df67e 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,12 +95,16 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        continue
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -214,8 +218,10 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    idx_selected = idx_candidates[0][np.argmin(fit_list) if self.problem.minmax == "min" else np.argmax(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From 49a9627cd8760a5cd263fc99c904bea43815b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 087/170] fix: JADE works with a share of top agents below one
 agent

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index d57e1b6..0783598 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From 50dc4294f571c4b314690eb343f59d3b7d6edbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 088/170] fix: OriginalCSA corrects the positions of new nests

---
 mealpy/swarm_based/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From 376db1e1c55e78f7bb269004fd64d1e4545f03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 089/170] fix: BeesA restarts its dance radius on every run
 instead of continuing the decay of the previous run

---
 mealpy/swarm_based/BeesA.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index b8fb991..f8e1db0 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -213,6 +213,9 @@ class OriginalBeesA(Optimizer):
         self.n_elite_bees_local = max(1, int(round(self.elite_site_bee_ratio * self.n_selected_bees_local)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
         position = position.copy()
@@ -328,6 +331,9 @@ class ProbBeesA(Optimizer):
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
 
+    def initialize_variables(self):
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
         position = position.copy()
-- 
2.43.0


From db81ae364127355a91add08a7d2f683c2268b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 090/170] fix: OriginalDBO no longer starts a run from the
 previous positions of an earlier run

---
 mealpy/swarm_based/DBO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..d78386a 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -71,6 +71,9 @@ class OriginalDBO(Optimizer):
         # Previous positions x(t−1), used in rolling behavior
         self._prev_positions = None
 
+    def initialize_variables(self):
+        self._prev_positions = None
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From c037480f59db06b9687ed4c6343fc363ac398cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 091/170] fix: SAP_DE starts every run with the configured
 population size

---
 mealpy/evolutionary_based/DE.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 0783598..c86bdbf 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -487,6 +487,10 @@ class SAP_DE(Optimizer):
         self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        # The size of the population changes along a run, so that each run has to start from the configured value
+        self.pop_size = self.fixed_pop_size = self.parameters["pop_size"]
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From 2b0a55172a52158687d2b785003f3ee9fc32e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 092/170] fix: OriginalBFO takes its step size Ci as the float
 it is instead of truncating it to 0

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c460f32..da400b2 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From 7773d1cce49228d7c5a4e1a395a62782214d184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 093/170] fix: OriginalPO reports the pop_size it was given,
 not its square

---
 mealpy/human_based/PO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index 3b491bc..fa1a819 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -66,10 +66,11 @@ class OriginalPO(Optimizer):
         """
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
-        self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
-        self.pop_size = self.pop_n ** 2
+        self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 100])
         self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
+        self.pop_n = self.pop_size
+        self.pop_size = self.pop_n ** 2
         self.sort_flag = False
         self.lam = None
         self.pop_prev = None
-- 
2.43.0


From 53aa538ec4910e4ba7f8fa03d5712a18dbb58cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 094/170] fix: OriginalSA and GaussianSA list pop_size among
 their parameters

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index 2442ddf..5bda97a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -67,7 +67,7 @@ class OriginalSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.step_size = self.validator.check_float("step_size", step_size, (-100., 100.))
-        self.set_parameters(["epoch", "temp_init", "step_size"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "step_size"])
 
     def before_main_loop(self):
         self.agent_current = self.g_best.copy()
@@ -161,7 +161,7 @@ class GaussianSA(Optimizer):
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.cooling_rate = self.validator.check_float("cooling_rate", cooling_rate, (0., 1.))
         self.scale = self.validator.check_float("scale", scale, (0., 100.))
-        self.set_parameters(["epoch", "temp_init", "cooling_rate", "scale"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "cooling_rate", "scale"])
 
     def before_main_loop(self):
         # Initialize the system
-- 
2.43.0


From aa94cb1778a3516affc94741117a3e0fe1f902aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 095/170] fix: OriginalPO takes lamda_max as the float it is
 documented to be

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index fa1a819..b6aefa2 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -67,7 +67,7 @@ class OriginalPO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 100])
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
         self.pop_n = self.pop_size
         self.pop_size = self.pop_n ** 2
-- 
2.43.0


From 4106f5490d4229ced50d82c05ce85890002bdae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 096/170] fix: MGTO names its parameter pp when it rejects its
 value

---
 mealpy/swarm_based/AGTO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/AGTO.py b/mealpy/swarm_based/AGTO.py
index 28dad34..0de760a 100644
--- a/mealpy/swarm_based/AGTO.py
+++ b/mealpy/swarm_based/AGTO.py
@@ -178,7 +178,7 @@ class MGTO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.pp = self.validator.check_float("p1", pp, (0, 1))      # p in the paper
+        self.pp = self.validator.check_float("pp", pp, (0, 1))      # p in the paper
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = False
 
-- 
2.43.0


From fe04d90f8c6a2d4aae18930b8fc3e42937e691da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 097/170] fix: set_parameters() also updates what the
 constructor derives from the parameters, so that Tuner scores the optimizer
 it names

---
 mealpy/optimizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ec402b2..0b47199 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -88,9 +88,14 @@ class Optimizer:
             valid_para_names = set(self.parameters.keys())
             new_para_names = set(parameters.keys())
             if new_para_names.issubset(valid_para_names):
-                for key, value in parameters.items():
-                    setattr(self, key, value)
-                    self.parameters[key] = value
+                # Everything a constructor derives from the parameters (sizes of groups, weights, ...) has to follow the new
+                # values, so they are taken from an optimizer that is built with them.
+                fresh = self.__class__(**{**self.parameters, **parameters})
+                common = Optimizer().__dict__
+                for key, value in fresh.__dict__.items():
+                    if key not in common or key in fresh.parameters:
+                        setattr(self, key, value)
+                self.parameters = fresh.parameters
             else:
                 raise ValueError(f"Invalid input parameters: {new_para_names} for {self.get_name()} optimizer. "
                                  f"Valid parameters are: {valid_para_names}.")
-- 
2.43.0


From dc9427604a5fc11f222ec3d137dc7a8da2fd5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 098/170] fix: Termination(termination={...}) takes its
 criteria from the dictionary instead of refusing it

---
 mealpy/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/termination.py b/mealpy/utils/termination.py
index 95ad04a..8033193 100644
--- a/mealpy/utils/termination.py
+++ b/mealpy/utils/termination.py
@@ -73,7 +73,7 @@ class Termination:
     def __set_keyword_arguments(self, kwargs):
         if type(kwargs) == dict:
             if type(kwargs.get("termination")) == dict:
-                for key, value in kwargs.items():
+                for key, value in kwargs["termination"].items():
                     setattr(self, key, value)
             for key, value in kwargs.items():
                 setattr(self, key, value)
-- 
2.43.0


From ecd04bdec43de46c9b5cfed17ddf8e3c695258a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 099/170] fix: OriginalPSS starts from the supplied starting
 solutions instead of discarding them

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 9879c74..99d9720 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:    # The starting solutions
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From 24070b4982db7e653809d829ce4f8a59ffb0ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 100/170] fix: DevTPO grows its branches from the supplied
 starting solutions instead of discarding them

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..7ddfcb4 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -93,9 +93,13 @@ class DevTPO(Optimizer):
 
     def initialization(self):
         self.pop_total = []
+        starting_pop = self.pop
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starting_pop is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:                           # Each starting solution is the first leaf of its branch
+                leafs = [starting_pop[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 06e0dbd68108babb4677456c39020d7081fdbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 101/170] fix: OppoTWO keeps the best half of the initial
 population next to the opposites, not a random half that may lack the best

---
 mealpy/physics_based/TWO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index dbf9e76..2138314 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -174,8 +174,8 @@ class OppoTWO(OriginalTWO):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
         n_oppo = int(self.pop_size/2)
-        list_idx = self.generator.choice(range(0, self.pop_size), self.pop_size - n_oppo, replace=False)
-        pop_temp = [self.pop[idx] for idx in list_idx]
+        pop_sorted, _ = self.get_sorted_population(self.pop, self.problem.minmax)
+        pop_temp = pop_sorted[:self.pop_size - n_oppo]
         pop_oppo = []
         for idx in range(n_oppo):
             pos_opposite = self.problem.ub + self.problem.lb - pop_temp[idx].solution
-- 
2.43.0


From f1e674f76eca6442f32b1986dabfd4b944cb6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 102/170] fix: ModifiedSLO and ImprovedSLO start each agent
 from the better of a position and its opposite, so that the best one is not
 lost

---
 mealpy/swarm_based/SLO.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 2363dca..87ffc6a 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -153,14 +153,10 @@ class ModifiedSLO(Optimizer):
     def complete_agent(self, agent: Agent) -> Agent:
         target = agent.target
         local_target = self.get_target(agent.local_solution)
-        if self.compare_target(target, local_target, self.problem.minmax):
-            t1 = agent.local_solution.copy()
-            t2 = agent.solution.copy()
-            agent.update(solution=t1, target=local_target, local_solution=t2, local_target=target)
+        if self.compare_target(local_target, target, self.problem.minmax):
+            agent.update(solution=agent.local_solution.copy(), target=local_target.copy(), local_target=local_target)
         else:
-            t1 = agent.solution.copy()
-            t2 = agent.local_solution.copy()
-            agent.update(solution=t1, target=target, local_solution=t2, local_target=local_target)
+            agent.update(local_solution=agent.solution.copy(), local_target=target.copy())
         return agent
 
     def evolve(self, epoch):
-- 
2.43.0


From 676ca31f66cb13be939c6d1290435f04eda712a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 103/170] fix: PermutationVar generates its own labels, also
 when they are of mixed types

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 37861ce..9a7df2f 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -318,6 +318,7 @@ class PermutationVar(BaseVar):
     def _set_bounds(self, valid_set):
         if type(valid_set) in self.SUPPORTED_ARRAY and len(valid_set) > 1:
             self.valid_set = np.array(valid_set)
+            self.labels = list(valid_set)           # The labels as they were given (an array can't hold mixed types)
             self.n_vars = len(valid_set)
             self.le = LabelEncoder().fit(valid_set)
             self.lb = np.zeros(self.n_vars)
@@ -336,7 +337,7 @@ class PermutationVar(BaseVar):
         return np.argsort(np.argsort(x, kind="stable"), kind="stable")
 
     def generate(self):
-        return self.generator.permutation(self.valid_set)
+        return [self.labels[idx] for idx in self.generator.permutation(self.n_vars)]
 
 
 class BinaryVar(BaseVar):
-- 
2.43.0


From 12e35be6c64aa7044556ffe8419618cb1db3ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 104/170] fix: CategoricalVar can generate labels that are
 tuples

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 9a7df2f..27b39e8 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -274,7 +274,7 @@ class CategoricalVar(StringVar):
         super().__init__(valid_sets, name)
 
     def generate(self):
-        return [self.generator.choice(np.array(vl_set, dtype=object)) for vl_set in self.valid_sets]
+        return [vl_set[self.generator.integers(0, len(vl_set))] for vl_set in self.valid_sets]
 
 
 class SequenceVar(BaseVar):
-- 
2.43.0


From c3fb5cd955b8faa18789b07e0f27e5b9146ed1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 105/170] fix: SequenceVar can encode the sets it decodes when
 its return type is set

---
 mealpy/utils/space.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 27b39e8..4b2a63c 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -283,17 +283,21 @@ class SequenceVar(BaseVar):
         self.eps = 1e-4
         self.valid_sets = [tuple(v) for v in valid_sets]  # Normalize to tuples for hashing
         self.return_type = return_type
-        self.label_to_index = {val: i for i, val in enumerate(self.valid_sets)}
+        self.label_to_index = {self._get_key(val): i for i, val in enumerate(self.valid_sets)}
         self.index_to_label = {i: val for i, val in enumerate(self.valid_sets)}
         self.n_vars = 1
         self.lb = np.array([0., ])
         self.ub = np.array([len(valid_sets) - self.eps, ])
 
+    def _get_key(self, x):
+        # Two sets are the same whatever the order of their elements
+        return frozenset(x) if self.return_type in (set, frozenset) else tuple(x)
+
     def encode(self, x):
-        x_tuple = tuple(x)
-        if x_tuple not in self.label_to_index:
+        key = self._get_key(x)
+        if key not in self.label_to_index:
             raise ValueError(f"Unknown sequence for encoding: {x}")
-        return np.array([self.label_to_index[x_tuple]], dtype=float)
+        return np.array([self.label_to_index[key]], dtype=float)
 
     def decode(self, x):
         x = self.correct(x)
-- 
2.43.0


From cfa1e00b952a2446436d328888385dfd2a8fcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 106/170] fix: decoding a corrected
 TransferBinaryVar/TransferBoolVar solution returns it instead of drawing its
 values again

---
 mealpy/utils/space.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 4b2a63c..42f673e 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -396,6 +396,11 @@ class TransferBinaryVar(BinaryVar):
         x = np.where(cons < x, 1, 0)
         return self._get_correct_x(x)
 
+    def decode(self, x):
+        # The values of a corrected solution are final, they are not drawn again
+        x = np.asarray(x)
+        return self._get_correct_x(x.astype(int)) if np.all((x == 0) | (x == 1)) else self.correct(x)
+
     def generate(self):
         x = self.generator.integers(0, 2, self.n_vars)
         return self._get_correct_x(x)
@@ -443,3 +448,8 @@ class TransferBoolVar(BoolVar):
         x = self.tf_func(x)
         cons = self.generator.random(len(x))
         return np.where(cons < x, 1, 0)
+
+    def decode(self, x):
+        # The values of a corrected solution are final, they are not drawn again
+        x = np.asarray(x)
+        return x == 1 if np.all((x == 0) | (x == 1)) else self.correct(x) == 1
-- 
2.43.0


From e6e878510c7105ef1f025e4fa55ad609f02dfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 107/170] fix: a wrong number of objective weights is refused
 instead of being replaced by ones

---
 mealpy/utils/target.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index 669851b..0fcc7f4 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -61,6 +61,8 @@ class Target:
                 else:
                     raise ValueError(f"Invalid weights. It should be a list, tuple, np.ndarray.")
             weights = np.array(weights).flatten()
+            if len(weights) != len(self.objectives):
+                raise ValueError(f"Invalid weights. There are {len(weights)} weights for {len(self.objectives)} objectives.")
         self._weights = weights
 
     @property
-- 
2.43.0


From a1f73eb92fa0fee8cde1e09d2e3b6364177b0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 108/170] fix: string and categorical variables encode labels
 that are tuples

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 42f673e..eedaed8 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -255,7 +255,7 @@ class StringVar(BaseVar):
             raise TypeError(f"Invalid valid_sets. It should be {self.SUPPORTED_ARRAY}.")
 
     def encode(self, x):
-        return np.array([le.transform(val)[0] for (le, val) in zip(self.list_le, x)], dtype=float)
+        return np.array([le.transform((val,))[0] for (le, val) in zip(self.list_le, x)], dtype=float)
 
     def decode(self, x):
         x = self.correct(x)
-- 
2.43.0


From 93ad179b6c1b7c2b5f2b8b7d36a963c7d413cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 109/170] fix: OriginalVCS keeps coordinates that are exactly
 zero when amending a solution

---
 mealpy/bio_based/VCS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/VCS.py b/mealpy/bio_based/VCS.py
index 99be716..ccb28b4 100644
--- a/mealpy/bio_based/VCS.py
+++ b/mealpy/bio_based/VCS.py
@@ -205,7 +205,7 @@ class OriginalVCS(DevVCS):
         super().__init__(epoch, pop_size, lamda, sigma, **kwargs)
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
-        condition = np.clip(solution, self.problem.lb, self.problem.ub)
+        condition = np.logical_and(self.problem.lb <= solution, solution <= self.problem.ub)
         rand_pos = self.generator.uniform(self.problem.lb, self.problem.ub)
         return np.where(condition, solution, rand_pos)
 
-- 
2.43.0


From 2e2359c25f3d46dafcdcf969bdacedb0aa686bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 110/170] fix: OriginalLSO amends a copy of the solution

---
 mealpy/physics_based/LSO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/LSO.py b/mealpy/physics_based/LSO.py
index 5119c58..726c418 100644
--- a/mealpy/physics_based/LSO.py
+++ b/mealpy/physics_based/LSO.py
@@ -110,6 +110,7 @@ class OriginalLSO(Optimizer):
 
         mask = (pos_new < self.problem.lb) | (pos_new > self.problem.ub)
         if np.any(mask):
+            pos_new = pos_new.copy()
             pos_new[mask] = self.generator.uniform(low=self.problem.lb[mask], high=self.problem.ub[mask])
         return pos_new
 
-- 
2.43.0


From 27f031addae4081650c513b5b90758d1551c98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 111/170] fix: exploration and exploitation of a run without
 any diversity are 0 and 100 percent

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 0b47199..008fe37 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -311,7 +311,8 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
-        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
+        # No diversity at all in any epoch is pure exploitation
+        self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / (div_max if div_max > 0 else 1.0))
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
         self.history.list_current_best = self.history.list_current_best[1:]
-- 
2.43.0


From 40ea59e00420aaafeb725a8b2b214b024949fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 112/170] fix: Problem.n_objs accepts a single weight for
 several objectives

---
 mealpy/utils/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/problem.py b/mealpy/utils/problem.py
index 6f77eb9..888740f 100644
--- a/mealpy/utils/problem.py
+++ b/mealpy/utils/problem.py
@@ -52,8 +52,10 @@ class Problem:
                         f"but `obj_weights` not provided. Defaulting to equal weights."
                     )
                 self.obj_weights = np.ones(self._n_objs)
+            elif isinstance(self.obj_weights, numbers.Number):
+                pass    # A single weight applies to all objectives
             elif len(np.array(self.obj_weights).ravel()) != self._n_objs:
-                raise ValueError(f"`obj_weights` length {len(self.obj_weights)} does not match number of objectives {self._n_objs}.")
+                raise ValueError(f"`obj_weights` length {len(np.array(self.obj_weights).ravel())} does not match number of objectives {self._n_objs}.")
         return self._n_objs
 
     def __set_keyword_arguments(self, kwargs):
-- 
2.43.0


From fbd28ce3ed2d16b73020d445a452a57c61032324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 113/170] fix: Target refuses an empty list of objectives and
 complex values

---
 mealpy/utils/target.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/target.py b/mealpy/utils/target.py
index 0fcc7f4..1275fd6 100644
--- a/mealpy/utils/target.py
+++ b/mealpy/utils/target.py
@@ -44,6 +44,8 @@ class Target:
                 else:
                     raise ValueError(f"Invalid objectives. It should be a list, tuple, np.ndarray, int or float.")
             objs = np.array(objs).flatten()
+            if len(objs) == 0 or np.iscomplexobj(objs):
+                raise ValueError(f"Invalid objectives. There should be at least one objective and all of them should be real numbers.")
         self._objectives = objs
 
     @property
-- 
2.43.0


From 81e84a6d81179a5e3f268f97fefc7f07d89b24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 114/170] fix: an equal target is not better than another one
 when maximising (as when minimising)

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 008fe37..1eb3a51 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -452,14 +452,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness > target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x > fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
-- 
2.43.0


From a68b30731ea96c351502e99d39cb3abb3494c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 115/170] fix: improved_ms respects the direction of the
 problem and evaluates its agents in single mode

---
 mealpy/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 1eb3a51..20498c9 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -821,7 +821,7 @@ class Optimizer:
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
         pop_len = int(len(pop) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
@@ -830,6 +830,8 @@ class Optimizer:
             agent = pop_s1[idx].copy()
             pos_new = pop_s1[idx].solution * (1 + self.generator.normal(0, 1, self.problem.n_dims))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
         pop_s1 = self.greedy_selection_population(pop_s1, pop_new, self.problem.minmax)  ## Greedy method --> improved exploitation
@@ -843,6 +845,8 @@ class Optimizer:
             pos_new = (g_best.solution - pos_s1_mean) - self.generator.random() * \
                       (self.problem.lb + self.generator.random() * (self.problem.ub - self.problem.lb))
             agent.solution = self.correct_solution(pos_new)
+            if self.mode not in self.AVAILABLE_MODES:
+                agent.target = self.get_target(agent.solution)
             pop_new.append(agent)
         ## Keep the diversity of populatoin and still improved the exploration
         pop_s2 = self.update_target_for_population(pop_new)
-- 
2.43.0


From a3792163a819cbae87b26ab043311b74db3b8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 116/170] fix: OriginalGA inherits the GA operations instead of
 evolving nothing, and single point mutation honours the mutation probability

---
 mealpy/evolutionary_based/GA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 5909196..d5df773 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -260,6 +260,8 @@ class BaseGA(Optimizer):
                 flag_child = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
                 return np.where(flag_child, mutation_child, child)
         else:
+            if self.generator.random() >= self.pm:
+                return child
             if self.mutation == "swap":
                 idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
                 child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -433,6 +435,8 @@ class SingleGA(BaseGA):
         """
         if self.problem.n_dims == 1 and self.mutation != "flip":
             return child
+        if self.generator.random() >= self.pm:
+            return child
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -820,7 +824,7 @@ class EliteMultiGA(MultiGA):
             self.pop = self.update_target_for_population(pop_new)
 
 
-class OriginalGA(Optimizer):
+class OriginalGA(BaseGA):
     """
     The fully tuned version of: Genetic Algorithm (GA)
 
@@ -904,11 +908,7 @@ class OriginalGA(Optimizer):
             k_way (float): Optional, set it when use "tournament" selection, default = 0.2
             mutation_multipoints (bool): Optional, True or False, effect on mutation process, default = False
         """
-        super().__init__(**kwargs)
-        self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
-        self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.pc = self.validator.check_float("pc", pc, (0, 1.0))
-        self.pm = self.validator.check_float("pm", pm, (0, 1.0))
+        super().__init__(epoch, pop_size, pc, pm, **kwargs)
         self.selection = self.validator.check_str("selection", selection, ["tournament", "random", "roulette"])
         self.crossover = self.validator.check_str("crossover", crossover, ["one_point", "multi_points", "uniform", "arithmetic"])
         self.mutation_multipoints = self.validator.check_bool("mutation_multipoints", mutation_multipoints)
-- 
2.43.0


From 468c94f1c7600ff709d7122b09d6c90223965231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 117/170] fix: MA mutates with the mutation probability instead
 of the crossover probability

---
 mealpy/evolutionary_based/MA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/MA.py b/mealpy/evolutionary_based/MA.py
index b9c8a60..fde088c 100644
--- a/mealpy/evolutionary_based/MA.py
+++ b/mealpy/evolutionary_based/MA.py
@@ -126,7 +126,7 @@ class OriginalMA(Optimizer):
     def point_mutation__(self, bitstring=None):
         child = ""
         for bit in bitstring:
-            if self.generator.uniform() < self.pc:
+            if self.generator.uniform() < self.pm:
                 child += "0" if bit == "1" else "1"
             else:
                 child += bit
-- 
2.43.0


From 0889126e8eea7a0fcbcdad581c9734878d9f0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 118/170] fix: OriginalBA moves and keeps the velocity that the
 pulse frequency gives

---
 mealpy/swarm_based/BA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BA.py b/mealpy/swarm_based/BA.py
index f855c99..ef209b6 100644
--- a/mealpy/swarm_based/BA.py
+++ b/mealpy/swarm_based/BA.py
@@ -101,7 +101,7 @@ class OriginalBA(Optimizer):
         for idx in range(0, self.pop_size):
             agent = self.pop[idx].copy()
             vec = agent.velocity + self.pop[idx].pulse_frequency * (self.pop[idx].solution - self.g_best.solution)
-            x_new = self.pop[idx].solution + agent.velocity
+            x_new = self.pop[idx].solution + vec
             ## Local Search around g_best position
             if self.generator.random() > self.pulse_rate:
                 x_new = self.g_best.solution + 0.001 * self.generator.normal(self.problem.n_dims)
@@ -115,7 +115,7 @@ class OriginalBA(Optimizer):
             ## Replace the old position by the new one when its has better fitness.
             ##  and then update loudness and emission rate
             if self.compare_target(pop_new[idx].target, self.pop[idx].target, self.problem.minmax) and self.generator.random() < self.loudness:
-                self.pop[idx].update(solution=pop_new[idx].solution, target=pop_new[idx].target)
+                self.pop[idx].update(solution=pop_new[idx].solution, target=pop_new[idx].target, velocity=pop_new[idx].velocity)
 
 
 class AdaptiveBA(Optimizer):
-- 
2.43.0


From a88753be958142f51a1fa6f4134ca194e6af28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 119/170] fix: SSpiderA spiders keep their mask and target
 vibration

---
 mealpy/swarm_based/SSpiderA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 0771f37..e30620b 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -124,13 +124,13 @@ class DevSSpiderA(Optimizer):
         id_best_intensity = np.argmax(intensity_receive)
         pop_new = []
         for idx in range(0, self.pop_size):
-            agent = self.pop[idx].copy()
             if self.pop[id_best_intensity].intensity > self.pop[idx].intensity:
-                agent.target_solution = self.pop[id_best_intensity].target_solution
+                self.pop[idx].target_solution = self.pop[id_best_intensity].target_solution
             if self.generator.uniform() > self.p_c:  ## changing mask
-                agent.mask = np.where(self.generator.uniform(0, 1, self.problem.n_dims) < self.p_m, 0, 1)
+                self.pop[idx].mask = np.where(self.generator.uniform(0, 1, self.problem.n_dims) < self.p_m, 0, 1)
             pos_new = np.where(self.pop[idx].mask == 0, self.pop[idx].target_solution, self.pop[self.generator.integers(0, self.pop_size)].solution)
             ## Perform random walk
+            agent = self.pop[idx].copy()
             pos_new = self.pop[idx].solution + self.generator.normal() * (self.pop[idx].solution - self.pop[idx].local_vector) + \
                       (pos_new - self.pop[idx].solution) * self.generator.normal()
             agent.solution = self.correct_solution(pos_new)
-- 
2.43.0


From 14edb65ded00999aa54ce3e853b2262b88d5d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 120/170] fix: ArchOA transfer operator reaches the exploration
 phase

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index 988f4b7..917e124 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -102,7 +102,7 @@ class OriginalArchOA(Optimizer):
             epoch (int): The current iteration
         """
         ## Transfer operator Eq. 8
-        tf = np.exp(epoch / self.epoch)
+        tf = np.exp(epoch / self.epoch - 1.)
         ## Density decreasing factor Eq. 9
         ddf = np.exp(1. - epoch / self.epoch) - epoch / self.epoch
         list_acc = []
-- 
2.43.0


From 6dd89653901f540998f0b9ad91724e9a9f7a8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 121/170] fix: CleverBookBeesA reduces the patch size

---
 mealpy/swarm_based/BeesA.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index f8e1db0..2190afe 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -90,6 +90,9 @@ class CleverBookBeesA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "n_elites", "n_others", "patch_size", "patch_reduction", "n_sites", "n_elite_sites"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.dyn_patch_size = self.patch_size
+
     def search_neighborhood(self, parent=None, neigh_size=None):
         """
         Search 1 best position in neigh_size position
@@ -98,8 +101,8 @@ class CleverBookBeesA(Optimizer):
         for idx in range(0, neigh_size):
             t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
-            new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
-                else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
+            new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.dyn_patch_size) if self.generator.uniform() < 0.5 \
+                else (parent.solution[t1] - self.generator.uniform() * self.dyn_patch_size)
             pos_new = self.correct_solution(new_bee)
             agent = self.generate_empty_agent(pos_new)
             pop_neigh.append(agent)
@@ -131,6 +134,7 @@ class CleverBookBeesA(Optimizer):
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
+        self.dyn_patch_size = self.dyn_patch_size * self.patch_reduction
 
 
 class OriginalBeesA(Optimizer):
-- 
2.43.0


From ced0499e564a18133556d9d63959c700339c0a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 122/170] fix: ABFO bacteria accumulate their nutrients

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index da400b2..29c024a 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -287,7 +287,7 @@ class ABFO(Optimizer):
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-                    agent.nutrients += 1
+                    agent.nutrients = self.pop[idx].nutrients + 1
                     self.pop[idx] = agent
                     # Update personal best
                     if self.compare_target(agent.target, self.pop[idx].local_target, self.problem.minmax):
-- 
2.43.0


From dfbac90287743a7c46f0fceebdc09a8ce096caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 123/170] fix: chaotic maps keep every admissible state in
 their interval

---
 mealpy/utils/chaotic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mealpy/utils/chaotic.py b/mealpy/utils/chaotic.py
index 2195fc6..0ee8807 100644
--- a/mealpy/utils/chaotic.py
+++ b/mealpy/utils/chaotic.py
@@ -15,10 +15,10 @@ class ChaoticMap:
     @staticmethod
     def bernoulli_map(x: float, a: float = 0.5) -> float:
         """Bernoulli map"""
-        if 0 <= x <= a:
-            return x / (1 - a)
+        if 0 <= x <= 1 - a:
+            return min(x / (1 - a), 1.0)
         else:
-            return (x - a) / a
+            return min((x - (1 - a)) / a, 1.0)
 
     @staticmethod
     def logistic_map(x: float, a: float = 4.0) -> float:
@@ -43,7 +43,7 @@ class ChaoticMap:
     @staticmethod
     def icmic_map(x: float, a: float = 0.7) -> float:
         """Iterative chaotic map with infinite collapses"""
-        if x == 0:
+        if x == 0 or np.isinf(a / x):
             return 0.1  # Avoid division by zero
         return np.abs(np.sin(a / x))
 
@@ -55,9 +55,9 @@ class ChaoticMap:
         elif a <= x < 0.5:
             return (x - a) / (0.5 - a)
         elif 0.5 <= x < 1 - a:
-            return (1 - a - x) / (0.5 - a)
+            return min((1 - a - x) / (0.5 - a), 1.0)
         else:
-            return (1 - x) / a
+            return min((1 - x) / a, 1.0)
 
     @staticmethod
     def singer_map(x: float, a: float = 1.07) -> float:
@@ -75,4 +75,4 @@ class ChaoticMap:
         if x < 0.7:
             return x / 0.7
         else:
-            return (10 / 3) * (1 - x)
+            return min((10 / 3) * (1 - x), 1.0)
-- 
2.43.0


From 77760d774e655a86902aca9bee1b65ae0a32fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 124/170] fix: a triangular fuzzy membership is one at its peak
 also when the triangle is one-sided

---
 mealpy/utils/fuzzy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/fuzzy.py b/mealpy/utils/fuzzy.py
index aab43b9..3d2f775 100644
--- a/mealpy/utils/fuzzy.py
+++ b/mealpy/utils/fuzzy.py
@@ -17,7 +17,9 @@ class FuzzySystem:
 
     def triangular_membership(self, x, a, b, c):
         """Triangular membership function"""
-        if x <= a or x >= c:
+        if x == b:
+            return 1
+        elif x <= a or x >= c:
             return 0
         elif a < x <= b:
             return (x - a) / (b - a)
-- 
2.43.0


From 8ff4dad7155ad8f61da8c4d0b85abc1e8c685ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 125/170] fix: vstf_03 does not overflow to zero or undefined
 for large values

---
 mealpy/utils/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/transfer.py b/mealpy/utils/transfer.py
index 584aa15..bff358a 100644
--- a/mealpy/utils/transfer.py
+++ b/mealpy/utils/transfer.py
@@ -20,7 +20,7 @@ def vstf_02(x):
 
 
 def vstf_03(x):
-    return np.abs(x / np.sqrt(1. + np.square(x)))
+    return np.abs(x / np.hypot(1., x))
 
 
 def vstf_04(x):
-- 
2.43.0


From f4130e13b30fee3cb51ab2bba1d769290a46ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 126/170] fix: a failed save_model no longer destroys the file
 of an earlier save

---
 mealpy/utils/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/io.py b/mealpy/utils/io.py
index 729d4b6..fc1de05 100644
--- a/mealpy/utils/io.py
+++ b/mealpy/utils/io.py
@@ -13,7 +13,9 @@ def save_model(model, path_save:str):
     else:
         if path_save[-4:] != ".pkl":
             path_save += ".pkl"
-    pickle.dump(model, open(path_save, 'wb'))
+    data = pickle.dumps(model)      # before the file is touched, a model that can't be pickled must not destroy the saved one
+    with open(path_save, 'wb') as file:
+        file.write(data)
 
 
 def load_model(path_load:str):
@@ -22,4 +24,5 @@ def load_model(path_load:str):
     else:
         if path_load[-4:] != ".pkl":
             path_load += ".pkl"
-    return pickle.load(open(path_load, 'rb'))
+    with open(path_load, 'rb') as file:
+        return pickle.load(file)
-- 
2.43.0


From efc01db76fdb32de02b5e4b3bf09262e41018a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 127/170] fix: OriginalESO no longer fails on problems with
 many dimensions

---
 mealpy/physics_based/ESO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..c457ff3 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -78,7 +78,8 @@ class OriginalESO(Optimizer):
             resistance = std_pos / peak_to_peak
             # Identify ionized areas (promising regions)
             # Calculate percentile threshold
-            percentile_threshold = (resistance / 2) * 100
+            # The spread is summed over the dimensions and exceeds twice the largest extent in large problems
+            percentile_threshold = min(resistance / 2, 1.) * 100
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
             fitness_percentile = np.percentile(fits, percentile_threshold)
-- 
2.43.0


From e0bead07de38a56b489453fcdd7208d07d8376b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 128/170] fix: n_jobs=1 runs Multitask and Tuner sequentially,
 as documented

---
 mealpy/multitask.py | 2 +-
 mealpy/tuner.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index e9306fc..5e654ff 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -174,7 +174,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 8b69832..cbd7de1 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -389,7 +389,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From f19a69f857c70a501598b9ffe8dc864b4807f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 129/170] fix: Multitask keeps the results of algorithms and
 problems that share a name

---
 mealpy/multitask.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 5e654ff..c2bb37d 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -129,6 +129,15 @@ class Multitask:
     def export_to_csv(result: pd.DataFrame, save_path: str):
         result.to_csv(f"{save_path}.csv", header=True, index=False)
 
+    @staticmethod
+    def get_unique_name(name, used_names):
+        # Algorithms (or problems) may share a name, e.g. the default one, their results must not overwrite each other
+        unique_name, number = name, 1
+        while unique_name in used_names:
+            number += 1
+            unique_name = f"{name}_{number}"
+        return unique_name
+
     def __run__(self, id_trial, optimizer, problem, termination=None, mode="single"):
         g_best = optimizer.solve(problem, mode=mode, termination=termination, n_workers=self.n_workers)
         return {
@@ -181,14 +190,17 @@ class Multitask:
         save_as = self.validator.check_str("save_as", save_as, ["csv", "json", "dataframe"])
         export_function = getattr(self, f"export_to_{save_as}")
 
+        optimizer_names = []
         for id_optimizer, optimizer in enumerate(self.algorithms):
             if not isinstance(optimizer, Optimizer):
                 print(f"Model: {id_optimizer+1} is not an instance of Optimizer class.")
                 continue
 
             ## Check parent directories
+            optimizer_name = self.get_unique_name(optimizer.get_name(), optimizer_names)
+            optimizer_names.append(optimizer_name)
             path_best_fit = f"{save_path}/best_fit"
-            path_convergence = f"{save_path}/convergence/{optimizer.get_name()}"
+            path_convergence = f"{save_path}/convergence/{optimizer_name}"
             Path(path_best_fit).mkdir(parents=True, exist_ok=True)
             Path(path_convergence).mkdir(parents=True, exist_ok=True)
 
@@ -222,13 +234,14 @@ class Multitask:
                         if verbose:
                             print(f"Solving problem: {result['problem_name']} using algorithm: {optimizer.get_name()}, on the: {result['id_trial']} trial")
 
-                best_fit_optimizer_results[result['problem_name']] = best_fit_trials
+                problem_name = self.get_unique_name(result['problem_name'], best_fit_optimizer_results)
+                best_fit_optimizer_results[problem_name] = best_fit_trials
                 if save_convergence:
                     max_length = max([len(col) for col in convergence_trials.values()])
                     for kk, vv in convergence_trials.items():
                         convergence_trials[kk] = list(vv) + [float('nan')] * (max_length - len(vv))
                     df1 = pd.DataFrame(convergence_trials)
-                    export_function(df1, f"{path_convergence}/{result['problem_name']}_convergence")
+                    export_function(df1, f"{path_convergence}/{problem_name}_convergence")
 
             df2 = pd.DataFrame(best_fit_optimizer_results)
-            export_function(df2, f"{path_best_fit}/{optimizer.get_name()}_best_fit")
+            export_function(df2, f"{path_best_fit}/{optimizer_name}_best_fit")
-- 
2.43.0


From c250f15ba885cdb60b21e6230d62a1d1abffbb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 130/170] fix: the tuner draws the charts of a grid with a
 single parameter

---
 mealpy/tuner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index cbd7de1..20ff62a 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -310,7 +310,8 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                # With a single parameter, there is nothing to group by, all its values belong to one chart
+                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -336,7 +337,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) if selected_paras else para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From 11641be6560ef769a962208df3605a984fc717ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 131/170] fix: the tuner accepts a list of grids, as documented

---
 mealpy/tuner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 20ff62a..5de4040 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -221,7 +221,10 @@ class Tuner:
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
         self.algorithm = self.validator.check_is_instance("algorithm", algorithm, Optimizer)
-        self.param_grid = self.validator.check_is_instance("param_grid", param_grid, dict)
+        self.param_grid = self.validator.check_is_instance("param_grid", param_grid, (dict, list, tuple))
+        ## A combination that doesn't mention a parameter (list of grids) uses the value that the algorithm came with
+        self.param_names = list(dict.fromkeys(key for params in ParameterGrid(self.param_grid) for key in params))
+        self.default_params = {key: value for key, value in self.algorithm.get_parameters().items() if key in self.param_names}
         self.results, self._best_row, self._best_params, self._best_score, self._best_algorithm = None, None, None, None, None
 
     def __set_keyword_arguments(self, kwargs):
@@ -246,7 +249,7 @@ class Tuner:
 
     @property
     def best_algorithm(self):
-        self.algorithm.set_parameters(self._best_params)
+        self.algorithm.set_parameters({**self.default_params, **self._best_params})
         return self.algorithm
 
     def export_results(self, save_path=None, file_name="tuning_best_fit.csv"):
@@ -303,7 +306,7 @@ class Tuner:
             self.df_loss.to_csv(f"{save_path}/{filename}.csv", header=True, index=False)
 
         ## Draw and save convergence figures
-        para_columns = list(self.param_grid.keys())
+        para_columns = self.param_names
         group_trials = self.df_loss.groupby("trial")
         for trial, groups in group_trials:
             save_path_new = f"{save_path}/trial{trial}"
@@ -311,7 +314,7 @@ class Tuner:
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
                 # With a single parameter, there is nothing to group by, all its values belong to one chart
-                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
+                group_paras = groups.groupby(selected_paras, dropna=False) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -405,7 +408,7 @@ class Tuner:
         loss_results = []
         for id_params, params in enumerate(list_params_grid):
 
-            self.algorithm.set_parameters(params)
+            self.algorithm.set_parameters({**self.default_params, **params})
             best_fit_results.append({"params": params})
 
             trial_list = list(range(0, self.n_trials))
@@ -464,6 +467,6 @@ class Tuner:
         g_best : Agent
             The best agent found after resolving the problem.
         """
-        self.algorithm.set_parameters(self.best_params)
+        self.algorithm.set_parameters({**self.default_params, **self.best_params})
         return self.algorithm.solve(problem=self.problem, mode=mode, n_workers=n_workers,
                                     starting_solutions=starting_solutions, termination=termination)
-- 
2.43.0


From 9eb9e9eb106c5410695091019ec1dc18e1fd6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 132/170] fix: charts of more than ten objectives can be drawn

---
 mealpy/utils/visualize/linechart.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/visualize/linechart.py b/mealpy/utils/visualize/linechart.py
index 5b4536e..0aa751e 100644
--- a/mealpy/utils/visualize/linechart.py
+++ b/mealpy/utils/visualize/linechart.py
@@ -66,6 +66,11 @@ def __check_filepath__(filename):
     return filename
 
 
+def __get_first_items__(items, number):
+    # Start again from the first style (color) if there are more lines than styles (colors)
+    return [items[idx % len(items)] for idx in range(0, number)]
+
+
 def _draw_line_(data=None, title=None, legend=None, linestyle='-', color='b', x_label="#Iteration",
                 y_label="Function Value", filename=None, exts=(".png", ".pdf"), verbose=True):
     x = np.arange(0, len(data))
@@ -165,9 +170,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
                            list_styles=None, list_colors=None, x_label="#Iteration", y_label="Diversity Measurement",
                            filename="diversity_chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = __get_first_items__(LIST_LINESTYLES, len(data))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = __get_first_items__(LIST_COLORS, len(data))
     _draw_multi_line_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                       x_label=x_label, y_label=y_label, filename=filename, exts=exts, verbose=verbose)
 
@@ -175,9 +180,9 @@ def export_diversity_chart(data=None, title='Diversity Measurement Chart', list_
 def export_objectives_chart(data=None, title="Objectives chart", list_legends=None, list_styles=None, list_colors=None,
             x_label="#Iteration", y_labels=None, filename="Objective-chart", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = __get_first_items__(LIST_LINESTYLES, len(data))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = __get_first_items__(LIST_COLORS, len(data))
     _draw_multi_subplots_in_same_figure_(data=data, title=title, list_legends=list_legends, list_styles=list_styles, list_colors=list_colors,
                                      x_label=x_label, y_labels=y_labels, filename=filename, exts=exts, verbose=verbose)
 
@@ -186,9 +191,9 @@ def export_trajectory_chart(data=None, n_dimensions=1, title="Trajectory of some
                                  list_styles=None, list_colors=None, x_label="#Iteration", y_label="X1",
                                  filename="1d_trajectory", exts=(".png", ".pdf"), verbose=True):
     if list_styles is None:
-        list_styles = LIST_LINESTYLES[:len(data)]
+        list_styles = __get_first_items__(LIST_LINESTYLES, len(data))
     if list_colors is None:
-        list_colors = LIST_COLORS[:len(data)]
+        list_colors = __get_first_items__(LIST_COLORS, len(data))
 
     if n_dimensions == 1:
         x = np.arange(0, len(data[0]))
-- 
2.43.0


From e6fdcb2310fbd18f753d24ffe753107886f9bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 133/170] fix: ESO: ionized areas and branches follow the
 problem's direction

---
 mealpy/physics_based/ESO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index c457ff3..3a03c42 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -82,6 +82,8 @@ class OriginalESO(Optimizer):
             percentile_threshold = min(resistance / 2, 1.) * 100
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
+            if self.problem.minmax == "max":
+                fits = -fits
             fitness_percentile = np.percentile(fits, percentile_threshold)
             ionized_indices = np.where(fits <= fitness_percentile)[0]
             ionized_pop = [self.pop[idx] for idx in ionized_indices]
@@ -162,7 +164,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From b4fa5b591016f75ef803e478235eb61ddd9d2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 134/170] fix: GRSA: geometries and geodesic memory follow the
 problem's direction

---
 mealpy/physics_based/GRSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..08e39e7 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -111,7 +111,7 @@ class OriginalGRSA(Optimizer):
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
         fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        sorted_indices = np.argsort(fitness_list if self.problem.minmax == "min" else -fitness_list)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From 0597f691528c3e7e9e7666be0557ed682894d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 135/170] fix: IMODE: improvements are counted in the problem's
 direction

---
 mealpy/sota_based/IMODE.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..afe2955 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
@@ -290,7 +290,8 @@ class OriginalIMODE(Optimizer):
         op1_mask, op2_mask, op3_mask = self._select_operator_indices()
         fits = np.array([agent.target.fitness for agent in self.pop])
         fits_child = np.array([agent.target.fitness for agent in pop_new])
-        relative_improvements = np.maximum(0, (fits - fits_child) / np.abs(fits))
+        gains = fits - fits_child if self.problem.minmax == "min" else fits_child - fits
+        relative_improvements = np.maximum(0, gains / np.abs(fits))
 
         # Update archive with improved solutions
         if np.any(improvement_mask):
-- 
2.43.0


From 2c93ca5d39f711e83c8a83c2043d3bc7be26039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 136/170] fix: CCO: comparisons follow the problem's direction

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From 0089bb1c8046f5515d0705bf1f72af31e48ebe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 137/170] fix: EEFO: interaction follows the problem's
 direction

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From 8dff3424f15b1c39fd874ebf49c3a7bea590afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 138/170] fix: NGO: exploration follows the problem's direction

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From d1f077bebe9a8ce841d186c21949b6605a1d82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 139/170] fix: FBIO: the probability of an agent follows the
 problem's direction

---
 mealpy/human_based/FBIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/FBIO.py b/mealpy/human_based/FBIO.py
index c87f824..635fc6e 100644
--- a/mealpy/human_based/FBIO.py
+++ b/mealpy/human_based/FBIO.py
@@ -56,6 +56,8 @@ class DevFBIO(Optimizer):
     def probability__(self, list_fitness=None):  # Eq.(3) in FBI Inspired Meta-Optimization
         max1 = np.max(list_fitness)
         min1 = np.min(list_fitness)
+        if self.problem.minmax == "max":
+            return (list_fitness - min1) / (max1 - min1 + self.EPSILON)
         return (max1 - list_fitness) / (max1 - min1 + self.EPSILON)
 
     def evolve(self, epoch):
-- 
2.43.0


From a7516366b0d2bea57cc71c49f6041a5651b8d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 140/170] fix: SARO: the social phase follows the problem's
 direction

---
 mealpy/human_based/SARO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..92f96f2 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,8 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se,
+                                       self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 9c189506ff3404de3f497a8aefed78343839ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 141/170] fix: ASO: the best atom is the heaviest when
 maximising too

---
 mealpy/physics_based/ASO.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/ASO.py b/mealpy/physics_based/ASO.py
index 46c6e4d..5dcbfcc 100644
--- a/mealpy/physics_based/ASO.py
+++ b/mealpy/physics_based/ASO.py
@@ -87,6 +87,8 @@ class OriginalASO(Optimizer):
 
     def update_mass__(self, population):
         list_fit = np.array([agent.target.fitness for agent in population])
+        if self.problem.minmax == "max":
+            list_fit = -list_fit
         list_fit = np.exp(-(list_fit - np.max(list_fit)) / (np.max(list_fit) - np.min(list_fit) + self.EPSILON))
         list_fit = list_fit / np.sum(list_fit)
         for idx in range(0, self.pop_size):
@@ -113,10 +115,7 @@ class OriginalASO(Optimizer):
         pop = self.update_mass__(population)
         G = np.exp(-20.0 * iteration / self.epoch)
         k_best = int(self.pop_size - (self.pop_size - 2) * (iteration / self.epoch) ** 0.5) + 1
-        if self.problem.minmax == "min":
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
-        else:
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass)[:k_best].copy()
+        k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
         mk_average = np.mean([agent.solution for agent in k_best_pop])
         acc_list = np.zeros((self.pop_size, self.problem.n_dims))
         for idx in range(0, self.pop_size):
-- 
2.43.0


From f815e47c2c12a87839da1a0a49a4b653046824f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 142/170] fix: BFO: reproduction keeps the better half when
 maximising too

---
 mealpy/swarm_based/BFO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 29c024a..094fdfb 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -130,7 +130,8 @@ class OriginalBFO(Optimizer):
 
     def evaluate__(self, idx, cells):
         cells[idx].interaction = self.attract_repel__(idx, cells)
-        cells[idx].cost = cells[idx].target.fitness + cells[idx].interaction
+        fitness = cells[idx].target.fitness if self.problem.minmax == "min" else -cells[idx].target.fitness
+        cells[idx].cost = fitness + cells[idx].interaction
         return cells
 
     def tumble_cell__(self, cell, step_size):
-- 
2.43.0


From 1d062ea26eb376bcbbc2f7bee4d0c2987f8a486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 143/170] fix: BSA: producers and scroungers follow the
 problem's direction

---
 mealpy/swarm_based/BSA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index 8b439e3..dedba29 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -144,8 +144,9 @@ class OriginalBSA(Optimizer):
         else:
             pop_new = self.pop.copy()
             # Divide the bird swarm into two parts: producers and scroungers.
-            min_idx = np.argmin(fit_list)
-            max_idx = np.argmax(fit_list)
+            min_idx, max_idx = np.argmin(fit_list), np.argmax(fit_list)
+            if self.problem.minmax == "max":
+                min_idx, max_idx = max_idx, min_idx
             choose = 0
             if min_idx < 0.5 * self.pop_size and max_idx < 0.5 * self.pop_size:
                 choose = 1
-- 
2.43.0


From 259e45b74bcbd0d1146a9cf7868d8f9886cb85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 144/170] fix: COA: the pup replaces the oldest coyote when
 maximising too

---
 mealpy/swarm_based/COA.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 0072931..5df8842 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -131,11 +131,8 @@ class OriginalCOA(Optimizer):
             packs, _ = self.get_sorted_population(self.pop_group[p], self.problem.minmax)
             # Find index of element has fitness larger than new child. If existed an element like that, new child is good
             if self.compare_target(agent.target, packs[-1].target, self.problem.minmax):
-                if self.problem.minmax == "min":
-                    packs = sorted(packs, key=lambda agent: agent.age)
-                else:
-                    packs = sorted(packs, key=lambda agent: agent.age, reverse=True)
-                # Replace worst element by new child, New born child with age = 0
+                packs = sorted(packs, key=lambda agent: agent.age)
+                # Replace oldest element by new child, New born child with age = 0
                 packs[-1] = agent
                 self.pop_group[p] = [agent.copy() for agent in packs]
 
-- 
2.43.0


From a29c05da2df21680ee2ec9ab1f96436a547cd672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 145/170] fix: HGSO: the worst agents are replaced, not the
 best, when minimising

---
 mealpy/physics_based/HGSO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..d33b09b 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -128,6 +128,8 @@ class OriginalHGSO(Optimizer):
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
         sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        if self.problem.minmax == "min":
+            sorted_id_pos = sorted_id_pos[::-1]
 
         pop_new = []
         pop_idx = []
-- 
2.43.0


From 9f174b73b453657ec18d7da1acfb33ca9d37c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 146/170] fix: SRSR: the robot that improved most is found when
 maximising too

---
 mealpy/swarm_based/SRSR.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 143261a..be62442 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -132,7 +132,8 @@ class OriginalSRSR(Optimizer):
 
         # --------- Determining Sigma Improvement Factor (Sif) Based On Vvss Movement -------------------
         ## Get best improved fitness
-        fit_id = np.argmax([agent.target_move for agent in self.pop])
+        moves = [agent.target_move for agent in self.pop]
+        fit_id = np.argmax(moves) if self.problem.minmax == "min" else np.argmin(moves)
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-- 
2.43.0


From 564cb27443be08b02ef165010518b5b3692a5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 147/170] fix: FA: sparks and amplitudes follow the problem's
 direction

---
 mealpy/swarm_based/FA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 20d913f..155843e 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -87,13 +87,15 @@ class OriginalFA(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        fit_list = np.array([agent.target.fitness for agent in self.pop])
-        fit_list = sorted(fit_list)
+        fits = np.array([agent.target.fitness for agent in self.pop])
+        if self.problem.minmax == "max":
+            fits = -fits
+        fit_list = sorted(fits)
         pop_new = []
         for idx in range(0, self.pop_size):
-            si = self.max_sparks * (fit_list[-1] - self.pop[idx].target.fitness) / \
+            si = self.max_sparks * (fit_list[-1] - fits[idx]) / \
                  (self.pop_size * fit_list[-1] - np.sum(fit_list) + self.EPSILON)
-            Ai = self.max_ea * (self.pop[idx].target.fitness - fit_list[0]) / \
+            Ai = self.max_ea * (fits[idx] - fit_list[0]) / \
                  (np.sum(fit_list) - fit_list[0] + self.EPSILON)
             if si < self.p_a * self.max_sparks:
                 si_ = int(round(self.p_a * self.max_sparks) + 1)
-- 
2.43.0


From 1e65d760628f23810b42a683eab6e9b38f88c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 148/170] fix: NRO: ions are ranked in the problem's direction

---
 mealpy/physics_based/NRO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 47b4ebe..88d2f2c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,8 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        fits = np.array([agent.target.fitness for agent in self.pop])
+        ranked_pop = np.argsort(fits if self.problem.minmax == "min" else -fits)
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +157,8 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        fits = np.array([agent.target.fitness for agent in self.pop])
+        ranked_pop = np.argsort(fits if self.problem.minmax == "min" else -fits)
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From bda7e3c066dfd78a7f99c86c04194323394dff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 149/170] fix: MVO: inflation rates follow the problem's
 direction

---
 mealpy/physics_based/MVO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/MVO.py b/mealpy/physics_based/MVO.py
index a98c299..ccc898a 100644
--- a/mealpy/physics_based/MVO.py
+++ b/mealpy/physics_based/MVO.py
@@ -201,6 +201,8 @@ class OriginalMVO(DevMVO):
         # Travelling Distance Rate (Formula): Eq. (3.4) in the paper
         tdr = 1 - epoch ** (1.0 / 6) / self.epoch ** (1.0 / 6)
         list_fitness_raw = np.array([item.target.fitness for item in self.pop])
+        if self.problem.minmax == "max":
+            list_fitness_raw = -list_fitness_raw
         maxx = max(list_fitness_raw)
         if maxx > (2 ** 64 - 1):
             list_fitness_normalized = self.generator.uniform(0, 0.1, self.pop_size)
-- 
2.43.0


From a9e2a13b57c77c9f5a82a8cd9088ab8be5ac2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 150/170] fix: TOA: information sharing moves towards better
 members when maximising too

---
 mealpy/human_based/TOA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TOA.py b/mealpy/human_based/TOA.py
index 4342cb8..5e44d27 100644
--- a/mealpy/human_based/TOA.py
+++ b/mealpy/human_based/TOA.py
@@ -108,8 +108,11 @@ class OriginalTOA(Optimizer):
                 sf_pos = np.array([self.pop[jdx].solution for jdx in idxs])
                 sf_pos = self.correct_solution(np.mean(sf_pos, axis=0))
                 sf = self.generate_agent(sf_pos)
+            direction = np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+            if self.problem.minmax == "max":
+                direction = -direction
             pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) *
-                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+                                    self.pop[idx].solution) * direction
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_agent(pos_new)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From fec2f498216ec75eae8f95f209374af7dd859487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 151/170] fix: HCO: velocities follow the problem's direction

---
 mealpy/human_based/HCO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index ecc2140..04210fc 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -128,11 +128,14 @@ class OriginalHCO(Optimizer):
         lamda = self.generator.random()
         neu = 2
         fits = np.array([agent.target.fitness for agent in self.pop])
+        fit_best = self.g_best.target.fitness
+        if self.problem.minmax == "max":
+            fits, fit_best = -fits, -fit_best
         fit_mean = np.mean(fits)
-        RR = (self.g_best.target.fitness - fits) ** 2
+        RR = (fit_best - fits) ** 2
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
-        LL = (self.g_best.target.fitness - fit_mean)
+        LL = (fit_best - fit_mean)
         VV = lamda * (ll / (4 * neu * LL)) if LL != 0 else np.zeros(self.pop_size)
         pop_new = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From bb65f4e7075f7b8e6ce4476a6b6c4fefd69ae4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 152/170] fix: WMQIMRFO: the interpolated extremum follows the
 problem's direction

---
 mealpy/swarm_based/MRFO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/MRFO.py b/mealpy/swarm_based/MRFO.py
index 1e337ed..febcdb9 100644
--- a/mealpy/swarm_based/MRFO.py
+++ b/mealpy/swarm_based/MRFO.py
@@ -278,6 +278,8 @@ class WMQIMRFO(Optimizer):
             if idx == self.pop_size-1:
                 idx2, idx3 = 0, 1
             f1, f2, f3 = self.pop[idx].target.fitness, self.pop[idx2].target.fitness, self.pop[idx3].target.fitness
+            if self.problem.minmax == "max":
+                f1, f2, f3 = -f1, -f2, -f3
             x1, x2, x3 = self.pop[idx].solution, self.pop[idx2].solution, self.pop[idx3].solution
             a = f1 / ((x1 - x2) * (x1 - x3) + self.EPSILON) + f2 / ((x2 - x1) * (x2 - x3) + self.EPSILON) + f3 / ((x3 - x1) * (x3 - x2) + self.EPSILON)
             gx = ((x3 ** 2 - x2 ** 2) * f1 + (x1 ** 2 - x3 ** 2) * f2 + (x2 ** 2 - x1 ** 2) * f3) / (2 * ((x3 - x2) * f1 + (x1 - x3) * f2 + (x2 - x1) * f3) + self.EPSILON)
-- 
2.43.0


From eb6770c182ea7a91d047731e43c68255e5577c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 153/170] fix: CG_GWO: the mutation of a leader follows the
 problem's direction

---
 mealpy/swarm_based/GWO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 840673a..8607938 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1322,7 +1322,10 @@ class CG_GWO(Optimizer):
 
         # Calculate sigma (equation 9)
         if abs(best.target.fitness) > 1e-10:
-            sigma = np.exp((leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
+            gap = leader.target.fitness - best.target.fitness
+            if self.problem.minmax == "max":
+                gap = -gap
+            sigma = np.exp(gap / abs(best.target.fitness))
         else:
             sigma = 1.0
         # Generate Cauchy and Gaussian random variables
-- 
2.43.0


From e1e2a0fbbe44565866b619d16becda9e85d5530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 154/170] fix: BSA: vigilance follows the problem's direction

---
 mealpy/swarm_based/BSA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index dedba29..0068e6e 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -130,6 +130,8 @@ class OriginalBSA(Optimizer):
                     A1 = self.a1 * np.exp(-self.pop_size * self.pop[idx].local_target.fitness / (self.EPSILON + fit_sum))
                     k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
                     t1 = (fit_list[idx] - fit_list[k]) / (abs(fit_list[idx] - fit_list[k]) + self.EPSILON)
+                    if self.problem.minmax == "max":
+                        t1 = -t1
                     A2 = self.a2 * np.exp(t1 * self.pop_size * fit_list[k] / (fit_sum + self.EPSILON))
                     x_new = self.pop[idx].solution + A1 * self.generator.uniform(0, 1) * (pos_mean - self.pop[idx].solution) + \
                             A2 * self.generator.uniform(-1, 1) * (self.g_best.solution - self.pop[idx].solution)
-- 
2.43.0


From 0b2c264cf648d57c87b7a5a9bd3f22763841a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 155/170] fix: BA: local search is centred on the best bat and
 differs per dimension

---
 mealpy/swarm_based/BA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BA.py b/mealpy/swarm_based/BA.py
index ef209b6..bc31347 100644
--- a/mealpy/swarm_based/BA.py
+++ b/mealpy/swarm_based/BA.py
@@ -104,7 +104,7 @@ class OriginalBA(Optimizer):
             x_new = self.pop[idx].solution + vec
             ## Local Search around g_best position
             if self.generator.random() > self.pulse_rate:
-                x_new = self.g_best.solution + 0.001 * self.generator.normal(self.problem.n_dims)
+                x_new = self.g_best.solution + 0.001 * self.generator.normal(0, 1, self.problem.n_dims)
             pos_new = self.correct_solution(x_new)
             agent.update(solution=pos_new, velocity=vec)
             pop_new.append(agent)
-- 
2.43.0


From 852e87931c2b3824d6b6dfd6ea6755e37732484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 156/170] fix: the best solution that a run evaluated is its
 global best, also when the population loses it

---
 mealpy/optimizer.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 20498c9..76cbc7a 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -52,7 +52,7 @@ class Optimizer:
         super(Optimizer, self).__init__()
         self.epoch, self.pop_size = None, None
         self.mode, self.n_workers, self.name = None, None, None
-        self.pop, self.g_best, self.g_worst, self.best_in_epoch = None, None, None, None
+        self.pop, self.g_best, self.g_worst, self.best_in_epoch, self.best_found = None, None, None, None, None
         self.problem, self.logger, self.history = None, None, None
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
@@ -179,7 +179,7 @@ class Optimizer:
         self.logger = Logger(self.problem.log_to, log_file=self.problem.log_file).create_logger(name=f"{self.__module__}.{self.__class__.__name__}")
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
-        self.pop, self.g_best, self.g_worst, self.best_in_epoch = None, None, None, None
+        self.pop, self.g_best, self.g_worst, self.best_in_epoch, self.best_found = None, None, None, None, None
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
@@ -430,6 +430,8 @@ class Optimizer:
         else:
             return pop
         self.nfe_counter += len(pop)
+        for agent in pop:
+            self.remember_best(agent.solution, agent.target)
         return pop
 
     def get_target(self, solution: np.ndarray, counted: bool = True) -> Target:
@@ -443,9 +445,23 @@ class Optimizer:
         Returns:
             The target value
         """
-        if counted:
-            self.nfe_counter += 1
-        return self.problem.get_target(solution)
+        if not counted:
+            return self.problem.get_target(solution)
+        self.nfe_counter += 1
+        target = self.problem.get_target(solution)
+        self.remember_best(solution, target)
+        return target
+
+    def remember_best(self, solution: np.ndarray, target: Target) -> None:
+        """
+        Remember the best solution evaluated in this run, also when the optimizer does not keep it in its population
+
+        Args:
+            solution: The evaluated solution
+            target: Its target
+        """
+        if self.best_found is None or self.compare_target(target, self.best_found.target, self.problem.minmax):
+            self.best_found = Agent(solution=np.array(solution), target=target.copy())
 
     @staticmethod
     def compare_target(target_x: Target, target_y: Target, minmax: str = "min") -> bool:
@@ -640,6 +656,11 @@ class Optimizer:
             if self.best_in_epoch is not None:
                 better = self.get_better_agent(better, self.best_in_epoch, self.problem.minmax)
                 self.best_in_epoch = None
+            if self.best_found is not None and self.compare_target(self.best_found.target, better.target, self.problem.minmax):
+                ## The population has lost the best solution of this epoch
+                better = self.generate_empty_agent(self.best_found.solution.copy())
+                better.target = self.best_found.target.copy()
+                better = self.complete_agent(better)
             self.history.list_global_best.append(better)
             ## Save current worst
             self.history.list_current_worst.append(c_worst.copy())
-- 
2.43.0


From 4105be22ff18b4ce8a4b82e37168e590d708ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 157/170] fix: FFA: the best firefly replaces the worst one,
 the population keeps its size

---
 mealpy/swarm_based/FFA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..a123779 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -120,7 +120,10 @@ class OriginalFFA(Optimizer):
             # Compare to Previous Solution
             if self.compare_target(local_best.target, agent.target, self.problem.minmax):
                 self.pop[idx] = local_best
-        self.pop.append(self.g_best)
+        # The global best takes the place of the worst firefly, the population keeps its size
+        list_fitness = [agent.target.fitness for agent in self.pop]
+        idx_worst = np.argmax(list_fitness) if self.problem.minmax == "min" else np.argmin(list_fitness)
+        self.pop[idx_worst] = self.g_best.copy()
         self.dyn_alpha = self.alpha_damp * self.alpha
 
 
-- 
2.43.0


From 42a451833fb3432d0e6a0e92a9a1d0022796a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 158/170] fix: set_parameters keeps the options given to the
 constructor by keyword

---
 mealpy/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 76cbc7a..0b84a35 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -54,6 +54,7 @@ class Optimizer:
         self.mode, self.n_workers, self.name = None, None, None
         self.pop, self.g_best, self.g_worst, self.best_in_epoch, self.best_found = None, None, None, None, None
         self.problem, self.logger, self.history = None, None, None
+        self.options = dict(kwargs)     # Given to the constructor besides the parameters (name, strategies of GA, ...)
         self.__set_keyword_arguments(kwargs)
         self.validator = Validator(log_to="console", log_file=None)
 
@@ -90,7 +91,7 @@ class Optimizer:
             if new_para_names.issubset(valid_para_names):
                 # Everything a constructor derives from the parameters (sizes of groups, weights, ...) has to follow the new
                 # values, so they are taken from an optimizer that is built with them.
-                fresh = self.__class__(**{**self.parameters, **parameters})
+                fresh = self.__class__(**{**self.options, **self.parameters, **parameters})
                 common = Optimizer().__dict__
                 for key, value in fresh.__dict__.items():
                     if key not in common or key in fresh.parameters:
-- 
2.43.0


From 5305e343eeb081debde6156aba293be5fc367f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 159/170] fix: BCO: the position of a migrated bacterium is
 corrected before it is evaluated

---
 mealpy/bio_based/BCO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index bd149b3..f05dd4c 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -162,6 +162,7 @@ class OriginalBCO(Optimizer):
             for idx in range(self.pop_size):
                 if self.generator.random() < self.migration_prob:
                     pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+                    pos_new = self.correct_solution(pos_new)
                     agent_new = self.generate_agent(pos_new)
                     self.pop[idx] = agent_new
                     self.pop_local[idx] = agent_new.copy()
-- 
2.43.0


From 7d40f405f0eded36c2dcee16aa9418c3a4f77fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 160/170] fix: DE: the strategy with 5 random agents runs with
 the smallest population

---
 mealpy/evolutionary_based/DE.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index c86bdbf..675f08b 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -127,7 +127,8 @@ class OriginalDE(Optimizer):
                     self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         elif self.strategy == 3:
             for idx in range(0, self.pop_size):
-                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=False)
+                # The smallest population has only 4 other agents
+                idx_list = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 5, replace=self.pop_size <= 5)
                 pos_new = self.pop[idx_list[0]].solution + self.wf * (self.pop[idx_list[1]].solution - self.pop[idx_list[2]].solution) + \
                           self.wf * (self.pop[idx_list[3]].solution - self.pop[idx_list[4]].solution)
                 pos_new = self.mutation__(self.pop[idx].solution, pos_new)
-- 
2.43.0


From 509ff08af922268ecf94e8553aa3a18dfdaedb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 161/170] fix: SHADE: the group of the best has 2 agents in
 populations of less than 10

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index f0dd529..d90045d 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -113,8 +113,8 @@ class OriginalSHADE(Optimizer):
                 break
             list_cr_new[idx] = cr
             list_f_new[idx] = f
-            p = self.generator.uniform(2 / self.pop_size, 0.2)
-            top = int(self.pop_size * p)
+            p = self.generator.uniform(min(2 / self.pop_size, 0.2), 0.2)
+            top = max(2, int(self.pop_size * p))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From 407f37611897487aa7cda9eabc1855dea38636cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 162/170] fix: INFO: the better agent exists in a population of
 5

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..b1f3e08 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From a24f2f54415c833ef6faa1c72a469d0424e9f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 163/170] fix: SAP_DE: a reduced population keeps enough agents
 for the mutation

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 675f08b..93f1c24 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -568,7 +568,7 @@ class SAP_DE(Optimizer):
         if m_new <= 4:
             m_new = self.fixed_pop_size + int(self.generator.uniform(0, 4))
         elif m_new > 4 * self.fixed_pop_size:
-            m_new = self.fixed_pop_size - int(self.generator.uniform(0, 4))
+            m_new = max(5, self.fixed_pop_size - int(self.generator.uniform(0, 4)))
         ## Change population by population size
         if m_new <= self.pop_size:
             self.pop = pop[:m_new]
-- 
2.43.0


From bc1ccfca90a2b0b5441797b0c28a867317a31008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 164/170] fix: QSA: queue lengths are defined for zero and
 negative fitness values too

---
 mealpy/human_based/QSA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..202f7f3 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
@@ -130,7 +130,7 @@ class DevQSA(Optimizer):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-005:
+        if min(t1, t2, t3) > 1.0e-005:
             cv = t1 / (t2 + t3)
         else:
             cv = 1.0 / 2
@@ -324,7 +324,7 @@ class LevyQSA(DevQSA):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             cv = t1 / (t2 + t3)
         else:
             cv = 1 / 2
-- 
2.43.0


From fd9b448d10534d0b409018ab7b39258dbcc17313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 165/170] fix: GA: multi-point swap mutation visits every
 variable with the mutation probability

---
 mealpy/evolutionary_based/GA.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index d5df773..4632f2f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -252,9 +252,10 @@ class BaseGA(Optimizer):
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
-                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-                    child[idx], child[idx_swap] = child[idx_swap], child[idx]
-                    return child
+                    if self.generator.random() < self.pm:
+                        idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                        child[idx], child[idx_swap] = child[idx_swap], child[idx]
+                return child
             else:       # "flip"
                 mutation_child = self.problem.generate_solution()
                 flag_child = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
@@ -693,9 +694,10 @@ class MultiGA(BaseGA):
             return child
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
-                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-                child[idx], child[idx_swap] = child[idx_swap], child[idx]
-                return child
+                if self.generator.random() < self.pm:
+                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                    child[idx], child[idx_swap] = child[idx_swap], child[idx]
+            return child
         else:       # "flip"
             mutation_child = self.problem.generate_solution()
             flag_child = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
-- 
2.43.0


From 557f7474fa0a47f6449f509c4c001aec1088a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 166/170] fix: GA: inversion and scramble mutation reach the
 last variable and always take a segment

---
 mealpy/evolutionary_based/GA.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 4632f2f..bd1490c 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -268,13 +268,13 @@ class BaseGA(Optimizer):
                 child[idx1], child[idx2] = child[idx2], child[idx1]
                 return child
             elif self.mutation == "inversion":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = sorted(self.generator.choice(range(0, self.problem.n_dims + 1), 2, replace=False))
                 temp = child[cut1:cut2]
                 temp = temp[::-1]
                 child[cut1:cut2] = temp
                 return child
             elif self.mutation == "scramble":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = sorted(self.generator.choice(range(0, self.problem.n_dims + 1), 2, replace=False))
                 temp = child[cut1:cut2]
                 self.generator.shuffle(temp)
                 child[cut1:cut2] = temp
@@ -443,13 +443,13 @@ class SingleGA(BaseGA):
             child[idx1], child[idx2] = child[idx2], child[idx1]
             return child
         elif self.mutation == "inversion":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = sorted(self.generator.choice(range(0, self.problem.n_dims + 1), 2, replace=False))
             temp = child[cut1:cut2]
             temp = temp[::-1]
             child[cut1:cut2] = temp
             return child
         elif self.mutation == "scramble":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = sorted(self.generator.choice(range(0, self.problem.n_dims + 1), 2, replace=False))
             temp = child[cut1:cut2]
             self.generator.shuffle(temp)
             child[cut1:cut2] = temp
-- 
2.43.0


From 9eaeeba7b26a904a396571225a48691cfee9173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 167/170] fix: CRO: larvae can settle on the last place of the
 reef

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index 4b1b921..03ce019 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -128,7 +128,7 @@ class OriginalCRO(Optimizer):
         # Trial to land on a square of reefs
         for larva in larvae:
             for idx in range(self.n_trials):
-                pdx = self.generator.integers(0, self.pop_size - 1)
+                pdx = self.generator.integers(0, self.pop_size)
                 if self.occupied_list[pdx] == 0:
                     self.pop[pdx] = larva
                     self.occupied_idx_list = np.append(self.occupied_idx_list, pdx)  # Update occupied id
-- 
2.43.0


From d932e40893d0b11f573622698876aaded03ac1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 168/170] fix: AEO: the last agent can be a partner in the
 decomposition too

---
 mealpy/system_based/AEO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/system_based/AEO.py b/mealpy/system_based/AEO.py
index 13f5076..5f10ae4 100644
--- a/mealpy/system_based/AEO.py
+++ b/mealpy/system_based/AEO.py
@@ -227,7 +227,7 @@ class ImprovedAEO(OriginalAEO):
             h = 2 * r3 - 1
             if self.generator.random() < 0.5:
                 beta = 1 - (1 - 0) * (epoch/ self.epoch)  # Eq. 21
-                x_r = self.pop[self.generator.integers(0, self.pop_size - 1)].solution
+                x_r = self.pop[self.generator.integers(0, self.pop_size)].solution
                 if self.generator.random() < 0.5:
                     x_new = beta * x_r + (1 - beta) * self.pop[idx].solution
                 else:
-- 
2.43.0


From ef5ecf3fa4d5a1e6a3d7e1816677ec3d08bc1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 169/170] fix: MLFA_GD: with an odd population the last female
 firefly moves too

---
 mealpy/swarm_based/FFA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index a123779..0331120 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -229,7 +229,7 @@ class MLFA_GD(Optimizer):
 
         # --- MALE SUBGROUP UPDATE ---
         for idx in range(self.n_sub):
-            idx_f = self.generator.choice(self.n_sub, self.m_females, replace=False)
+            idx_f = self.generator.choice(len(females), self.m_females, replace=False)
             step = np.zeros(self.problem.n_dims)
             for jdx in idx_f:
                 r = np.linalg.norm(males[idx].solution - females[jdx].solution)
@@ -261,7 +261,7 @@ class MLFA_GD(Optimizer):
         y_gc = y_gc + self.generator.standard_cauchy(self.problem.n_dims) * (rand_male - y_gc)
         y_gc_tar = self.get_target(self.correct_solution(y_gc))
 
-        for idx in range(self.n_sub):
+        for idx in range(len(females)):
             if self.compare_target(y_gc_tar, females[idx].target, self.problem.minmax):
                 r = np.linalg.norm(females[idx].solution - y_gc)
                 pos_new = females[idx].solution + self.beta0 * np.exp(-self.gama * (r ** 2)) * (y_gc - females[idx].solution)
-- 
2.43.0


From 62188dbd6c905f932b11c0bebe7ddfd7bd2060bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 170/170] fix: MLFA_GD: the chaotic variants follow the
 logistic map instead of repeating its first value

---
 mealpy/swarm_based/FFA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 0331120..4e4775d 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -215,7 +215,8 @@ class MLFA_GD(Optimizer):
         ch = np.zeros((k, self.problem.n_dims))
         val = self.generator.random(self.problem.n_dims)
         for idx in range(k):
-            ch[idx] = 4.0 * val * (1.0 - val)  # Logistic map equation
+            val = 4.0 * val * (1.0 - val)  # Logistic map equation
+            ch[idx] = val
         return self.problem.lb + ch * (self.problem.ub - self.problem.lb)
 
     def evolve(self, epoch):
-- 
2.43.0

