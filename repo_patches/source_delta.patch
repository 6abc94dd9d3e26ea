From 5b01268e8bb18945589d715a38f751c681e47685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 01/35] fix: NSGA2 fitness prefers the lower front rank

better_than documents that the individual with the lower rank is better,
but compared ranks with '>', so dominated individuals won.
---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From 4b1dc54e28581ee65ffe7b950b37718fea3a181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 02/35] fix: k-point crossover walks over all cut points

The next segment was looked up with 'end_idx < len(xo_points)', which compares
a cell index with the number of cut points: later segments were not swapped,
or the lookup ran past the end of the list.
---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..5c3e589 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if i + 1 < len(xo_points) else -1
-- 
2.43.0


From 81adef1a7a3a355b60b30ebaca0c0d3a214df3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 03/35] fix: a failed vector mutation returns its individuals

on_fail returned None, so the caller crashed as soon as all attempts failed.
---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..2674d7d 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -133,4 +133,4 @@ class VectorNPointMutation(FailableOperator):
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
         """
-        pass
+        return payload
-- 
2.43.0


From 359704b9cbad3927b80a5630994b32872a7351fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 04/35] fix: a failed mutation attempt reverts all its
 individuals

With arity > 1 only the individual that failed was restored; the ones mutated
before it kept the values of the failed attempt.
---
 .../genetic_operators/mutations/vector_n_point_mutation.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 2674d7d..1f0e61f 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,9 +100,11 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
+        old_individuals = []
         for individual in individuals:
             # clone the individual to revert in case of failure
             old_individual = individual.clone()
+            old_individuals.append(old_individual)
 
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
@@ -118,7 +120,9 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
+                # revert every individual that this attempt has changed
+                for ind, old_ind in zip(individuals, old_individuals):
+                    ind.set_vector(old_ind.vector)
                 break
 
         self.applied_individuals = individuals
-- 
2.43.0


From fbc0959c818f9e94b1bb3f933051acd912e856a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 05/35] fix: default mutation value getter passes the index
 only

get_random_number_in_bounds takes the cell index; the extra argument raised a
TypeError for every VectorNPointMutation without a custom getter.
---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 1f0e61f..12bbede 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From f8296620554e6929d1b73d1e1387852f6b302aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 06/35] fix: bounds of a two-cell vector given as a list are
 per cell

check_if_in_bounds recognised global bounds by their length, so a list of two
(min, max) tuples was compared with the cells as if it were one pair.
---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 9a2f0020ba122d208c3014bf845fcdc2f7c66e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 07/35] fix: default IntVector bounds were swapped

The minimum was above the maximum: no value is in bounds and drawing one raises.
---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From 1ad4738e698c5101dfde20139c5943b2b07cff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 08/35] fix: executor_method='submit' stores scores, not
 individuals

IndividualEvaluator.evaluate returns an individual, which was then stored as
the fitness score; submit evaluate_individual, as the map branch does.
---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 24e0f200a0f421a928cfae49a3dd77eb0b6faa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 09/35] fix: final_generation_ is set when max_generation is
 reached

It was only set on early termination and stayed None otherwise.
---
 eckity/algorithms/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..dbecd8e 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -176,11 +176,11 @@ class Algorithm(Operator, ABC):
         and finally finishing the evolution process
         """
         self.initialize()
+        self.final_generation_ = 0
 
         if self.should_terminate(
             self.population, self.best_of_run_, self.generation_num
         ):
-            self.final_generation_ = 0
             self.publish("after_generation")
         else:
             self.evolve_main_loop()
@@ -285,8 +285,8 @@ class Algorithm(Operator, ABC):
 
             self.set_generation_seed(self.next_seed())
             self.generation_iteration(gen)
+            self.final_generation_ = gen
             if self.should_terminate(self.population, self.best_of_run_, gen):
-                self.final_generation_ = gen
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
-- 
2.43.0


From d58a38997721d7ed7045238e520f3cd7f0f3d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 10/35] fix: constants of the terminal set are not missing
 variables

Tree.execute documents terminal sets such as ['x', 'y', 0, 1, -1] but demanded a
keyword argument for every constant, which cannot be given.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..635bec5 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -269,7 +269,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # only strings are variables, other terminals are constants
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if isinstance(item, str) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
-- 
2.43.0


From dde251683c1b631187c35416c767886cc8e958c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 11/35] fix: trees with constants in the terminal set can be
 printed

str(tree) joined the terminals as strings and raised a TypeError on constants,
which also ended every run in finish().
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 635bec5..aeaadcc 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -504,7 +504,7 @@ class Tree(Individual):
             return typed_add(1.0, 2.0)
         """
         args = (
-            list(self.terminal_set.keys())
+            [str(k) for k in self.terminal_set]
             if None in self.terminal_set.values()
             else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
         )
-- 
2.43.0


From 8eb6670c2b93d77da88efcfde1ae5b4c10dcce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 12/35] fix: a constant tree keeps its value on integer data

full_like took the dtype of X, truncating the constant when X holds integers.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index aeaadcc..a8f445e 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full(X.shape[0], res)
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From 576952bea516f19ccb5d148c4d922d8222173f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 13/35] fix: random terminals have the requested type

ERCs were offered for every numeric type, so a float constant could fill an int
or bool argument, and the node type was looked up by value, where 1, 1.0 and
True collide.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index a8f445e..6c75c53 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type is self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
@@ -215,13 +215,9 @@ class Tree(Individual):
         if not relevant_terminals:
             return None
 
+        # all relevant terminals are of the requested type
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From 3ef6317f1524ebecc30cfccd50f840c608816695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 14/35] fix: HalfCreator passes bloat_weight to its default
 creators

The parameter was accepted and dropped: no bloat control was applied.
---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..27e664d 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From 0df57d874a8b28b153039be7af27c6afcf2a72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 15/35] fix: NSGA2 front sorting keeps the order of the
 individuals

The set difference ordered the remaining individuals by memory address, so runs
with the same seed differed.
---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..5da1797 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,8 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		front = set(pareto_front)
+		return [ind for ind in source_inds if ind not in front]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From 26134e4c152ac87eef057d9c4f919df1103f4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 16/35] fix: clones start with empty selection and operator
 records

selected_by and applied_operators describe the last generation, but were copied
from the parent and grew without bound over the generations.
---
 eckity/individual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..d3bcf16 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -62,6 +62,9 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        # these describe the last generation only
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From 86d397fa1a15c7c145f47282b533686d3a1aa8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 17/35] fix: elite individuals are kept as-is

The operator sequence was applied to the elites as well, so the best individuals
could be lost in spite of elitism.
---
 eckity/breeders/simple_breeder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..69ad266 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -64,10 +64,11 @@ class SimpleBreeder(Breeder):
                 0
             ][0].select(subpopulation.individuals, nextgen_population)
 
-            # then runs all operators on next_gen
-            nextgen_population = self._apply_operators(
+            # then runs all operators on next_gen, elites are kept as-is
+            elites = self.selected_individuals[:num_elites]
+            nextgen_population = elites + self._apply_operators(
                 subpopulation.get_operators_sequence(),
-                self.selected_individuals,
+                self.selected_individuals[num_elites:],
             )
 
             subpopulation.individuals = nextgen_population
@@ -91,7 +92,12 @@ class SimpleBreeder(Breeder):
         """
         for operator in operator_seq:
             operator_arity = operator.get_operator_arity()
-            for i in range(0, len(individuals_to_apply_on), operator_arity):
+            # a trailing group that is too small for the operator is left as-is
+            for i in range(
+                0,
+                len(individuals_to_apply_on) - operator_arity + 1,
+                operator_arity,
+            ):
                 op_res = operator.apply_operator(
                     individuals_to_apply_on[i: i + operator_arity]
                 )
-- 
2.43.0


From cfe3a5709f45ea9b6288cf5074f0e049c8180400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 18/35] fix: fitness proportionate selection is proportional to
 fitness

The scores were passed through softmax unless they happened to sum to 1, which
is exponential, not proportional, in the fitness.
---
 eckity/genetic_operators/selections/fp_selection.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eckity/genetic_operators/selections/fp_selection.py b/eckity/genetic_operators/selections/fp_selection.py
index 356ae42..859903f 100644
--- a/eckity/genetic_operators/selections/fp_selection.py
+++ b/eckity/genetic_operators/selections/fp_selection.py
@@ -1,7 +1,6 @@
 import numpy as np
 
 from overrides import override
-from scipy.special import softmax
 
 from eckity.genetic_operators import SelectionMethod
 
@@ -52,11 +51,9 @@ class FitnessProportionateSelection(SelectionMethod):
             fitness_scores = 1 / (fitness_scores + smoothing)
 
         # generate a distribution of fitness scores
-        fit_p = (
-            softmax(fitness_scores)
-            if np.sum(fitness_scores) != 1
-            else fitness_scores
-        )
+        # (uniform if all scores are zero)
+        total = np.sum(fitness_scores)
+        fit_p = fitness_scores / total if total > 0 else None
 
         # select individuals proportionate to fitness
         selected_inds = np.random.choice(
-- 
2.43.0


From 851099b5f12710260ca33cda5d5f70f9a0667f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 19/35] fix: creation probabilities may sum to 1 up to rounding

The exact comparison rejected valid probabilities, including the defaults for
some numbers of creators.
---
 eckity/subpopulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..7cdd722 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -1,4 +1,5 @@
 import logging
+import math
 import random
 
 import numpy as np
@@ -101,7 +102,7 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        if not math.isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0


From a95cd30ea68c2e5bb29f9d957b2981a189f33903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 20/35] fix: registering without a callback installs a callable

The default was a set holding a lambda, which raised when the event was published.
---
 eckity/before_after_publisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..7c5612d 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -20,7 +20,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = lambda sender, data: None
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From 9151ced17a71740576b23b77ddf494e2af25e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 21/35] fix: NSGA2Evolution breeds with NSGA2Breeder by default

Front sorting keeps half of the individuals; with SimpleBreeder, which does not
double them first, the population was halved in every generation.
---
 eckity/multi_objective_evolution/nsga2_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..91a9d6d 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,8 +4,8 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
@@ -20,7 +20,7 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
+        breeder=NSGA2Breeder(),
         population_evaluator=SimplePopulationEvaluator(),
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
-- 
2.43.0


From 51c7e902b1b6dd7439437c43c83f41f3f258c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 22/35] fix: NSGA2Evolution has no scalar termination checker
 by default

ThresholdFromTargetTerminationChecker subtracts a number from the fitness, which
is a list here, so every run with the default arguments raised.
---
 eckity/multi_objective_evolution/nsga2_evolution.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 91a9d6d..92eab14 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -10,7 +10,6 @@ from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -26,7 +25,7 @@ class NSGA2Evolution(Algorithm):
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
-- 
2.43.0


From abb28c545680817177932685c79e30d12666198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 23/35] fix: add_tree checks nested nodes against their own
 parent

The recursion compared the new node with the argument types of the wrong
ancestor, rejecting well-typed nodes and accepting ill-typed ones below depth 1.
---
 .../genetic_encodings/gp/tree/tree_individual.py   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 6c75c53..0cb7572 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -111,12 +111,14 @@ class Tree(Individual):
         """Add a node to the tree following the defined type constrains"""
         if (
             self.size() == 0 and node.node_type == self.root_type
-        ) or self._should_add([0], node):
+        ) or self._should_add([0], node, node.node_type):
             self.tree.append(node)
         else:
             raise ValueError(f"Could not add node {node} to tree {self.tree}")
 
-    def _should_add(self, pos: int, new_node: TreeNode) -> bool:
+    def _should_add(
+        self, pos: int, new_node: TreeNode, expected_type: Optional[type]
+    ) -> bool:
         """
         Recursively find the parent function of the new node and check it
         matches by type to the expected parameter. (pos is a size-1 list
@@ -125,7 +127,7 @@ class Tree(Individual):
         if (
             pos[0] == self.size()
         ):  # reached the place the new node should be placed
-            return True
+            return new_node.node_type == expected_type
 
         node = self.tree[pos[0]]
         res = None
@@ -133,10 +135,8 @@ class Tree(Individual):
             func_types = get_func_types(node.function)
             for i in range(node.n_args):
                 pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
-                    return func_types[i] == new_node.node_type
-                elif res is not None:
+                res = self._should_add(pos, new_node, func_types[i])
+                if res is not None:
                     return res
         return res
 
-- 
2.43.0


From 381cbd5e6350ffe86ba790eb955349df8f2d5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 24/35] fix: bit vectors support per-cell bounds

A list of bounds is documented and accepted, but drawing a value raised and
bit_flip put a tuple into the vector.
---
 eckity/genetic_encodings/ga/bit_string_vector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..2a79e99 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,16 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        if type(self.bounds) == tuple:
+            return randint(self.bounds[0], self.bounds[1])
+        return randint(self.bounds[index][0], self.bounds[index][1])
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        bounds = self.bounds \
+            if type(self.bounds) == tuple else self.bounds[index]
+        return bounds[1] if self.cell_value(index) == bounds[0] else bounds[0]
 
 # end class bit string vector
-- 
2.43.0


From 1bd568737782cbe38c190f0007359ff957f6c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 25/35] fix: trees do not share the default fitness object

The default argument was one GPFitness instance: evaluating a tree changed the
score of every other tree created with the default.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 0cb7572..cebf0c7 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Fitness = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,8 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From 1da11c9f7d4efe4b80dc701492c57caaac1b8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 26/35] fix: ERC mutation keeps the type of typed constants

Gaussian noise turned int nodes into floats and True/False into numbers, so the
mutated tree no longer respected its types.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index cebf0c7..fe6981c 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -328,6 +328,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..981dc53 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,11 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            new_value = terminal.value + random.gauss(mu, sigma)
+            # integer nodes of typed trees stay integers
+            terminal.value = (
+                round(new_value) if terminal.node_type is int else new_value
+            )
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From 0411bb2baf132dec6271407c5aff6e6ac6b01ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 27/35] fix: an algorithm can be pickled after it has run

Algorithm drops its executor when it is serialized, but its population evaluator
kept a reference to it, so pickling or copying failed after evolve().
---
 eckity/evaluators/population_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..166876d 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	def __getstate__(self):
+		# executors cannot be copied or pickled, set_executor assigns a new one
+		state = self.__dict__.copy()
+		state["executor"] = None
+		return state
-- 
2.43.0


From 13534165f879f67d0e7481bde64325356b88e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 28/35] fix: operators with probability 0 are never applied

random() returns values in [0, 1), so '<=' applied the operator when it drew 0.
---
 eckity/genetic_operators/genetic_operator.py                 | 2 +-
 eckity/genetic_operators/mutations/vector_random_mutation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_operators/genetic_operator.py b/eckity/genetic_operators/genetic_operator.py
index 95220c1..9e440b2 100644
--- a/eckity/genetic_operators/genetic_operator.py
+++ b/eckity/genetic_operators/genetic_operator.py
@@ -42,7 +42,7 @@ class GeneticOperator(Operator, ABC):
         List[Individual]
             The individuals after applying the operator.
         """
-        if random.random() <= self.probability:
+        if random.random() < self.probability:
             # Fitness is irrelevant once the operator is applied
             for individual in individuals:
                 individual.set_fitness_not_evaluated()
diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..6102c67 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -216,7 +216,7 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         super().__init__(probability=probability,
                          arity=arity,
                          mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() <= self.probability_for_each else individual.cell_value(index),
+                             index) if random() < self.probability_for_each else individual.cell_value(index),
                          events=events, cell_selector=lambda vec: list(range(vec.size())))
 
 
@@ -310,7 +310,7 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
             arity=arity,
             mut_val_getter=lambda individual, index: (
                 individual.bit_flip(index)
-                if random() <= self.probability_for_each
+                if random() < self.probability_for_each
                 else individual.cell_value(index)
             ),
             events=events,
-- 
2.43.0


From b44e65533ba9aa4cdfe9041d2796335691b96560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:51 +0000
Subject: [PATCH 29/35] fix: keep an NSGA-II run picklable after its front
 sorting

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 5da1797..2d174a3 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -83,7 +83,7 @@ class NSGA2FrontSorting():
 					front[i].fitness.crowding += curr_crowding
 
 	def _init_domination_dict(self, source_inds: List[Individual]):
-		self.domination_dict = defaultdict(lambda: DominationCounter())
+		self.domination_dict = defaultdict(DominationCounter)
 		for i, ind1 in enumerate(source_inds):
 			for ind2 in source_inds[i + 1:]:
 				self._habdle_domination(ind1, ind2)
-- 
2.43.0


From 11a82cbad35b59adeb4967bf758ce4f1e651af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:06 +0000
Subject: [PATCH 30/35] fix: keep vector mutations picklable (no lambdas kept
 on the operator)

---
 .../mutations/vector_random_mutation.py       | 64 +++++++++++--------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 6102c67..a91b8ed 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -43,9 +43,7 @@ class FloatVectorUniformOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
+            mut_val_getter=self.default_mut_val_getter,
             events=events,
         )
 
@@ -72,9 +70,7 @@ class FloatVectorUniformNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
+            mut_val_getter=self.default_mut_val_getter,
             events=events,
         )
 
@@ -119,12 +115,15 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self.gauss_mut_val_getter,
             events=events,
             attempts=attempts,
         )
+        self.mu = mu
+        self.sigma = sigma
+
+    def gauss_mut_val_getter(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
 
     def on_fail(self, payload):
         """
@@ -177,12 +176,15 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self.gauss_mut_val_getter,
             events=events,
             attempts=attempts,
         )
+        self.mu = mu
+        self.sigma = sigma
+
+    def gauss_mut_val_getter(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
 
     def on_fail(self, payload):
         """
@@ -215,9 +217,16 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         self.probability_for_each = probability_for_each
         super().__init__(probability=probability,
                          arity=arity,
-                         mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() < self.probability_for_each else individual.cell_value(index),
-                         events=events, cell_selector=lambda vec: list(range(vec.size())))
+                         mut_val_getter=self.each_mut_val_getter,
+                         events=events, cell_selector=self.all_cells_selector)
+
+    def each_mut_val_getter(self, individual, index):
+        return individual.get_random_number_in_bounds(
+            index) if random() < self.probability_for_each else individual.cell_value(index)
+
+    @staticmethod
+    def all_cells_selector(vec):
+        return list(range(vec.size()))
 
 
 class IntVectorNPointMutation(VectorNPointMutation):
@@ -241,9 +250,7 @@ class IntVectorNPointMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                index
-            ),
+            mut_val_getter=self.default_mut_val_getter,
             events=events,
             n=n,
         )
@@ -268,13 +275,15 @@ class BitStringVectorFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.bit_flip(
-                index
-            ),
+            mut_val_getter=self.flip_mut_val_getter,
             n=1,
             events=events,
         )
 
+    @staticmethod
+    def flip_mut_val_getter(individual, index):
+        return individual.bit_flip(index)
+
 
 class BitStringVectorNFlipMutation(VectorNPointMutation):
     """
@@ -308,11 +317,14 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: (
-                individual.bit_flip(index)
-                if random() < self.probability_for_each
-                else individual.cell_value(index)
-            ),
+            mut_val_getter=self.each_mut_val_getter,
             events=events,
             n=n
         )
+
+    def each_mut_val_getter(self, individual, index):
+        return (
+            individual.bit_flip(index)
+            if random() < self.probability_for_each
+            else individual.cell_value(index)
+        )
-- 
2.43.0


From d52ff3913a1bcd52080bea4eb3d3497542332d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:10 +0000
Subject: [PATCH 31/35] fix: SubtreeMutation honours the arity it is given

---
 eckity/genetic_operators/mutations/subtree_mutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/subtree_mutation.py b/eckity/genetic_operators/mutations/subtree_mutation.py
index 2811ad6..b284038 100644
--- a/eckity/genetic_operators/mutations/subtree_mutation.py
+++ b/eckity/genetic_operators/mutations/subtree_mutation.py
@@ -17,7 +17,10 @@ class SubtreeMutation(FailableOperator):
         attempts=1,
     ):
         super().__init__(
-            probability=probability, arity=1, events=events, attempts=attempts
+            probability=probability,
+            arity=arity,
+            events=events,
+            attempts=attempts,
         )
         self.init_depth = init_depth
         self.tree_creator = None
-- 
2.43.0


From 3e5f45ca68db53899f321a81216de41bc3ea7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 32/35] fix: a new subscriber does not replace one of the given
 events dictionary

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 7c5612d..bae99de 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -21,7 +21,11 @@ class BeforeAfterPublisher:
         # TODO warning if register to a fake event
         if callback is None:
             callback = lambda sender, data: None
-        self._get_subscribers(event)[self.customers_id] = callback
+        subscribers = self._get_subscribers(event)
+        # ids of an already existing dictionary may be taken
+        while self.customers_id in subscribers:
+            self.customers_id += 1
+        subscribers[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
 
-- 
2.43.0


From d832150860a642ba75dc0d3d088fdfe867ad7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:41 +0000
Subject: [PATCH 33/35] fix: callbacks may subscribe and unsubscribe while they
 are called

---
 eckity/before_after_publisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index bae99de..2a97047 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -35,7 +35,8 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        # callbacks may register or unregister subscribers
+        for callback in list(self._get_subscribers(event_name).values()):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From dc5ac57eb5e5f6aff6686c7ce2249294ff95f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 34/35] fix: algorithms do not share their default breeder and
 evaluator

---
 eckity/algorithms/simple_evolution.py               |  2 +-
 eckity/multi_objective_evolution/nsga2_evolution.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..409ce14 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 92eab14..da38bad 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -19,8 +19,8 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=NSGA2Breeder(),
-        population_evaluator=SimplePopulationEvaluator(),
+        breeder=None,
+        population_evaluator=None,
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
         events=None,
@@ -51,6 +51,12 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From 5bc09522d62e43d7003c9b2c3655a084f89d5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 35/35] fix: NSGA2Evolution releases its workers when the run
 ends

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index da38bad..a1ea494 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -159,6 +159,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0

