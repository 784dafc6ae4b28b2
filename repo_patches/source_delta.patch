From 8a3a46d8f99c590393d06bbf25fcf53a1348c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 01/95] fix: max_learning_rounds off by one in L# and adaptive
 L#

A limit of k performed only k-1 rounds, and a limit of 1 crashed because no
hypothesis was ever built.
---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From 1da7db28b32fd2979dd706c4141fdf28ff04706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 02/95] fix: CacheDict raised KeyError when the initial output
 was recorded

---
 aalpy/base/CacheTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..bb18971 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
-- 
2.43.0


From 566d60e01278a001a9a4359c9ebb8c2a67abd4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 03/95] fix: k-way state coverage did not count tests of
 one-state hypotheses

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..1530bd5 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From 83e43856a795961ac676e7fec93d3b6406c00d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 04/95] fix: k-way state coverage reordered the states of the
 hypothesis

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 1530bd5..832ea05 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -47,10 +47,10 @@ class KWayStateCoverageEqOracle(Oracle):
                         self.sul.post()
                         return path[:i + 1]
 
-        states = hypothesis.states
+        states = list(hypothesis.states)
         shuffle(states)
 
-        for comb in self.fun(hypothesis.states, self.k):
+        for comb in self.fun(states, self.k):
             prefixes = frozenset([c.prefix for c in comb])
             if prefixes in self.cache:
                 continue
-- 
2.43.0


From b7db5268729777c5c09bdb4ec1535bae2b6d2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 05/95] fix: k-way state coverage tested a single order of each
 permutation

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 832ea05..3d01784 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -51,7 +51,9 @@ class KWayStateCoverageEqOracle(Oracle):
         shuffle(states)
 
         for comb in self.fun(states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+            prefixes = tuple(c.prefix for c in comb)
+            if self.fun is combinations:
+                prefixes = frozenset(prefixes)
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From 5e8d749e386314a2c71b8d46ca8976b9c62054c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 06/95] fix: resetting the random word oracle left it without
 walks

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..f943777 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -92,4 +92,5 @@ class RandomWordEqOracle(Oracle):
 
     def reset_counter(self):
         if self.reset_after_cex:
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
             self.num_walks_done = 0
-- 
2.43.0


From 5b822824452df2278c3c50dd18b1e4bf892e5d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 07/95] fix: provided sequences oracle miscounted the tests of
 its nested oracle

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..25f6cbe 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -35,12 +35,12 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
             self.provided_counterexamples.remove(provided_cex)
 
+        queries_before, steps_before = self.oracle.num_queries, self.oracle.num_steps
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - queries_before
+        self.num_steps += self.oracle.num_steps - steps_before
 
         return cex
 
-- 
2.43.0


From 9ac981b8213b950892028dafacc2f6e46fc7573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 08/95] fix: state prefix oracle performed one test less than
 max_tests and ignored the limit on later calls

---
 aalpy/oracles/StatePrefixEqOracle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..e96098e 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -55,13 +55,13 @@ class StatePrefixEqOracle(Oracle):
             random.shuffle(states_to_cover)
 
         for state in states_to_cover:
+            if self.max_tests and self.num_queries >= self.max_tests:
+                return None
+
             self.freq_dict[state.prefix] = self.freq_dict[state.prefix] + 1
 
             self.reset_hyp_and_sul(hypothesis)
 
-            if self.max_tests and self.num_queries == self.max_tests:
-                return None
-
             prefix = state.prefix
             for p in prefix:
                 hypothesis.step(p)
-- 
2.43.0


From 741da78188ef6da4c2abd0d4f804aab0b8525478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 09/95] fix: state prefix oracle ignored differences on the
 access sequence

---
 aalpy/oracles/StatePrefixEqOracle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index e96098e..8fbc2f7 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -63,11 +63,15 @@ class StatePrefixEqOracle(Oracle):
             self.reset_hyp_and_sul(hypothesis)
 
             prefix = state.prefix
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+            for ind, p in enumerate(prefix):
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                if out_sul != out_hyp:
+                    self.sul.post()
+                    return prefix[:ind + 1]
+
             suffix = ()
             for _ in range(self.steps_per_walk):
                 suffix += (random.choice(self.alphabet),)
-- 
2.43.0


From f47e8ae7c90f692a9e570af326fec4ccc8938176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 10/95] fix: cache based oracle mixed inputs of sibling
 branches into its paths

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From 1afcd065eb796146b26643d068e09916ea572aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 11/95] fix: cache based oracle ignored differences on the
 cached prefix

---
 aalpy/oracles/CacheBasedEqOracle.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index a777352..dc9bda4 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -52,11 +52,17 @@ class CacheBasedEqOracle(Oracle):
             inputs = []
             inputs.extend(prefix)
 
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+            for ind, p in enumerate(prefix):
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                if out_sul != out_hyp:
+                    if self.reset_after_cex:
+                        self.num_walks_done = 0
+                    self.sul.post()
+                    return inputs[:ind + 1]
+
             for _ in range(walk_len):
                 inputs.append(choice(self.alphabet))
 
-- 
2.43.0


From 4b1a701b2aada76776392671c61b0461dfb89b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 12/95] fix: W-method oracle skipped tests an earlier
 hypothesis had passed

---
 aalpy/oracles/WMethodEqOracle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..f3854ec 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -58,6 +58,9 @@ class WMethodEqOracle(Oracle):
             for letter in self.alphabet
         ]
 
+        # a test passed by an earlier hypothesis need not be passed by this one
+        self.cache.clear()
+
         depth = self.m + 1 - len(hypothesis.states)
         for seq in self.test_suite(transition_cover, depth, hypothesis.characterization_set):
             if seq not in self.cache:
-- 
2.43.0


From 1c25bcc3166310366430897c30cd7025066ed3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 13/95] fix: Wp-method oracle skipped tests an earlier
 hypothesis had passed

---
 aalpy/oracles/WpMethodEqOracle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..cdd9b2c 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -85,6 +85,9 @@ class WpMethodEqOracle(Oracle):
 
         state_cover = set(state.prefix for state in hypothesis.states)
         difference = transition_cover.difference(state_cover)
+        # a test passed by an earlier hypothesis need not be passed by this one
+        self.cache.clear()
+
         depth = self.m + 1 - len(hypothesis.states)
         # first phase State Cover * Middle * Characterization Set
         first_phase = first_phase_it(self.alphabet, state_cover, depth, hypothesis.characterization_set)
-- 
2.43.0


From d2bb5082f474ac893bab702c996241bba0a542d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 14/95] fix: Wp-method oracle skipped the second phase for
 states without identification set

---
 aalpy/oracles/WpMethodEqOracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index cdd9b2c..5a40cc2 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -59,7 +59,7 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 if state not in state_mapping:
                     state_mapping[state] = state_characterization_set(hyp, alphabet, state)
 
-                for sm in state_mapping[state]:
+                for sm in state_mapping[state] or [()]:
                     yield t + mid + sm
 
 
-- 
2.43.0


From 98923c9ba401602964d10d334fdce002024d9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 15/95] fix: breadth-first exploration never repeated a test
 for a changed hypothesis

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..95e2972 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -34,8 +34,7 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
-        while self.queue:
-            test_case = self.queue.pop()
+        for test_case in self.queue:
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
-- 
2.43.0


From 7e4151c99a2f38c086fdb492f00acf2a4596abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 16/95] fix: k-way transition coverage counted transitions of
 earlier hypotheses as covered

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..072eeee 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # transitions covered by paths of earlier hypotheses have to be recomputed
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From 2a750f8842994b4ffc26ac5d788fdb7d5f5fd53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 17/95] fix: transition focus oracle always chose among
 transitions of the initial state

---
 aalpy/oracles/TransitionFocusOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..985442e 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -34,6 +34,7 @@ class TransitionFocusOracle(Oracle):
             curr_state = hypothesis.initial_state
             inputs = []
             for _ in range(self.steps_per_walk):
+                curr_state = hypothesis.current_state
                 if random.random() <= self.same_state_prob:
                     possible_inputs = curr_state.get_same_state_transitions()
                 else:
-- 
2.43.0


From 928301d3acfb36c32eeab6dc974289059be478a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 18/95] fix: stochastic L* reported a wrong number of learning
 steps

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From 5323d6b459052213f5486b502e929051ac0d5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 19/95] fix: minimization could remove the initial state

---
 aalpy/base/Automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..bb2f2e9 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -437,6 +437,9 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
 
         s1, s2 = self.compute_characterization_set(return_same_states=True)
         while s1 and s2:
+            # the initial state must stay part of the automaton
+            if s2 == self.initial_state:
+                s1, s2 = s2, s1
             for s in self.states:
                 for i, new_state in s.transitions.items():
                     if new_state == s2:
-- 
2.43.0


From 82b016d675584d4da32f79a6cf7b26e90ee26d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 20/95] fix: characterization set computation extended the
 caller's initial list

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index bb2f2e9..852c720 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 6096a0e58cc27fbda8044d39d02e6e4c294971ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 21/95] fix: no distinguishing sequence was found for states
 that only differ in their own output

---
 aalpy/base/Automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 852c720..20369c4 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -275,6 +275,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         Returns: an input sequence distinguishing two states, or None if the states are equivalent
 
         """
+        # states that carry an output may already be distinguished by the empty sequence
+        if self.compute_output_seq(state1, ()) != self.compute_output_seq(state2, ()):
+            return []
+
         visited = set()
         to_explore = [(state1, state2, [])]
         while to_explore:
-- 
2.43.0


From 0f8fe7af8d5fa1f626a81475ea7dc44b5311314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 22/95] fix: characterization set of state-labelled automata
 lacked the empty sequence when an initial set was given

---
 aalpy/automata/Dfa.py          | 5 ++++-
 aalpy/automata/MooreMachine.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..d93cccb 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,7 +42,10 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(Dfa, self).compute_characterization_set(char_set_init,
                                                              online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..5554655 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,7 +39,10 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init,
                                                                       online_suffix_closure, split_all_blocks,
                                                                       return_same_states, raise_warning)
 
-- 
2.43.0


From 6010a27d26250eb4d32f646c379c882cad6eb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 23/95] fix: random W-method oracle failed on automata with
 unreachable states

---
 aalpy/oracles/WMethodEqOracle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index f3854ec..b124a94 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -118,6 +118,9 @@ class RandomWMethodEqOracle(Oracle):
         for state in hypothesis.states:
             if state.prefix is None:
                 state.prefix = hypothesis.get_shortest_path(hypothesis.initial_state, state)
+            # unreachable states cannot be covered
+            if state.prefix is None:
+                continue
             if state.prefix not in self.freq_dict.keys():
                 self.freq_dict[state.prefix] = 0
 
-- 
2.43.0


From 6068bc39a9ca89b381100a424e6410bd4f02144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 24/95] fix: state setup of stochastic models reordered the
 states of the model

---
 aalpy/automata/Mdp.py                    | 8 ++------
 aalpy/automata/StochasticMealyMachine.py | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 8f530ad..fb8b50d 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -69,12 +69,8 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure initial state is first in the list
-        if self.states[0] != self.initial_state:
-            self.states.remove(self.initial_state)
-            self.states.insert(0, self.initial_state)
-
-        for s in self.states:
+        # ensure initial state is first in the setup
+        for s in sorted(self.states, key=lambda x: x is not self.initial_state):
             state_setup_dict[s.state_id] = (s.output, {k: [(node.state_id, prob) for node, prob in v]
                                                        for k, v in s.transitions.items()})
 
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..c65f41d 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -73,12 +73,8 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure initial state is first in the list
-        if self.states[0] != self.initial_state:
-            self.states.remove(self.initial_state)
-            self.states.insert(0, self.initial_state)
-
-        for s in self.states:
+        # ensure initial state is first in the setup
+        for s in sorted(self.states, key=lambda x: x is not self.initial_state):
             state_setup_dict[s.state_id] = {k: [(node.state_id, output, prob) for node, output, prob in v]
                                             for k, v in s.transitions.items()}
 
-- 
2.43.0


From 177ad5afdf01351bbeecc537f0bd64f60cf4f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 25/95] fix: state setup of non-deterministic Moore machines
 was not returned

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..1f78813 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 577bcdc8ccdfa5a2098ab8f3d72164055c9835f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 26/95] fix: VPAs could not be converted to a state setup,
 copied or pickled

---
 aalpy/automata/Vpa.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..e721ba3 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -153,13 +153,11 @@ class Vpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        # ensure prefixes are computed
-        # self.compute_prefixes()
-
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
-        for s in sorted_states:
+        # initial state is the first one in the setup
+        for s in sorted(self.states, key=lambda x: x is not self.initial_state):
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -218,7 +216,7 @@ class Vpa(Automaton):
                 state_setup (dict): A dictionary mapping from state IDs to tuples containing
                     (is_accepting: bool, transitions_dict: dict), where transitions_dict maps input symbols to
                     lists of tuples (target_state_id, action, stack_guard).
-                init_state_id (str): The state ID for the initial state of the VPA.
+                init_state_id (str): The state ID for the initial state of the VPA (default: first state).
                 input_alphabet (VpaAlphabet): The alphabet for the VPA.
 
             Returns:
@@ -226,7 +224,8 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        # first state is the initial one unless specified otherwise
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From decf0e956eff14e4fc42fa4333492c01cfe9230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 27/95] fix: 1-SEVPAs could not be copied or pickled

---
 aalpy/automata/Sevpa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..379e18c 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # initial state is the first one in the setup
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # first state is the initial one unless specified otherwise
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From d1d210a5b8f45d45a0f134d1a25fbb8fa420dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 28/95] fix: prefixes were not computed when loading
 deterministic automata

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..5a1d5e4 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -406,7 +406,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and automaton_type in {'dfa', 'moore', 'mealy'}:
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From e2892959b7cbc80b7e97b7281c9978c5ea0007aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 29/95] fix: return transitions of loaded 1-SEVPAs were stored
 under a wrong letter

---
 aalpy/utils/FileHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 5a1d5e4..cdbe19b 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -256,13 +256,14 @@ def _process_label(label, source, destination, automaton_type):
         source.transitions[inp].append((destination, out, float(prob)))
     if automaton_type == 'sevpa':
         match = re.match(sevpa_transition_pattern, label)
-        # cast to integer
-        label = int(label) if label.isdigit() else label
         if match:
             ret, stack_guard, top_of_stack = match.groups()
+            ret = int(ret) if ret.isdigit() else ret
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            source.transitions[ret].append(return_transition)
         else:
+            # cast to integer
+            label = int(label) if label.isdigit() else label
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
         pass
-- 
2.43.0


From b6a95bc028333bee07039cd8ff1298561cba860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 30/95] fix: ONFSM transitions could not be looked up by an
 output that is falsy

---
 aalpy/automata/Onfsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..46eff06 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -38,7 +38,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
 
         """
         possible_transitions = self.transitions[input]
-        if output:
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From bf72e698c62167a5cf282382ed66092aa65f3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 31/95] fix: conversion of an MDP to a Markov chain ignored a
 falsy input symbol

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..c581dcd 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -435,7 +435,7 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    input_symbol = alphabet[0] if input_symbol is None else input_symbol
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 991e859295689c3e993e7936771909dff0ddfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 32/95] fix: classic RPNI failed on Mealy data

---
 .../deterministic_passive/ClassicRPNI.py      | 24 +++++--------------
 .../rpni_helper_functions.py                  |  9 +++----
 2 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..dccc429 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -70,12 +70,7 @@ class ClassicRPNI:
             # None is compatible with everything
             return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
         else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+            return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -112,18 +107,11 @@ class ClassicRPNI:
                 red_node.children[i] = blue_node.children[i]
 
     def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
+        red_node.output.update(blue_node.output)
 
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
+        for i in blue_node.children.keys():
+            if i in red_node.children.keys():
+                self._fold_mealy(red_node.children[i], blue_node.children[i])
             else:
-                red_node.children[io] = blue_node.children[io]
+                red_node.children[i] = blue_node.children[i]
 
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..a0c7115 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,9 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            if o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -118,8 +117,10 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
+            # outputs of Mealy machines are stored in the source node of a transition
+            output = curr_node.output.get(i) if curr_node.type == 'mealy' else None
             curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            seq.append((i, output if curr_node.type == 'mealy' else curr_node.output))
         paths.append(seq)
 
     return paths
-- 
2.43.0


From 6739fba766b137868543e3ed112fc5b56f787a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 33/95] fix: classic RPNI ignored the label of the empty
 sequence and failed on contradictory data

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index dccc429..4cec18e 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -12,7 +12,9 @@ class ClassicRPNI:
 
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
-        self.test_data = extract_unique_sequences(self.root_node)
+        self.test_data = extract_unique_sequences(self.root_node) if self.root_node is not None else []
+        # label of the empty sequence (checked separately, as it is not part of any sequence in test_data)
+        self.root_output = self.root_node.output if self.root_node is not None and automaton_type != 'mealy' else None
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.root_output is not None and root_node.output != self.root_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From 4f53e38723e43b699704f93f7bffc1067edc3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 34/95] fix: GSM ignored contradictory labels of the empty
 sequence

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..f408936 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -421,6 +421,8 @@ class GsmNode:
                 transitions[output] = transitions.pop(unknown_output)
             if output not in transitions:
                 raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
+        elif curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
 
     @staticmethod
     def createPTA(data, output_behavior, data_format=None) -> 'GsmNode':
-- 
2.43.0


From d939c93489b398869866861810d800ae61b44dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 35/95] fix: GSM ignored contradictory initial outputs

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index f408936..77d15f2 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -442,6 +442,8 @@ class GsmNode:
         if data_format == "io_traces" or data_format == "traces":
             if output_behavior == "moore":
                 initial_output = data[0][0]
+                if any(d[0] != initial_output for d in data):
+                    raise ValueError("the initial output has to be the same for all traces")
                 root_node.prefix_access_pair = (None, initial_output)
                 data = (d[1:] for d in data)
             for trace in data:
-- 
2.43.0


From 01163173d3f7928c37bff0e48c5470fe33c06139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 36/95] fix: a state of a 1-SEVPA that leads to the error state
 was taken for the error state

---
 aalpy/automata/Sevpa.py | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 379e18c..3a12f5e 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -310,45 +310,26 @@ class Sevpa(Automaton):
             - if the pop transitions from the corresponding stack symbol lead to the same state
             - for example:
                 - all q2 transitions lead to q2
-                - the pop transitions from the initial state which pop the q2+call-symbol from the stack lead to q2 as well
+                - the pop transitions (of every state) which pop the q2+call-symbol from the stack lead to q2 as well
 
             - Not an error state if it is the initial state or an accepting state
         """
 
         for state in self.states:
 
-            is_error_state = True
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
-            # check internal and return transitions
-            ret_int_al = []
-            ret_int_al.extend(self.input_alphabet.internal_alphabet)
-            ret_int_al.extend(self.input_alphabet.return_alphabet)
-            for letter in ret_int_al:
-                for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
-                            is_error_state = False
-                            break
-                if not is_error_state:
-                    break
+            # all internal and return transitions have to be self loops
+            is_error_state = all(transition.target_state == state
+                                 for transitions in state.transitions.values() for transition in transitions)
 
-            # check return transitions from the initial state
+            # popping a symbol that was pushed in the state has to lead back to it
             if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
-                                is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
+                is_error_state = all(transition.target_state == state
+                                     for origin in self.states
+                                     for transitions in origin.transitions.values() for transition in transitions
+                                     if transition.action == 'pop' and transition.stack_guard[0] == state.state_id)
 
             if is_error_state:
                 return state
-- 
2.43.0


From e95ca038ad8768a2c8ab0b87671b968590afe5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 37/95] fix: KV for 1-SEVPAs did not terminate when a state
 only looked like an error state

---
 .../deterministic/ClassificationTree.py             | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..c46809c 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -70,9 +70,6 @@ class ClassificationTree:
         self.initial_state = None
         self.hypothesis_states = {}
 
-        # prefix of identified error state in VPDA learning
-        self.error_state_prefix = None
-
         if self.automaton_type != 'mealy':
             initial_output = sul.query(())[-1]
             cex_output = sul.query(cex)[-1]
@@ -225,9 +222,6 @@ class ClassificationTree:
                             continue
 
                         for other_state in self.hypothesis_states.values():
-                            # ignore other state if other state is error state
-                            if other_state.prefix == self.error_state_prefix:
-                                continue
                             transition_target_node = self._sift(
                                 other_state.prefix + (input_element,) + state.prefix + (return_letter,))
                             transition_target_access_string = transition_target_node.access_string
@@ -238,12 +232,7 @@ class ClassificationTree:
                             state.transitions[return_letter].append(trans)
 
         if self.automaton_type == 'vpa':
-            hypothesis = Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
-            if not self.error_state_prefix:
-                error_state = hypothesis.get_error_state()
-                if error_state:
-                    self.error_state_prefix = error_state.prefix
-            return hypothesis
+            return Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
 
         return automaton_class[self.automaton_type](initial_state=self.initial_state,
                                                     states=list(self.hypothesis_states.values()))
-- 
2.43.0


From 12fac050cdcfe6c5b1904bb9bfedb5128ce7c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 38/95] fix: PAPNI raised AttributeError instead of returning
 None for contradictory data

---
 aalpy/learning_algs/deterministic_passive/RPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..8e733ba 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,10 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    # data was not deterministic
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
-- 
2.43.0


From bf286888daf08a7306e8c738a1600832c0da7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 39/95] fix: PAPNI mistook letters that are tuples for paired
 return letters

---
 aalpy/automata/Vpa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index e721ba3..aa0b906 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -313,7 +313,10 @@ def vpa_from_dfa_representation(dfa_repr, vpa_alphabet):
             reached_state = vpa_states[reached_dfa_state.state_id]
 
             top_of_stack = None
-            if isinstance(input_symbol, tuple):
+            # returns are paired with the top of the stack, letters of the alphabet that are tuples are not
+            if isinstance(input_symbol, tuple) and \
+                    input_symbol not in vpa_alphabet.internal_alphabet and \
+                    input_symbol not in vpa_alphabet.call_alphabet:
                 input_symbol, top_of_stack = input_symbol[0], input_symbol[1]
 
             if input_symbol in vpa_alphabet.return_alphabet:
-- 
2.43.0


From 749f9a87dc301f4d6e676911de0e260bca0fbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 40/95] fix: non-deterministic L* performed one learning round
 more than max_learning_rounds

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..a4c0659 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,7 +67,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+        if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
 
         ot.S = list()
-- 
2.43.0


From 737a466008117b0ae4264246e8fed7a4a2630383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 41/95] fix: non-deterministic L* could build a hypothesis from
 a table that was not closed

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index a4c0659..dc726cd 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -77,8 +77,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         row_to_close = ot.get_row_to_close()
         while row_to_close is not None:
             ot.query_missing_observations()
-            row_to_close = ot.get_row_to_close()
             ot.clean_obs_table()
+            row_to_close = ot.get_row_to_close()
 
         hypothesis = ot.gen_hypothesis()
 
-- 
2.43.0


From 1c7656b0a9fc7d64bbf39f7bd5bf3127dd0ff782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 42/95] fix: stochastic=True made non-deterministic L* rebuild
 the model from a table that need not be closed

---
 .../non_deterministic/OnfsmLstar.py           |  2 +-
 .../OnfsmObservationTable.py                  | 47 +++++++++++++------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index dc726cd..02f7b1d 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -112,7 +112,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
                     break
 
     if stochastic:
-        hypothesis = ot.gen_hypothesis(stochastic=True)
+        hypothesis = ot.to_stochastic(hypothesis)
 
     total_time = round(time.time() - start_time, 2)
     eq_query_time = round(eq_query_time, 2)
diff --git a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
index 68c9d14..0138f2d 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
@@ -151,10 +151,9 @@ class NonDetObservationTable:
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-    def gen_hypothesis(self, stochastic=False):
+    def gen_hypothesis(self):
         """
         Generate automaton based on the values found in the observation table.
-        If stochastic is set to True, returns a Stochastic Mealy Machine.
 
         Returns:
 
@@ -167,12 +166,9 @@ class NonDetObservationTable:
 
         stateCounter = 0
 
-        state_class = OnfsmState if not stochastic else StochasticMealyState
-        model_class = Onfsm if not stochastic else StochasticMealyMachine
-
         for prefix in self.S:
             state_id = f's{stateCounter}'
-            states_dict[prefix] = state_class(state_id)
+            states_dict[prefix] = OnfsmState(state_id)
 
             states_dict[prefix].prefix = prefix
             state_distinguish[self.row_to_hashable(prefix)] = states_dict[prefix]
@@ -184,21 +180,42 @@ class NonDetObservationTable:
         for prefix in self.S:
             for a in self.A:
                 observations_in_cell = self.sul.cache.get_all_traces(prefix, a)
-                probability_distribution = None
-                if stochastic:
-                    probability_distribution = self.sul.cache.get_sampling_distributions(prefix, a[0])
                 for obs in observations_in_cell:
                     reached_row = (prefix[0] + a, prefix[1] + (obs[-1],))
                     destination = state_distinguish[self.row_to_hashable(reached_row)]
                     assert destination
-                    if not stochastic:
-                        states_dict[prefix].transitions[a[0]].append((obs[-1], destination))
-                    else:
-                        states_dict[prefix].transitions[a[0]].append((destination, obs[-1],
-                                                                      probability_distribution[obs[-1]]))
+                    states_dict[prefix].transitions[a[0]].append((obs[-1], destination))
 
         assert initial
-        automaton = model_class(initial, [s for s in states_dict.values()])
+        automaton = Onfsm(initial, [s for s in states_dict.values()])
         automaton.characterization_set = self.E
 
         return automaton
+
+    def to_stochastic(self, hypothesis):
+        """
+        Adds sampled probabilities to the transitions of the hypothesis.
+
+        Args:
+
+            hypothesis: ONFSM constructed from the observation table
+
+        Returns:
+
+            Stochastic Mealy machine with the structure of the hypothesis
+        """
+        states_dict = {state: StochasticMealyState(state.state_id) for state in hypothesis.states}
+
+        for state, stochastic_state in states_dict.items():
+            stochastic_state.prefix = state.prefix
+            for a, transitions in state.transitions.items():
+                distribution = self.sul.cache.get_sampling_distributions(state.prefix, a)
+                total = sum(distribution[output] for output, _ in transitions)
+                for output, destination in transitions:
+                    stochastic_state.transitions[a].append((states_dict[destination], output,
+                                                            distribution[output] / total))
+
+        automaton = StochasticMealyMachine(states_dict[hypothesis.initial_state], list(states_dict.values()))
+        automaton.characterization_set = hypothesis.characterization_set
+
+        return automaton
-- 
2.43.0


From 6b908e7fd6f8567ee659e5b1f70b532e1080e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 43/95] fix: abstracted ONFSM learning did not sample all rows
 of its table (KeyError)

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..9c31a94 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -49,6 +49,11 @@ class AbstractedNonDetObservationTable:
 
         """
 
+        if s_set is None:
+            # S.A also contains rows which are not one-step extensions of rows in S
+            s_set = self.observation_table.S + self.observation_table.get_extended_S()
+            s_set += [row for row in self.S_dot_A if row not in s_set]
+
         self.observation_table.query_missing_observations(s_set, e_set)
         self.abstract_obs_table()
         self.clean_obs_table()
-- 
2.43.0


From 1de2d4c472cdd1e908b7b81d0adae7678b47d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 44/95] fix: abstracted ONFSM learning never found its table
 inconsistent

---
 .../AbstractedOnfsmObservationTable.py            | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 9c31a94..038d99c 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -197,17 +197,20 @@ class AbstractedNonDetObservationTable:
                 #                 outputs = self.observation_table.T[s_row[0]][a]
                 outputs = self.get_all_outputs(s_row[0], a)
                 for o in outputs:
-                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + tuple([o]))
+                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + o)
                     if extended_s_sequence in unified_S:
                         extended_s_sequence_row = self.row_to_hashable(extended_s_sequence)
                         for similar_s_dot_a_row in similar_s_dot_a_rows:
                             extended_s_dot_a_sequence = (
-                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o]))
+                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + o)
                             if extended_s_dot_a_sequence in unified_S:
                                 extended_s_dot_a_sequence_row = self.row_to_hashable(extended_s_dot_a_sequence)
-                                if extended_s_sequence_row is not extended_s_dot_a_sequence_row:
-                                    return self.get_distinctive_input_sequence(extended_s_sequence,
-                                                                               extended_s_dot_a_sequence, a)
+                                if extended_s_sequence_row != extended_s_dot_a_sequence_row:
+                                    seq = self.get_distinctive_input_sequence(extended_s_sequence,
+                                                                              extended_s_dot_a_sequence, a[0])
+                                    # the abstraction might hide the difference between the two rows
+                                    if seq not in self.E:
+                                        return seq
 
         return None
 
@@ -227,7 +230,7 @@ class AbstractedNonDetObservationTable:
 
         """
         for e in self.E:
-            if len(self.T[first_row][e].difference(self.T[second_row][e])) > 0:
+            if self.T[first_row][e] != self.T[second_row][e]:
                 return tuple([inp]) + e
 
         return None
-- 
2.43.0


From cc3725d50a0dc96a5dc77ee47ae4c9fbdd6305ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 45/95] fix: abstracted ONFSM learning repeated a
 counterexample forever when its suffixes were known

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 038d99c..0cadc47 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -402,7 +402,10 @@ class AbstractedNonDetObservationTable:
                 equivalent_output = True
                 break
 
-        if equivalent_output:
+        cex_suffixes = all_suffixes(cex[0])
+
+        # If all suffixes are already in E, only the prefixes can provide new information
+        if equivalent_output or all(suffix in self.observation_table.E for suffix in cex_suffixes):
             # add prefixes of cex to S_dot_A
             cex_prefixes = [(tuple(cex[0][0:i + 1]), tuple(cex[1][0:i + 1])) for i in range(0, len(cex[0]))]
             prefixes_to_extend = self.extend_S_dot_A(cex_prefixes)
@@ -415,8 +418,6 @@ class AbstractedNonDetObservationTable:
             # CHANGED CEX PROX
             # TODO: this will now not work as cex processing was changed
             # cex_suffixes = non_det_longest_prefix_cex_processing(self.observation_table, cex)
-            cex_suffixes = all_suffixes(cex[0])
-
             added_suffixes = extend_set(self.observation_table.E, cex_suffixes)
             self.update_obs_table(e_set=added_suffixes)
 
-- 
2.43.0


From 9f8f4b2f410342fa05924953b456151840479291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 46/95] fix: transforming a ScoreCalculation (make_greedy,
 lower_threshold) recursed forever

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..5137924 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        original_score_function = score.score_function
+        score.score_function = lambda *args: transform(original_score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From 839567262e6df22db2de3e06212f1541ff5814dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 47/95] fix: run_Alergia_EDSM failed for Markov chains when the
 data has no transition

---
 aalpy/learning_algs/general_passive/GsmAlgorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/GsmAlgorithms.py b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
index 02d85d4..c91259b 100644
--- a/aalpy/learning_algs/general_passive/GsmAlgorithms.py
+++ b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
@@ -166,6 +166,6 @@ def run_Alergia_EDSM(data, automaton_type, eps=0.05, print_info=False):
                             instrumentation=print_level, data_format='io_traces')
 
     if automaton_type == 'mc':
-        learned_model = mc_from_mdp(learned_model)
+        learned_model = mc_from_mdp(learned_model, input_symbol='Input')
 
     return learned_model
-- 
2.43.0


From db52b643acfc6045fe34198cda7721dd45ccece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 48/95] fix: TomitaSUL answered the empty word for the string
 'None'

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From 96925ef1f15d535a376bfb23ecc8ddcc7c39aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 49/95] fix: FunctionDecorator dropped falsy arguments such as
 0, False and ''

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From f7c55821976414e132b1fbb65737cf32eb8f34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 50/95] fix: RegexSUL accepted inexact matches of alternatives
 and escaped dollars and failed on the empty expression

---
 aalpy/SULs/RegexSUL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..1b9a610 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -5,11 +5,11 @@ import re
 class RegexSUL(SUL):
     """
     An example implementation of a system under learning that can be used to learn any regex expression.
-    Note that the $ is added to the expression as in this SUL only exact matches are learned.
+    Note that in this SUL only exact matches are learned, whether or not the expression ends with $.
     """
     def __init__(self, regex: str):
         super().__init__()
-        self.regex = regex if regex[-1] == '$' else regex + '$'
+        self.regex = regex
         self.string = ""
 
     def pre(self):
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return True if re.fullmatch(self.regex, self.string) else False
-- 
2.43.0


From 05485a7b583b1f252ca655d726a78e42c43c0e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 51/95] fix: get_complete_sample was empty for Mealy machines
 with a single state

---
 aalpy/utils/Sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/Sampling.py b/aalpy/utils/Sampling.py
index 3e6d454..65eb57a 100644
--- a/aalpy/utils/Sampling.py
+++ b/aalpy/utils/Sampling.py
@@ -83,5 +83,8 @@ def get_complete_sample(automaton: DeterministicAutomaton):
     alphabet = automaton.get_input_alphabet()
     automaton.compute_prefixes()
     char_set = automaton.compute_characterization_set()
+    if char_set == []:
+        # a single state needs no separation, but its transitions still belong to the sample
+        char_set = [tuple()]
     infixes = [(x,) for x in alphabet] + [tuple()]
     return [state.prefix + infix + suffix for state in automaton.states for suffix in char_set for infix in infixes]
-- 
2.43.0


From 95879c1ba59b4e309a13863f8e0728f1c7d0f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 52/95] fix: generate_input_output_data_from_vpa returned more
 sequences than requested

---
 aalpy/utils/HelperFunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index c581dcd..c780d9f 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -383,6 +383,8 @@ def generate_input_output_data_from_vpa(vpa, num_sequances=1000, max_seq_len=16,
         vpa.reset_to_initial()
 
         for _ in range(max_seq_len):
+            if len(data_set) == num_sequances:
+                break
             if num_generation_attempts <= num_nominal_tries:
                 possible_transitions = list(vpa.current_state.transitions.keys())
                 if not possible_transitions:
-- 
2.43.0


From d929611e47efdcd8fb8d3b379ff61ae694130bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 53/95] fix: generate_input_output_data_from_automata failed on
 labeled empty sequences

---
 aalpy/utils/HelperFunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index c780d9f..51f6321 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -358,7 +358,8 @@ def generate_input_output_data_from_automata(model, num_sequances=4000, min_seq_
         if sequance_type == 'io_traces':
             dataset.append(list(zip(sequance, outputs)))
         else:
-            dataset.append((sequance, outputs[-1]))
+            # the label of the empty sequence is the output of the initial state
+            dataset.append((sequance, outputs[-1] if outputs else model.initial_state.output))
 
     return dataset
 
-- 
2.43.0


From 449cdcea18488eae48b939e34ce7699a70339366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 54/95] fix: IODelimiterTokenizer read a numeric initial output
 as string while all others become int

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..0895505 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
-- 
2.43.0


From b5801fe2da5956ef19632e21c43969cb8a73dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 55/95] fix: active Alergia paired inputs with the outputs of
 the following inputs and ignored automaton_type

---
 .../stochastic_passive/ActiveAleriga.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..a74ebb0 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -41,12 +42,15 @@ class RandomWordSampler(Sampler):
             walk_len = randint(self.min_walk_len, self.max_walk_len)
             random_walk = tuple(choice(input_al) for _ in range(walk_len))
 
-            outputs = sul.query(random_walk)
+            outputs = list(sul.query(random_walk))
 
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
+            sample = []
+            if not isinstance(model, StochasticMealyMachine):
+                # data of MDPs starts with the output of the initial state, which the empty query returns
+                has_initial_output = len(outputs) > len(random_walk)
+                sample.append(outputs.pop(0) if has_initial_output else sul.query(tuple())[0])
 
+            sample.extend(zip(random_walk, outputs))
             samples.append(sample)
 
         return samples
@@ -79,7 +83,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From 31b03be311be7616df69f5addddce4ac3646e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 56/95] fix: active Alergia did not learn from the samples of
 the last iteration

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index a74ebb0..f79710b 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -88,5 +88,6 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
 
-    return model
+    # the samples of the last iteration are part of the data as well
+    return run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
-- 
2.43.0


From ff508b0a84effea684229bccbfd8004e04a15c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 57/95] fix: active RPNI did not learn from the samples of the
 last iteration

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index e3e95dd..cd1fa7a 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -59,4 +59,5 @@ def run_active_RPNI(data, sul, sampler, n_iter, automaton_type, print_info=True)
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
 
-    return model
+    # the samples of the last iteration are part of the data as well
+    return run_RPNI(data, automaton_type=automaton_type, print_info=print_info)
-- 
2.43.0


From 3afef8c28a33df51d6f697ba19aa3a402fd8cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 58/95] fix: active RPNI crashed on contradictory data

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index cd1fa7a..d472e10 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -55,6 +55,9 @@ def run_active_RPNI(data, sul, sampler, n_iter, automaton_type, print_info=True)
         if print_info:
             print(f'-------------Active RPNI Iteration: {i}-------------')
         model = run_RPNI(data, automaton_type=automaton_type, print_info=print_info)
+        if model is None:
+            # contradictory data has no deterministic model
+            return None
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From ba27c19ce0532bb035a91b4524b285d4c59ce82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 59/95] fix: generate_test_cases lost the last test case

---
 aalpy/utils/ModelChecking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..a1178b9 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -363,6 +363,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+        self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -396,6 +397,8 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # oracles end a test when they start the next one, so the last one has not ended yet
+    wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From 6183132bea2f102fcc74cc1b4799b42330567b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 60/95] fix: generating a minimal automaton gives up after 100
 attempts as documented

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..ffe107c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -139,6 +139,7 @@ def generate_random_deterministic_automata(automaton_type,
                                                                       output_alphabet_size,
                                                                       False,  # ensure minimality
                                                                       **custom_args)
+            minimality_iterations += 1
 
     return random_automaton
 
-- 
2.43.0


From 0bef88f1d94528cee1570a9b9e460edecbb6968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 61/95] fix: alternatives of a randomly generated SMM have
 different outputs

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index ffe107c..1f03fc9 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From 1bb0da1fb7f439c203a1ab4829044eef634d8044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 62/95] fix: randomly generated 1-SEVPAs define every internal
 letter in every state

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 1f03fc9..fde86c9 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -505,7 +505,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not _has_transition(state, internal_letter, None):
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From c689480c6dd30b76305e5469309876f0dd9a1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 63/95] fix: adaptive L# failed when a reference shares no
 input with the system

---
 .../learning_algs/adaptive/AdaptiveObservationTree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..8763837 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,22 +488,23 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for position, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
-                    f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
+                    f"Warning: reference model {position} has no common inputs and will not be used as a reference.")
                 continue
 
+            reference_id = len(usable_references)
+            usable_references.append(reference)
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
             self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
             self.compute_characterization_map(reference, states)
 
+        self.references = usable_references
         if all_states == []:
             print(f"Warning: the references did not lead to any usable states, this could be due to empty models or no common inputs.")
             return None
-- 
2.43.0


From caddd54c0893110303cab804cb8aeee7d8e79fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 64/95] fix: total state matching failed for Moore machines

---
 aalpy/learning_algs/adaptive/StateMatching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..8969e45 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,8 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            ref_out = reference_state.is_accepting if ob_tree.automaton_type == 'dfa' else reference_state.output
+            if ref_out != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From 02ea22342ecee8063da001518b682c0238fc6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 65/95] fix: adaptive L# failed with partial reference models

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 8763837..06bfd82 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -2,7 +2,6 @@ from aalpy.automata import MealyMachine, MealyState
 from aalpy.learning_algs.adaptive.StateMatching import TotalStateMatching, ApproximateStateMatching
 from aalpy.learning_algs.deterministic.Apartness import Apartness
 from aalpy.learning_algs.deterministic.ObservationTree import ObservationTree
-from aalpy.oracles.WpMethodEqOracle import state_characterization_set
 from aalpy.base import Automaton, SUL
 from aalpy.automata import Dfa, DfaState, MealyState, MealyMachine, MooreMachine, MooreState
 
@@ -456,7 +455,7 @@ class AdaptiveObservationTree(ObservationTree):
             else:
                 states[state_id].output = reference.states[state_id].output
             for inp in self.alphabet:
-                if inp in reference.get_input_alphabet():
+                if inp in reference.states[state_id].transitions:
                     old_index = reference.states.index(
                         reference.states[state_id].transitions[inp])
                     states[state_id].transitions[inp] = states[old_index]
@@ -475,9 +474,11 @@ class AdaptiveObservationTree(ObservationTree):
         """ 
         Computes the separating sequences of a reference model and stores them in a characterization map
         """
+        alphabet = reference.get_input_alphabet()
         for state, ref_state in zip(states, reference.states):
-            all_sepseqs = state_characterization_set(reference, reference.get_input_alphabet(), ref_state)
-            unique_sepseqs = list(dict.fromkeys(all_sepseqs))
+            all_sepseqs = [self.find_distinguishing_seq_partial(reference, ref_state, other, alphabet)
+                           for other in reference.states if other != ref_state]
+            unique_sepseqs = list(dict.fromkeys(tuple(seq) for seq in all_sepseqs if seq))
             self.characterization_map[state] = unique_sepseqs
 
     def get_combined_model(self):
-- 
2.43.0


From 41f432e1f765643142a11097c80424bb1fe6fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 66/95] fix: state matching failed with partial reference
 models

---
 aalpy/learning_algs/adaptive/StateMatching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 8969e45..89fe5ce 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -114,11 +114,12 @@ class StateMatching:
 
     def validate_reference_input(self, inputs, reference_state):
         """
-        Check if all inputs are valid (part of the alphabet of the reference model)
+        Check if all inputs are valid (defined along the path from the given state of the reference model)
         """
         for input_val in inputs:
             if input_val not in reference_state.transitions:
                 return False
+            reference_state = reference_state.transitions[input_val]
         return True
 
     def is_prefix_of(self, str1, str2):
@@ -236,7 +237,7 @@ class TotalStateMatching(StateMatching):
 
         for inp in new_part:
             ob_out = current_ob_state.get_output(inp)
-            if inp not in reference_state.output_fun:
+            if inp not in self.combined_model.current_state.output_fun:
                 return
 
             ref_out = self.combined_model.step(inp)
-- 
2.43.0


From 38671b3a1ef019f27194ca9004bb479b0517cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 67/95] fix: adaptive L# took the first state of a reference
 for its initial state

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 06bfd82..d153387 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -502,7 +502,8 @@ class AdaptiveObservationTree(ObservationTree):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-            self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
+            initial_state = states[reference.states.index(reference.initial_state)]
+            self.compute_prefix_map(automaton_class[self.automaton_type](initial_state, states), reference_id)
             self.compute_characterization_map(reference, states)
 
         self.references = usable_references
-- 
2.43.0


From fa1a2598f3180c5ea453024f4f520a2852e75d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 68/95] fix: steps of rs counterexample processing were neither
 counted nor learned from

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..f9c30d3 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -167,7 +167,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
                     prefixes = observation_table.S + list(observation_table.get_extended_s())
                     suffixes = [stochastic_longest_prefix(cex, prefixes)[-1]]
                 elif cex_processing == 'rs':
-                    suffixes = stochastic_rs(sul, cex, hypothesis)
+                    suffixes = stochastic_rs(stochastic_teacher.sul, cex, hypothesis)
                 for suf in suffixes:
                     if suf not in observation_table.E:
                         observation_table.E.append(suf)
-- 
2.43.0


From 75ac270d4f2bd02c8c0045d906adc2cc617e95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 69/95] fix: rows of the stochastic observation table extended
 by a newly seen output had no cells

---
 .../stochastic/SamplingBasedObservationTable.py  | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..1f914da 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,16 +122,14 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
+        s_set = list(element_of_s if element_of_s else self.S)
 
-        for s in s_set:
-            for e in self.E:
-                self.T[s][e] = self.teacher.frequency_query(s, e)
-                self.freq_query_cache[s + e] = self.T[s][e]
+        # extensions are computed once the frequencies of the rows they extend are up to date
+        for rows in (s_set, self.get_extended_s(element_of_s=s_set)):
+            for s in list(rows):
+                for e in self.E:
+                    self.T[s][e] = self.teacher.frequency_query(s, e)
+                    self.freq_query_cache[s + e] = self.T[s][e]
 
     def get_extended_s(self, element_of_s=None):
         """Generator returning all elements of the extended S set.
-- 
2.43.0


From 4ae214c8f8e6cab05a463347c101d352203ef31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 70/95] fix: longest prefix processing of stochastic
 counterexamples failed when the table contained the whole counterexample

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..cc11dba 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -20,7 +20,7 @@ def stochastic_longest_prefix(cex, prefixes):
     trimmed_cex = None
     trimmed = False
     for p in prefixes:
-        if p[1::2] == cex[:len(p)][1::2]:
+        if len(p) < len(cex) and p[1::2] == cex[:len(p)][1::2]:
             trimmed_cex = cex[len(p):]
             trimmed = True
             break
-- 
2.43.0


From f522cbba86d4d0b8a5cedfd31f2f7fee43f9d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 71/95] fix: VPAs with letters containing push or pop could not
 be loaded

---
 aalpy/utils/FileHandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index cdbe19b..ec52c2d 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -269,12 +269,11 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        push_elements, pop_elements = re.match(vpa_push_pattern, label), re.match(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From 4f56e4c0df4f938551f0fc185ad602430a1da6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 72/95] fix: return transitions of 1-SEVPAs with numeric call
 letters were loaded as internal transitions

---
 aalpy/utils/FileHandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index ec52c2d..90239d5 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -219,7 +219,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*('\S+'|\d+)\s*\)"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -259,6 +259,8 @@ def _process_label(label, source, destination, automaton_type):
         if match:
             ret, stack_guard, top_of_stack = match.groups()
             ret = int(ret) if ret.isdigit() else ret
+            # letters that are strings are quoted
+            top_of_stack = int(top_of_stack) if top_of_stack.isdigit() else top_of_stack[1:-1]
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
             source.transitions[ret].append(return_transition)
         else:
-- 
2.43.0


From 9f0ac5f884ce79f6dc59348cd326c60d5e1c5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 73/95] fix: models with state identifiers that have to be
 quoted in dot files could not be loaded

---
 aalpy/utils/FileHandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 90239d5..aeda4fd 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -339,8 +339,8 @@ def _process_node_label_prime(node_name, label, line, node_label_dict, node_type
 
 # TODO: robust patterns (break eg. if state label contains "-")
 label_pattern = r'label=("[^"]*"|[^\s\],]*)'
-starting_state_pattern = r'__start0\s*->\s*(\w+)\s*(?:\[label=""\])?;?'
-transition_pattern = r'(\w+)\s*->\s*(\w+)\s*(.*)?;?'
+starting_state_pattern = r'__start0\s*->\s*"?(\w+)"?\s*(?:\[label=""\])?;?'
+transition_pattern = r'"?(\w+)"?\s*->\s*"?(\w+)"?\s*(.*)?;?'
 
 
 def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
@@ -386,7 +386,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
                 initial_state = match.group(1).strip()
             # State definitions
             elif '__start0' not in line and 'label' in line and '->' not in line:
-                state_id = line.split('[')[0].strip()
+                state_id = line.split('[')[0].strip().strip('"')
                 match = re.search(label_pattern, line)
                 label = _strip_label(match.group(1))
                 _process_node_label_prime(state_id, label, line, node_label_dict, nodeType, automaton_type)
-- 
2.43.0


From 464ba16c614829f7011299b0eca9c4bfe54c2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 74/95] fix: loaded states were accepting if their identifier
 contains doublecircle

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index aeda4fd..c29b773 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -333,7 +333,7 @@ def _process_node_label_prime(node_name, label, line, node_label_dict, node_type
         else:
             node_label_dict[node_name] = node_type(label)
         if automaton_type in {'dfa', 'vpa', 'sevpa'}:
-            if 'doublecircle' in line:
+            if re.search(r'shape\s*=\s*"?doublecircle', line):
                 node_label_dict[node_name].is_accepting = True
 
 
-- 
2.43.0


From 5331ad75a04d851bd03463e402407d5ff8a4e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 75/95] fix: an undefined input became part of a model when it
 was executed or looked up

---
 aalpy/automata/Mdp.py                          | 6 +++---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 +-
 aalpy/automata/Onfsm.py                        | 8 ++++----
 aalpy/automata/Sevpa.py                        | 2 +-
 aalpy/automata/StochasticMealyMachine.py       | 6 +++---
 aalpy/automata/Vpa.py                          | 2 +-
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index fb8b50d..655e77c 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -40,8 +40,8 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         if letter is None:
             return self.current_state.output
 
-        probability_distributions = [i[1] for i in self.current_state.transitions[letter]]
-        states = [i[0] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[1] for i in self.current_state.transitions.get(letter, [])]
+        states = [i[0] for i in self.current_state.transitions.get(letter, [])]
 
         new_state = random.choices(states, probability_distributions, k=1)[0]
 
@@ -60,7 +60,7 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
 
             output of the reached state, None otherwise
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0].output == out:
                 self.current_state = new_state[0]
                 return out
diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 1f78813..6bfcfda 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -64,6 +64,6 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
-        options = self.current_state.transitions[letter]
+        options = self.current_state.transitions.get(letter, [])
         self.current_state = random.choice(options)
         return self.current_state.output
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index 46eff06..06d45d5 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -37,7 +37,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
         Returns:
 
         """
-        possible_transitions = self.transitions[input]
+        possible_transitions = self.transitions.get(input, [])
         if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
@@ -63,7 +63,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the probabilistically chosen transition
 
         """
-        transition = choice(self.current_state.transitions[letter])
+        transition = choice(self.current_state.transitions.get(letter, []))
         output = transition[0]
         self.current_state = transition[1]
         return output
@@ -80,7 +80,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             list of observable outputs
 
         """
-        return [trans[0] for trans in self.current_state.transitions[letter]]
+        return [trans[0] for trans in self.current_state.transitions.get(letter, [])]
 
     def step_to(self, inp, out):
         """Performs a step on the automaton based on the input `inp` and output `out`.
@@ -95,7 +95,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the reached state, None otherwise
 
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0] == out:
                 self.current_state = new_state[1]
                 return out
diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 3a12f5e..6e6fd85 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -132,7 +132,7 @@ class Sevpa(Automaton):
             return self.current_state.is_accepting and self.stack[-1] == self.empty
 
         # get possible transitions
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
         taken_transition = None
         for t in transitions:
             if t.letter in self.return_set:
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index c65f41d..6964597 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -36,7 +36,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
            output of the current state
         """
         prob = random.random()
-        probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[2] for i in self.current_state.transitions.get(letter, [])]
         index = 0
         for i, p in enumerate(probability_distributions):
             prob -= p
@@ -44,7 +44,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
                 index = i
                 break
 
-        transition = self.current_state.transitions[letter][index]
+        transition = self.current_state.transitions.get(letter, [])[index]
         self.current_state = transition[0]
         return transition[1]
 
@@ -61,7 +61,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
             output of the reached state, None otherwise
 
         """
-        for (new_state, output, prob) in self.current_state.transitions[inp]:
+        for (new_state, output, prob) in self.current_state.transitions.get(inp, []):
             if output == out:
                 self.current_state = new_state
                 return out
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index aa0b906..5d48d26 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -121,7 +121,7 @@ class Vpa(Automaton):
         if letter is None:
             return self.current_state.is_accepting and self.stack == []
 
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
 
         taken_transition = None
 
-- 
2.43.0


From 8fc046cf8ea053d4dd333e5bb0e40c6678b33c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 76/95] fix: conversion to an MDP changed partial stochastic
 Mealy machines

---
 aalpy/automata/StochasticMealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 6964597..ee4cdb3 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -116,7 +116,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
         incoming_outputs = set()
         for pre_s in smm.states:
             for i in inputs:
-                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions[i])
+                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
@@ -129,7 +129,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     for s in smm.states:
         mdp_states_for_s = {mdp_state for (s_id, o), mdp_state in smm_state_to_mdp_state.items() if s_id == s.state_id}
         for i in inputs:
-            for outgoing_t in s.transitions[i]:
+            for outgoing_t in s.transitions.get(i, []):
                 target_smm_state = outgoing_t[0]
                 output = outgoing_t[1]
                 prob = outgoing_t[2]
-- 
2.43.0


From 8af24203b4fae83aa7a048d025c2189071cf0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 77/95] fix: states of a converted stochastic Mealy machine
 could share an identifier

---
 aalpy/automata/StochasticMealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ee4cdb3..478229c 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -120,7 +120,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
-            new_state_id = s.state_id + str(state_id)
+            new_state_id = f'{s.state_id}_{state_id}'
             state_id += 1
             new_state = MdpState(new_state_id, o)
             mdp_states.append(new_state)
-- 
2.43.0


From 8507014305b8e9e1f2e1bf74d547f473c8289cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 78/95] =?UTF-8?q?fix:=20IODelimiterTokenizer=20reads=20sym?=
 =?UTF-8?q?bols=20such=20as=20'=C2=B2'=20that=20are=20digits=20but=20no=20?=
 =?UTF-8?q?numbers?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 0895505..88f420b 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -68,6 +68,6 @@ class IODelimiterTokenizer(DataHandler):
 
 
 def try_int(x):
-    if str.isdigit(x):
+    if str.isdecimal(x):
         return int(x)
     return x
-- 
2.43.0


From ae35bed56e32c6e7d6c21c89efae012e19d2eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 79/95] fix: abstracted ONFSM learning raised ValueError when
 rows of its table became equal

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py        | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 0cadc47..809b6c2 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -259,14 +259,12 @@ class AbstractedNonDetObservationTable:
             if hashed_s_row in hashed_rows_from_s:
                 if s in self.S:
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-- 
2.43.0


From 20e80c07cd36403e7c5cae54c1224daf7b045171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 80/95] fix: abstracted ONFSM learning raised KeyError for rows
 observed after the table was updated

---
 .../AbstractedOnfsmObservationTable.py        | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 809b6c2..895b028 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -73,14 +73,20 @@ class AbstractedNonDetObservationTable:
 
         for s in update_S:
             for e in update_E:
-                for o_tup in self.get_all_outputs(s, e):
-                    abstracted_outputs = []
-                    o_tup = tuple([o_tup])
-                    for outputs in o_tup:
-                        for o in outputs:
-                            abstract_output = self.get_abstraction(o)
-                            abstracted_outputs.append(abstract_output)
-                    self.add_to_T(s, e, tuple(abstracted_outputs))
+                self.abstract_cell(s, e)
+
+    def abstract_cell(self, s, e):
+        """
+        Add the abstraction of all outputs observed for the cell (s, e) to the abstracted observation table.
+
+        Args:
+
+            s: prefix
+            e: element of E
+
+        """
+        for outputs in self.get_all_outputs(s, e):
+            self.add_to_T(s, e, tuple(self.get_abstraction(o) for o in outputs))
 
     def add_to_T(self, s, e, value):
         """
@@ -284,7 +290,10 @@ class AbstractedNonDetObservationTable:
         """
         row_repr = tuple()
         for e in self.E:
-            # if e in self.T[row_prefix].keys():
+            if e not in self.T[row_prefix]:
+                # a row that was observed only recently is not part of the table yet
+                self.observation_table.query_missing_observations([row_prefix], [e])
+                self.abstract_cell(row_prefix, e)
             row_repr += (frozenset(self.T[row_prefix][e]),)
         return row_repr
 
-- 
2.43.0


From df58cc54cb1f63a75550558c0b4712c099d4dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 81/95] fix: abstracted ONFSM learning could build a hypothesis
 from a table that was not closed

---
 .../non_deterministic/AbstractedOnfsmLstar.py          | 10 +++++++++-
 .../AbstractedOnfsmObservationTable.py                 |  7 ++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index af54aa5..c7bfaf9 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -93,7 +93,15 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
                 abstracted_observation_table.update_obs_table(e_set=extended_col)
                 e_column_for_consistency = abstracted_observation_table.get_row_to_make_consistent()
 
-        abstracted_observation_table.clean_tables()
+            if closed_complete_consistent:
+                # cleaning the tables may reopen them
+                abstracted_observation_table.clean_tables()
+                row_to_close = abstracted_observation_table.get_row_to_close()
+                if row_to_close is not None:
+                    closed_complete_consistent = False
+                    extended_rows = abstracted_observation_table.update_extended_S(row_to_close)
+                    abstracted_observation_table.update_obs_table(s_set=extended_rows)
+
         hypothesis = abstracted_observation_table.gen_hypothesis()
 
         if print_level == 3:
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 895b028..49856d1 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -448,11 +448,12 @@ class AbstractedNonDetObservationTable:
                 size = len(s[0])
                 for row in whole_S:
                     cmp_row = (row[0][:size], row[1][:size])
-                    if s == cmp_row:
+                    if s != row and s == cmp_row:
                         if row in self.S_dot_A:
                             self.S_dot_A.remove(row)
                         elif row in self.S:
                             self.S.remove(row)
 
-                self.S_dot_A.append(s)
-                self.S.remove(s)
+                if s in self.S:
+                    self.S_dot_A.append(s)
+                    self.S.remove(s)
-- 
2.43.0


From a4d210850f929c8fc363be03b6a13a1be4b099fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 82/95] fix: provided sequences oracle left its last test open

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index 25f6cbe..5008dd1 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -33,6 +33,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
                     self.sul.post()
                     return tuple(inputs)
 
+            self.sul.post()
             self.provided_counterexamples.remove(provided_cex)
 
         queries_before, steps_before = self.oracle.num_queries, self.oracle.num_steps
-- 
2.43.0


From 96e7fc97ef1f72ccbfd61cd1f92d1270f2ca76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 83/95] fix: random walk and random word oracles left the last
 test of a silent search open

---
 aalpy/oracles/RandomWalkEqOracle.py | 2 ++
 aalpy/oracles/RandomWordEqOracle.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aalpy/oracles/RandomWalkEqOracle.py b/aalpy/oracles/RandomWalkEqOracle.py
index 463eb61..e6f2ab7 100644
--- a/aalpy/oracles/RandomWalkEqOracle.py
+++ b/aalpy/oracles/RandomWalkEqOracle.py
@@ -82,6 +82,8 @@ class RandomWalkEqOracle(Oracle):
                         cex.extend([i, o])
                     return cex
 
+        # the last test has not ended yet
+        self.sul.post()
         return None
 
     def reset_counter(self):
diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index f943777..f78520d 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -88,6 +88,8 @@ class RandomWordEqOracle(Oracle):
                             cex.extend([i, o])
                         return cex
 
+        # the last test has not ended yet
+        self.sul.post()
         return None
 
     def reset_counter(self):
-- 
2.43.0


From 2db4deb2ff4b84eed3fdaabb7c82c2137a4a4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 84/95] fix: results of the model checker in scientific
 notation were misread

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index a1178b9..3927df1 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+\.\d+(?:[eE][-+]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From af3a153243371444294d21af33cbeb33744dfa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 85/95] fix: the model checker could not be started from a
 relative path

---
 aalpy/utils/ModelChecking.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3927df1..86fd248 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -128,15 +128,14 @@ def evaluate_all_properties(prism_file_name, properties_file_name):
     import io
     from os import path
 
-    prism_file = aalpy.paths.path_to_prism.split('/')[-1]
-    path_to_prism_file = aalpy.paths.path_to_prism[:-len(prism_file)]
+    path_to_prism = path.abspath(aalpy.paths.path_to_prism)
 
     file_abs_path = path.abspath(prism_file_name)
     properties_als_path = path.abspath(properties_file_name)
     results = {}
     proc = subprocess.Popen(
-        [aalpy.paths.path_to_prism, file_abs_path, properties_als_path],
-        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=path_to_prism_file)
+        [path_to_prism, file_abs_path, properties_als_path],
+        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=path.dirname(path_to_prism))
     for line in io.TextIOWrapper(proc.stdout, encoding="utf-8"):
         if not line:
             break
-- 
2.43.0


From ce0a393b1e98c08de630e0e529adcb7001fafe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 86/95] fix: learning stopped although some properties had no
 answer

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 86fd248..5a3a426 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -224,7 +224,7 @@ def stop_based_on_confidence(hypothesis, property_based_stopping, print_level=2)
 
     if print_level >= 2:
         print('Error for each property:', [round(d * 100, 2) for d in diff.values()])
-    if not diff:
+    if not diff or len(diff) < len(correct_values):
         return False
 
     for d in diff.values():
-- 
2.43.0


From 87721127767c8b74dcb3164cb9b8fc5570c697e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 87/95] fix: max_rounds was ignored with property based
 stopping

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index f9c30d3..fc4630d 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -181,6 +181,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             # stop based on maximum allowed error
             if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
+            if max_rounds and learning_rounds >= max_rounds:
+                break
         else:
             # stop based on number of unambiguous rows
             stop_based_on_unambiguity = observation_table.stop(learning_rounds, chaos_cex_present, cex,
-- 
2.43.0


From 486c0111501921e7f62e07def31704b194bd7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 88/95] fix: stochastic counterexample processing left its last
 test open

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index cc11dba..30f4395 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -123,6 +123,9 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
                 suffix = cex[mid * 2:]
                 break
 
+    # the last test has not ended yet
+    sul.post()
+
     suffixes = [tuple(suffix[len(suffix) - i - 1:]) for i in range(0, len(suffix), 2)]
 
     # suffixes = [suffixes[-1]]
-- 
2.43.0


From f15c08e5670ab0c833e5e5d100302ad3afde7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 89/95] fix: dictionary cache silently overwrote contradictory
 observations supplied in advance

---
 aalpy/base/CacheTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index bb18971..96e9cf2 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -163,8 +163,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From d5cb0b9a36f12ca291dc10aa17569fa0a582f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 90/95] fix: user input oracle left its last test open when no
 counterexample is given

---
 aalpy/oracles/UserInputEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/UserInputEqOracle.py b/aalpy/oracles/UserInputEqOracle.py
index 38be098..b9a49a2 100644
--- a/aalpy/oracles/UserInputEqOracle.py
+++ b/aalpy/oracles/UserInputEqOracle.py
@@ -50,6 +50,7 @@ class UserInputEqOracle(Oracle):
                     self.sul.post()
                     return inputs
             if inp == 'end':
+                self.sul.post()
                 return None
             if inp == 'reset':
                 inputs.clear()
-- 
2.43.0


From 9f44f184de1b9989fa8447a159ee18b5943ce360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 91/95] fix: probabilities of the small grid world did not sum
 to 1

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 6a812b8..974d635 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -259,7 +259,7 @@ def get_small_gridworld():
     s2.transitions['east'].append((s3, 'grass', p_g))
     s2.transitions['east'].append((s1, 'mud', 1 - p_g))
     s2.transitions['north'].append((s0, 'grass', p_g))
-    s2.transitions['south'].append((s1, 'mud', 1 - p_g))
+    s2.transitions['north'].append((s1, 'mud', 1 - p_g))
 
     s3.transitions['south'].append((s3, 'wall', 1.))
     s3.transitions['east'].append((s3, 'wall', 1.))
-- 
2.43.0


From fccf8aa46e47cbce2acd167f257b1d58348f279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 92/95] fix: date validator accepted months over 12 and the
 31st of months with 30 days

---
 aalpy/utils/BenchmarkSULs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 974d635..cf82adc 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -343,7 +343,7 @@ class DateValidator:
         except ValueError:
             return False
 
-        if not (0 <= year <= 9999):
+        if not (0 <= year <= 9999) or not (1 <= month <= 12):
             return False
 
         if month == 2 and not (1 <= day <= 28):
@@ -352,7 +352,7 @@ class DateValidator:
         if month in [1, 3, 5, 7, 8, 10, 12] and not (1 <= day <= 31):
             return False
 
-        elif not (1 <= day <= 31):
+        elif month in [4, 6, 9, 11] and not (1 <= day <= 30):
             return False
 
         return True
-- 
2.43.0


From 10ec2aaa0580b1b0558d51291fe3c2c1d00701be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 93/95] fix: rebuilding promotes every isolated prefix,
 whatever the order of the reference's states

A prefix could be passed over because its parent was promoted later in the
same pass; with nothing left to ask, it was never looked at again.
---
 .../adaptive/AdaptiveObservationTree.py       | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index d153387..22dd1d1 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -356,15 +356,19 @@ class AdaptiveObservationTree(ObservationTree):
         """
         Promotes an isolated frontier state with an access sequence in the prefix set of one of the references
         """
-        for reference_id in range(0, len(self.references)):
-            for reference_prefix in self.prefixes_map[reference_id]:
-                ob_tree_state = self.get_successor(reference_prefix)
-                if not ob_tree_state:
-                    continue
-                basis_parent = ob_tree_state.parent
-                if (basis_parent in self.new_basis) and (ob_tree_state not in self.new_basis) and self.apart_from_all(ob_tree_state):
-                    self.new_basis.append(ob_tree_state)
-                    self.rebuild_states += 1
+        promoted = True
+        while promoted:
+            promoted = False
+            for reference_id in range(0, len(self.references)):
+                for reference_prefix in self.prefixes_map[reference_id]:
+                    ob_tree_state = self.get_successor(reference_prefix)
+                    if not ob_tree_state:
+                        continue
+                    basis_parent = ob_tree_state.parent
+                    if (basis_parent in self.new_basis) and (ob_tree_state not in self.new_basis) and self.apart_from_all(ob_tree_state):
+                        self.new_basis.append(ob_tree_state)
+                        self.rebuild_states += 1
+                        promoted = True
 
     def find_frontier_new_basis(self):
         """ 
-- 
2.43.0


From 860762a17485a62891bc3abd088705e67651cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 94/95] fix: RPNI sorted the caller's data in place

---
 .../deterministic_passive/rpni_helper_functions.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index a0c7115..f9f78ca 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -71,7 +71,7 @@ def check_sequence(root_node, seq, automaton_type):
 
 
 def createPTA(data, automaton_type):
-    data.sort(key=lambda x: len(x[0]))
+    data = sorted(data, key=lambda x: len(x[0]))
 
     root_node = RpniNode(automaton_type=automaton_type)
     for seq, label in data:
-- 
2.43.0


From 72269ab3eac4f1eb7f03fa685aa71315a3646582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 95/95] fix: provided sequences oracle removed sequences from
 the caller's list

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index 5008dd1..1751ec4 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -15,7 +15,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
             of input alphabet
         """
         super().__init__(alphabet, sul)
-        self.provided_counterexamples = provided_counterexamples
+        self.provided_counterexamples = list(provided_counterexamples)
         self.oracle = oracle
 
     def find_cex(self, hypothesis):
-- 
2.43.0

