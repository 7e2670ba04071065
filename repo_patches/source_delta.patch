From 0c894c4ef26f4a5312016cc740a8b4faed62789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 01/69] fix: expected transitions accumulate the successive
 state distributions

The short-horizon branch summed the one-step distribution over and over (and accumulated it
in place into the initial distribution) instead of the distributions of the successive steps.
---
 pydtmc/measures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..14839a7 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -179,8 +179,8 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
         idist_sum = initial_distribution
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum = idist_sum + idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From 5f1aa4bdf01b1d33a9b7fba14bcc2c7cb6e4452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 02/69] fix: conditional probabilities do not expose the
 transition matrix

The method returned a view of the internal matrix: changing the result changed the model.
---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..2c98b2a 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1192,7 +1192,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
-- 
2.43.0


From 53faa87d29d16072b43b8b74dc9a046e7e6c40fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 03/69] fix: models do not share their lists of labels with the
 caller

The list of labels passed to the constructor was stored by reference and the states and
symbols properties returned the internal list: changing either changed the model.
---
 pydtmc/hidden_markov_model.py | 4 ++--
 pydtmc/markov_chain.py        | 2 +-
 pydtmc/validation.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..4b685a4 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -277,7 +277,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -286,7 +286,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2c98b2a..def9734 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -965,7 +965,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..23b79b6 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,7 +610,7 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
-    return value
+    return value.copy()
 
 
 def validate_markov_chain(value: _tany, size: _oint = None) -> _tmc:
-- 
2.43.0


From f3a67f2ce493060527602d2f5cd270b46425542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 04/69] fix: memoised results are not shared with the caller

The cached properties and the cached measures returned the memoised lists and arrays
themselves: changing a result in place changed every later answer of the model.
---
 pydtmc/decorators.py   | 7 +++++--
 pydtmc/markov_chain.py | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 9749b3f..5768c2d 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -13,6 +13,7 @@ __all__ = [
 
 # Standard
 
+import copy as _cp
 import functools as _ft
 import re as _re
 import threading as _th
@@ -59,9 +60,11 @@ class cached_property(property):
 
         with self._lock:
             try:
-                return instance.__dict__[self._func_name]
+                value = instance.__dict__[self._func_name]
             except KeyError:
-                return instance.__dict__.setdefault(self._func_name, self._func(instance))
+                value = instance.__dict__.setdefault(self._func_name, self._func(instance))
+
+        return _cp.deepcopy(value)
 
     def __set__(self, instance, value):
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index def9734..6a862ae 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1014,7 +1014,7 @@ class MarkovChain(_Model):
         if 'ap' not in self.__cache:
             self.__cache['ap'] = _absorption_probabilities(self)
 
-        return self.__cache['ap']
+        return _cp.deepcopy(self.__cache['ap'])
 
     @_object_mark(instance_generator=True)
     def aggregate(self, s: int, method: str = 'adaptive') -> _tmc:
@@ -1525,7 +1525,7 @@ class MarkovChain(_Model):
         if 'mat' not in self.__cache:
             self.__cache['mat'] = _mean_absorption_times(self)
 
-        return self.__cache['mat']
+        return _cp.deepcopy(self.__cache['mat'])
 
     @_object_mark(aliases=['mfpt_between', 'mfptb'])
     def mean_first_passage_times_between(self, origins: _tstates, targets: _tstates) -> _ofloat:
@@ -1596,7 +1596,7 @@ class MarkovChain(_Model):
         if 'mnv' not in self.__cache:
             self.__cache['mnv'] = _mean_number_visits(self)
 
-        return self.__cache['mnv']
+        return _cp.deepcopy(self.__cache['mnv'])
 
     @_object_mark(aliases=['mrt'])
     def mean_recurrence_times(self) -> _oarray:
@@ -1613,7 +1613,7 @@ class MarkovChain(_Model):
         if 'mrt' not in self.__cache:
             self.__cache['mrt'] = _mean_recurrence_times(self)
 
-        return self.__cache['mrt']
+        return _cp.deepcopy(self.__cache['mrt'])
 
     @_object_mark(instance_generator=True)
     def merge_with(self, other: _tmc, gamma: float) -> _tmc:
-- 
2.43.0


From 760c155e48d8fa9fa6feec2db32c4f53faf1c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 05/69] fix: accessibility matrix of large chains

The powers of the integer adjacency matrix overflow for chains with 64 or more states, so
that accessible states were reported as not accessible.
---
 pydtmc/markov_chain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6a862ae..2819558 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,7 +394,13 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
+        am = i + a
+        steps = 1
+
+        while steps < self.__size - 1:
+            am = (_np.dot(am, am) > 0).astype(int)
+            steps *= 2
+
         am = (am > 0).astype(int)
 
         return am
-- 
2.43.0


From 2c3aed9733490e4ebfa630154dd6cf3501c5911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 06/69] fix: regularity does not depend on the accuracy of high
 matrix powers

Without self-loops the exponent is n^n: the rounding of the rows makes the power vanish or
overflow, so that regular chains with about 20 states were reported as not regular.
---
 pydtmc/markov_chain.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2819558..041488d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -709,15 +709,8 @@ class MarkovChain(_Model):
         A property indicating whether the Markov chain is regular.
         """
 
-        d = _np.diag(self.__p)
-        nz = _np.count_nonzero(d)
-
-        if nz > 0:
-            k = (2 * self.__size) - nz - 1
-        else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
-
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        # A finite Markov chain is regular if and only if it is ergodic.
+        result = self.is_ergodic
 
         return result
 
-- 
2.43.0


From 14a41eefd22eb697b394b003052ba17118b49866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/69] fix: the validation of sequences does not change the
 caller's list

The sequences given by label were replaced by sequences of indices in the argument itself.
---
 pydtmc/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 23b79b6..6a608c1 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -910,6 +910,8 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
     if value_type in ['integer', 'string']:
         value = [value]
 
+    value = value.copy()
+
     for index, value_current in enumerate(value):
         try:
             value[index] = validate_sequence(value_current, labels)
-- 
2.43.0


From f5e2e3dd290a69284865fa99b765f419f8b660ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 08/69] fix: restriction of a hidden Markov model to some
 symbols

The number of selected symbols was compared with the number of states, so that with more
symbols than states the emission matrix was not reduced.
---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..77cf9bb 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From 6c39ed7f85a9e155d39bc6646b16e736f4c39735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 09/69] fix: top-down spectral aggregation merges exactly two
 states at a time

The column before the second merged state was dropped when the two were not adjacent, so that
the result had too few states.
---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 77cf9bb..9c21283 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -300,7 +300,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From a182371e96bb5cbdd1bd5a0c31e7ed0418fde84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 10/69] fix: newton-cotes nodes lie in the quadrature interval

The lower limit of the interval was ignored.
---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c3dddc3 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From 888474bf8ad24e8cff19a61466861e3562457296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 11/69] fix: lumpability is not decided by rounding errors

The two sides of the lumpability condition were compared for exact equality of floats.
---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 9c21283..e879878 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -873,7 +873,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.array_equal(left, right)
+    is_lumpable = _np.allclose(left, right)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From ba68413326a0f30896289247b7fbcae565915974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 12/69] fix: simulated hidden Markov models never use null
 probabilities

A random number equal to a cumulated probability (0 for a leading null probability) selected
the impossible outcome.
---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..50ebd77 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -130,7 +130,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         state = 0
 
         for j in range(n - 2, -1, -1):
-            if pr_i > pc[current_state, j]:
+            if pr_i >= pc[current_state, j]:
                 state = j + 1
                 break
 
@@ -138,7 +138,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         symbol = 0
 
         for j in range(k - 2, -1, -1):
-            if er_i > ec[state, j]:
+            if er_i >= ec[state, j]:
                 symbol = j + 1
                 break
 
-- 
2.43.0


From 07949f2066022c0c42c47ebd523efc8d91f15d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 13/69] fix: fitting a transition function rejects negative
 values

Negative values produced negative transition probabilities without any error.
---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index c3dddc3..d66ca85 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -275,7 +275,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result):  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result * weights[j]
-- 
2.43.0


From 276e29f94edcd7d9884fdf5c9e5bb957d5e54833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 14/69] fix: equal models have equal hashes

The hash distinguished zeros and negative zeros, which the equality does not.
---
 pydtmc/hidden_markov_model.py | 3 ++-
 pydtmc/markov_chain.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 4b685a4..17a69c8 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -180,7 +180,8 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        # The addition turns negative zeros, which are equal to zero, into zeros.
+        return hash(((self.__p + 0.0).tobytes(), (self.__e + 0.0).tobytes(), tuple(self.__states), tuple(self.__symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 041488d..91629c9 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -239,7 +239,8 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        # The addition turns negative zeros, which are equal to zero, into zeros.
+        return hash(((self.__p + 0.0).tobytes(), tuple(self.__states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From a1d48991d3d64056971c85f9b161f079fc9b2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 15/69] fix: the Moran model rejects selection intensities
 above 1

The relative fitness becomes negative and the method returned negative probabilities.
---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 91629c9..e9fa263 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2636,6 +2636,9 @@ class MarkovChain(_Model):
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
+        if model == 'moran' and s > 1.0:
+            raise _ValidationError('The selection intensity must be less than or equal to 1 in the Moran model.')
+
         p, states_out, _ = _population_genetics_model(model, n, s, u, v)
 
         if states is None:
-- 
2.43.0


From dc1e31f0509d3ba3948045c0c5d023ca0f171c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 16/69] fix: masks with completely assigned rows that do not
 sum to 1 are rejected

They caused an obscure error of the random generator instead of a validation error.
---
 pydtmc/validation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 6a608c1..35c518d 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -664,6 +664,11 @@ def validate_mask(value: _tany, rows: int, columns: int) -> _tarray:
     if _np.any(_np.nansum(value, axis=1, dtype=float) > 1.0):
         raise ValueError('The "@arg@" parameter row sums must not exceed 1.')
 
+    full_rows = ~_np.any(_np.isnan(value), axis=1)
+
+    if not _np.allclose(_np.sum(value[full_rows, :], axis=1), 1.0):
+        raise ValueError('The "@arg@" parameter rows without NaNs must sum to 1.')
+
     return value
 
 
-- 
2.43.0


From 57a912eeeff6dad4a7b11c31c12fd8761800ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 17/69] fix: random models are valid when all the draws of a
 row are null

The row was left with null probabilities.
---
 pydtmc/generators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index e879878..d67cacc 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -125,9 +125,12 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
             assigned_columns = _np.isnan(pm_mask_internal[i, :])
             s = _np.sum(m[i, assigned_columns])
 
+            si = _np.sum(m[i, ~assigned_columns])
+
             if s > 0.0:
-                si = _np.sum(m[i, ~assigned_columns])
                 m[i, assigned_columns] *= (1.0 - si) / s
+            else:
+                m[i, assigned_columns] = (1.0 - si) / max(_np.sum(assigned_columns), 1)
 
         return m
 
@@ -972,9 +975,12 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
         assigned_columns = _np.isnan(mask[i, :])
         s = _np.sum(p[i, assigned_columns])
 
+        si = _np.sum(p[i, ~assigned_columns])
+
         if s > 0.0:
-            si = _np.sum(p[i, ~assigned_columns])
             p[i, assigned_columns] = p[i, assigned_columns] * ((1.0 - si) / s)
+        else:
+            p[i, assigned_columns] = (1.0 - si) / max(_np.sum(assigned_columns), 1)
 
     state_names = [f'{i:d}' for i in range(1, size + 1)]
 
-- 
2.43.0


From 7652c05e77ee7da14de93909bf3f5cda51a85706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 18/69] fix: hidden Markov model predictions validate the type
 of output

The output_indices parameter was the only one not validated.
---
 pydtmc/hidden_markov_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 17a69c8..a52ac85 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -402,6 +402,7 @@ class HiddenMarkovModel(_Model):
             prediction_type = _validate_enumerator(prediction_type, ['map', 'mle', 'viterbi'])
             symbols = _validate_sequence(symbols, self.__symbols)
             initial_status = _np.full(self.__size[0], 1.0 / self.__size[0], dtype=float) if initial_status is None else _validate_status(initial_status, self.__states)
+            output_indices = _validate_boolean(output_indices)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From fc64432a076f128635bb1254fddaa40d482ef895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 19/69] fix: models created by user functions are always
 validated

The constructors skip the validation when they are called by a generator of the library, but
recognised it only by name: a user function called random, lump or identity, for example,
could create invalid models.
---
 pydtmc/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..47bdeb0 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -226,6 +226,10 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
 
 def get_caller(stack: _tstack) -> str:
 
+    # Functions of other modules can have the same name as an internal one.
+    if stack[1].frame.f_globals is not stack[0].frame.f_globals:
+        return ''
+
     caller = stack[1][3]
 
     return caller
-- 
2.43.0


From aa0c22bb4fd7197de84ce541c7ab165cd3fb1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 20/69] fix: files with probabilities outside the range from 0
 to 1 are rejected

Negative probabilities and probabilities above 1 were accepted as long as the rows summed to 1.
---
 pydtmc/files_io.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..af7167f 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -121,6 +121,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     except Exception as ex:  # pragma: no cover
                         raise ValueError('The file contains invalid rows.') from ex
 
+                    if not 0.0 <= probability <= 1.0:
+                        raise ValueError('The file contains invalid rows.')
+
                     result[(label_prefix, element_from, element_to)] = probability
 
         return result
@@ -164,6 +167,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     except Exception as ex:  # pragma: no cover
                         raise ValueError('The file contains invalid rows.') from ex
 
+                    if not 0.0 <= probability <= 1.0:
+                        raise ValueError('The file contains invalid rows.')
+
                     result[(state_from, state_to)] = probability
 
         return result
@@ -212,6 +218,9 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
                 if not isinstance(value, (float, int, _np.floating, _np.integer)):  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
+                if not 0.0 <= value <= 1.0:
+                    raise ValueError('The file contains invalid elements.')
+
                 value = float(value)
 
             elif param_type == 'string':
@@ -259,6 +268,9 @@ def read_txt(mc: bool, file_path: _tpath) -> _tobj_dict:
                 except Exception as ex:  # pragma: no cover
                     raise ValueError('The file contains invalid lines.') from ex
 
+                if not 0.0 <= value <= 1.0:
+                    raise ValueError('The file contains invalid lines.')
+
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
                 raise ValueError('The file contains invalid lines.')
 
@@ -323,6 +335,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
                 except Exception as ex:  # pragma: no cover
                     raise ValueError('The file contains invalid elements.') from ex
 
+                if not 0.0 <= value <= 1.0:
+                    raise ValueError('The file contains invalid elements.')
+
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
                 raise ValueError('The file contains invalid elements.')
 
-- 
2.43.0


From 4642cc007dcf4e1d6e1acc54e2629f0a70bf67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 21/69] fix: labels are read from files as they are written

The xml files and the csv files of hidden Markov models lost the leading or trailing spaces
of the labels, which could also make distinct labels coincide, while blank labels, which no
model can have, were accepted.
---
 pydtmc/files_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index af7167f..97255a3 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -78,10 +78,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
                 for label in row:
 
-                    if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
+                    if not isinstance(label, str) or len(label[2:].strip()) == 0:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -139,7 +138,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             if index == 0:
 
-                if not all(isinstance(state, str) and len(state) > 0 for state in row):  # pragma: no cover
+                if not all(isinstance(state, str) and len(state.strip()) > 0 for state in row):  # pragma: no cover
                     raise ValueError('The file header is invalid.')
 
                 states = row
@@ -225,7 +224,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             elif param_type == 'string':
 
-                if not isinstance(value, str) or len(value) == 0:  # pragma: no cover
+                if not isinstance(value, str) or len(value.strip()) == 0:  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
@@ -318,9 +317,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
-- 
2.43.0


From 51d357801a608149fa546fa94fdae7cc821d1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 22/69] fix: malformed csv files raise the documented error

---
 pydtmc/files_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 97255a3..466a4e7 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -176,7 +176,11 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
     with open(file_path, mode='r', newline='') as file:
         file.seek(0)
         reader = _csv.reader(file)
-        data = [row for _, row in enumerate(reader)]
+
+        try:
+            data = [row for _, row in enumerate(reader)]
+        except _csv.Error as ex:
+            raise ValueError('The file format is not compliant.') from ex
 
     d = _read_csv_mc(data) if mc else _read_csv_hmm(data)
 
-- 
2.43.0


From 3bc902f637bd43b0d21223e1b6792e2e724b3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 23/69] fix: approximations undefined for the given parameters
 raise the documented error

With a unit persistence, or a negligible variance in the Tauchen-Hussey approximation, the
method failed with a division by zero or returned a chain of NaNs.
---
 pydtmc/generators.py   | 10 ++++++++--
 pydtmc/markov_chain.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index d67cacc..fc32c44 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -420,6 +420,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
     if approximation_type == 'adda-cooper':
 
+        if _np.isclose(_np.abs(rho), 1.0):
+            return None, None, 'The Adda-Cooper approximation requires a stationary process.'
+
         z_sigma = sigma / (1.0 - rho**2.0)**0.5
         z_sigma_factor = size / _np.sqrt(2.0 * _np.pi * z_sigma**2.0)
 
@@ -527,8 +530,8 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         size_m1 = size - 1
 
-        if _np.isclose(rho, 1.0):
-            rho = 1.0 - 1e-8
+        if _np.isclose(_np.abs(rho), 1.0):
+            rho = _np.sign(rho) * (1.0 - 1e-8)
 
         y_std = _np.sqrt(sigma**2.0 / (1.0 - rho**2.0))
 
@@ -552,6 +555,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
                 z = x[j] - rx
                 p[i, j] = _sps.norm.cdf((z + step) / sigma) - _sps.norm.cdf((z - step) / sigma)
 
+    if not _np.all(_np.isfinite(p)):
+        return None, None, 'The approximation is numerically undefined for the given parameters.'
+
     states = [f'{i:d}' for i in range(1, p.shape[0] + 1)]
 
     return p, states, None
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e9fa263..e5c753b 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2137,7 +2137,7 @@ class MarkovChain(_Model):
          - In the Tauchen-Hussey approximation, the standard deviation used for the gaussian quadrature (*if omitted, the value is set to an optimal default*).
         :param states: the name of each state (*if omitted, an increasing sequence of integers starting at 1*).
         :raises ValidationError: if any input argument is not compliant.
-        :raises ValueError: if the gaussian quadrature fails to converge in the Tauchen-Hussey approximation.
+        :raises ValueError: if the gaussian quadrature fails to converge in the Tauchen-Hussey approximation or if the approximation is undefined for the given parameters.
         """
 
         try:
-- 
2.43.0


From 5f1df905953ea10dfb085978e0d099e2475d1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 24/69] fix: the periods are in the order of the communicating
 classes

They were in the alphabetical order of the labels, so that the periods (and
the period of reducible chains) were attributed to the wrong classes.
---
 pydtmc/computations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..576d5ca 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,7 +100,9 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
+    # The order of the nodes is the order of the states, which can differ from the order of their labels.
+    positions = {node: position for position, node in enumerate(graph.nodes)}
+    classes = [sorted(positions[c] for c in scc) for scc in sccs]
     indices = sorted(classes, key=lambda x: (-len(x), x[0]))
 
     periods = [0] * len(indices)
@@ -113,7 +115,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(positions[c] for c in scc))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From 6f4062b6bbaabdf9fcd822c82296977d02435c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 25/69] fix: hitting probabilities and times of slowly mixing
 chains are accurate

The non-negative least squares squared the condition number of the equations:
a hitting probability equal to 1 came out as 0.99996 for a chain leaving its
states with probability 1/998. The equations are now solved on the states from
which the targets can be reached, where the solution is unique.
---
 pydtmc/measures.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 14839a7..37076bb 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -275,12 +274,17 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     non_target = _np.setdiff1d(_np.arange(size, dtype=int), target)
 
     hp = _np.ones(size, dtype=float)
+    hp[non_target] = 0.0
 
-    if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+    # The equations have a single solution once the states from which the targets are not accessible are left out.
+    accessible = _np.any(mc.accessibility_matrix[:, target] > 0, axis=1)
+    solve = non_target[accessible[non_target]]
+
+    if solve.size > 0:
+        a = p[solve, :][:, solve] - _np.eye(solve.size)
+        b = _np.sum(-p[solve, :][:, target], axis=1)
+        x = _npl.solve(a, b)
+        hp[solve] = _np.clip(x, 0.0, 1.0)
 
     return hp
 
@@ -311,7 +315,7 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     if solve.size > 0:
         a = p[solve, :][:, solve] - _np.eye(solve.size)
         b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
+        x = _npl.solve(a, b)
         ht[solve] = x
 
     return ht
-- 
2.43.0


From 4964fd1bcde74fd91053f3dcbb7ecf8285ab60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 26/69] fix: the number of visits of transient states is finite

A transient state with a return probability within 1e-5 of 1 was treated as
recurrent, with an infinite number of visits.
---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 37076bb..9f24eb4 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -439,7 +439,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j]
 
         if ct1:
             z = _np.nan
-- 
2.43.0


From 1c4b165ce260c373946eb0a685e2cc7ac92198b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 27/69] fix: chains close to periodic or to reducible have a
 spectral gap

An ergodic chain whose second eigenvalue lies within 1e-5 of 1 made the spectral
gap, the mixing rate and the relaxation rate fail with an index error, or be
computed from the third eigenvalue.
---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 576d5ca..a81f860 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -342,7 +342,7 @@ def rdl_decomposition(p: _tarray) -> _trdl:
 def slem(m: _tarray) -> _ofloat:
 
     ev = eigenvalues_sorted(m)
-    value = ev[~_np.isclose(ev, 1.0)][-1]
+    value = ev[-2]
 
     if _np.isclose(value, 0.0):
         return None
-- 
2.43.0


From d9d45f0d19087e4db4e7208c2340a0c711998c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 28/69] fix: states that can be left are not absorbing

A state with a probability of being left below 1e-5 was absorbing and transient
at the same time.
---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e5c753b..02fc9c7 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -273,7 +273,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.count_nonzero(self.__p[index, :]) == 1 and self.__p[index, index] > 0.0]
 
         return indices
 
-- 
2.43.0


From b71aad63493b04277b1c66a5ca5ef3d03c3db381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 29/69] fix: the mean recurrence time of rarely visited states
 is not null

The mean recurrence times of the states of an ergodic chain with a stationary
probability below 1e-8 were reported as 0.
---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 9f24eb4..e71ee40 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -465,7 +465,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([1.0 / v for v in pi])
 
     return mrt
 
-- 
2.43.0


From 1ef405f9deec69193b2df9daf575afb91796ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 30/69] fix: chains without a spectral decomposition have
 expected transitions

Expected transitions, time correlations and time relaxations of a chain with a
defective transition matrix failed with an undocumented linear algebra error
(short horizons included) or were computed from meaningless eigenvectors. They
are now computed from the powers of the transition matrix.
---
 pydtmc/computations.py |  8 ++++++--
 pydtmc/markov_chain.py |  8 ++++----
 pydtmc/measures.py     | 14 +++++++-------
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index a81f860..dd66a09 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -33,12 +33,12 @@ import scipy.stats as _sps
 
 from .custom_types import (
     ofloat as _ofloat,
+    ordl as _ordl,
     tarray as _tarray,
     tgraph as _tgraph,
     tlist_int as _tlist_int,
     tlists_int as _tlists_int,
     tpartitions as _tpartitions,
-    trdl as _trdl,
     ttest_chi2 as _ttest_chi2
 )
 
@@ -314,7 +314,7 @@ def kullback_leibler_divergence(p, pi, phi, q):
     return kld
 
 
-def rdl_decomposition(p: _tarray) -> _trdl:
+def rdl_decomposition(p: _tarray) -> _ordl:
 
     evalues, evectors = _npl.eig(p)
 
@@ -322,6 +322,10 @@ def rdl_decomposition(p: _tarray) -> _trdl:
     evalues = evalues[indices]
     vectors = evectors[:, indices]
 
+    # The decomposition does not exist (or is numerically meaningless) when the eigenvectors are linearly dependent.
+    if _npl.cond(vectors) > 1e6:
+        return None
+
     r = _np.copy(vectors)
     d = _np.diag(evalues)
     l = _npl.solve(_np.transpose(r), _np.eye(p.shape[0]))  # noqa: E741
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 02fc9c7..33fc3a8 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -45,6 +45,7 @@ from .custom_types import (
     ointerval as _ointerval,
     olist_str as _olist_str,
     onumeric as _onumeric,
+    ordl as _ordl,
     osequence as _osequence,
     ostate as _ostate,
     ostates as _ostates,
@@ -69,7 +70,6 @@ from .custom_types import (
     tpartitions as _tpartitions,
     tpath as _tpath,
     trandfunc_flex as _trandfunc_flex,
-    trdl as _trdl,
     tredists as _tredists,
     tsequence as _tsequence,
     tstate as _tstate,
@@ -319,11 +319,11 @@ class MarkovChain(_Model):
         return ev
 
     @_cached_property
-    def __rdl_decomposition(self) -> _trdl:
+    def __rdl_decomposition(self) -> _ordl:
 
-        r, d, l = _rdl_decomposition(self.__p)  # noqa: E741
+        rdl = _rdl_decomposition(self.__p)
 
-        return r, d, l
+        return rdl
 
     @_cached_property
     def __recurrent_classes_indices(self) -> _tlists_int:
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index e71ee40..98553d4 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -38,13 +38,13 @@ from .custom_types import (
     ohmm_decoding as _ohmm_decoding,
     oint as _oint,
     olist_int as _olist_int,
+    ordl as _ordl,
     osequence as _osequence,
     otimes_out as _otimes_out,
     tany as _tany,
     tarray as _tarray,
     tmc as _tmc,
     tlist_int as _tlist_int,
-    trdl as _trdl,
     tsequence as _tsequence,
     ttimes_in as _ttimes_in
 )
@@ -170,9 +170,9 @@ def mc_expected_rewards(p: _tarray, steps: int, rewards: _tarray) -> _tany:
     return er
 
 
-def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribution: _tarray) -> _tarray:
+def mc_expected_transitions(p: _tarray, rdl: _ordl, steps: int, initial_distribution: _tarray) -> _tarray:
 
-    if steps <= p.shape[0]:
+    if rdl is None or steps <= p.shape[0]:
 
         idist = initial_distribution
         idist_sum = initial_distribution
@@ -521,7 +521,7 @@ def mc_sensitivity(mc: _tmc, state: int) -> _oarray:
     return s
 
 
-def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_correlations(mc: _tmc, rdl: _ordl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -554,7 +554,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
 
     tcs = []
 
-    if time_points[-1] > size:
+    if rdl is not None and time_points[-1] > size:
 
         r, d, l = rdl  # noqa: E741
 
@@ -613,7 +613,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
     return tcs
 
 
-def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_relaxations(mc: _tmc, rdl: _ordl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -635,7 +635,7 @@ def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_dist
 
     trs = []
 
-    if time_points[-1] > size:
+    if rdl is not None and time_points[-1] > size:
 
         r, d, l = rdl  # noqa: E741
 
-- 
2.43.0


From 85e2f33767fa6f9aa461afce58cedd5ec0102cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 31/69] fix: models whose rows sum to 1 only approximately can
 be simulated

---
 pydtmc/simulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 50ebd77..a176bf6 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -114,7 +114,8 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
 
     current_state = initial_state
     states = [initial_state]
-    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :]).item()]
+    w = hmm.e[current_state, :]
+    symbols = [rng.choice(k, size=1, p=w / _np.sum(w)).item()]
 
     pr = rng.random(steps)
     pc = _np.cumsum(hmm.p, axis=1)
@@ -222,7 +223,7 @@ def mc_simulate(mc: _tmc, steps: int, initial_state: int, final_state: _oint, rn
     for _ in range(steps):
 
         w = p[current_state, :]
-        current_state = rng.choice(size, size=1, p=w).item()
+        current_state = rng.choice(size, size=1, p=w / _np.sum(w)).item()
         value.append(current_state)
 
         if check_final_state and current_state == final_state:
-- 
2.43.0


From 5b998af4a9fda116372e36be20ee7263a0bb40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 32/69] fix: null probabilities are not placed in rows of masks
 that are already complete

---
 pydtmc/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fc32c44..ba36491 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -107,6 +107,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
                 pm_mask_internal[i, j] = _np.inf
 
         pm_mask_unassigned = _np.isnan(pm_mask_internal)
+        pm_mask_unassigned[pm_full_rows, :] = False
         indices_unassigned = _np.flatnonzero(pm_mask_unassigned)
 
         r = rng.permutation(pm_zeros_required)
-- 
2.43.0


From 759a7dfc4739060cf0ef02e2b10bc5f2ea7c661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 33/69] fix: infinite draws of random distributions are
 replaced with finite weights

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 33fc3a8..c6f3226 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2732,7 +2732,7 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = f(size=(size, size), **kwargs).astype(float)
-        p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, None)
+        p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, _np.finfo(float).max / (size + 1))
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
         p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 6f597ad303614f693ca22214653cd5193cc88cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 34/69] fix: the entropy rate is never negative

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index c6f3226..aefce71 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -512,7 +512,7 @@ class MarkovChain(_Model):
                     if self.__p[i, j] > 0.0:
                         h += pi_i * self.__p[i, j] * _np.log(self.__p[i, j])
 
-            h = h if _np.isclose(h, 0.0) else -h
+            h = max(0.0, -h)
 
         return h
 
-- 
2.43.0


From 0c593fce6ef5aac433d2ce473ee1191c465dd3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 35/69] fix: unlikely visits are counted

---
 pydtmc/measures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 98553d4..211d2a7 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -436,6 +436,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
         hp[:, j] = _npl.solve(a, b)
 
     mnv = _np.zeros((size, size), dtype=float)
+    reachable = _np.dot(mc.adjacency_matrix, mc.accessibility_matrix) > 0
 
     for j in range(size):
 
@@ -448,7 +449,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if not reachable[i, j]:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From 1895157dcad8536da56bcd7731a87672b2b040dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 36/69] fix: birth-death chains keep low probabilities

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index ba36491..3861a5f 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -567,9 +567,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 def mc_birth_death(p: _tarray, q: _tarray) -> _tmc_generation:
 
     r = 1.0 - q - p
+    r[_np.isclose(r, 0.0, atol=1e-15)] = 0.0
 
     p = _np.diag(r) + _np.diag(p[0:-1], k=1) + _np.diag(q[1:], k=-1)
-    p[_np.isclose(p, 0.0)] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[0], dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 1364a3afde39ca9ee9e8b26711b29cc17d0f983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 37/69] fix: matrices and graphs with very low or very high
 weights are normalised

---
 pydtmc/hidden_markov_model.py | 20 ++++++++++++++++----
 pydtmc/markov_chain.py        | 10 ++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a52ac85..7eef1d4 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -847,15 +847,21 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
+            elif _np.isinf(p_sums_i):  # pragma: no cover
+                p[i, :] /= _np.max(p[i, :])
+                p[i, :] /= _np.sum(p[i, :])
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
+            elif _np.isinf(e_sums_i):  # pragma: no cover
+                e[i, :] /= _np.max(e[i, :])
+                e[i, :] /= _np.sum(e[i, :])
             else:
                 e[i, :] /= e_sums_i
 
@@ -899,15 +905,21 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
+            elif _np.isinf(p_sums_i):  # pragma: no cover
+                p[i, :] /= _np.max(p[i, :])
+                p[i, :] /= _np.sum(p[i, :])
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
+            elif _np.isinf(e_sums_i):  # pragma: no cover
+                e[i, :] /= _np.max(e[i, :])
+                e[i, :] /= _np.sum(e[i, :])
             else:
                 e[i, :] /= e_sums_i
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index aefce71..fab032f 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2495,8 +2495,11 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
+            elif _np.isinf(p_sums_i):  # pragma: no cover
+                p[i, :] /= _np.max(p[i, :])
+                p[i, :] /= _np.sum(p[i, :])
             else:
                 p[i, :] /= p_sums_i
 
@@ -2534,8 +2537,11 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
+            elif _np.isinf(p_sums_i):  # pragma: no cover
+                p[i, :] /= _np.max(p[i, :])
+                p[i, :] /= _np.sum(p[i, :])
             else:
                 p[i, :] /= p_sums_i
 
-- 
2.43.0


From e09b115d327b4b2913fbf7513e2ee8b6e73e67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 38/69] fix: the restriction of a hidden Markov model to a
 single state or symbol is rejected

---
 pydtmc/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 35c518d..f19239b 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -513,6 +513,9 @@ def validate_label(value: _tany, labels: _tlist_str) -> int:
 
 def validate_labels_current(value: _tany, labels: _tlist_str, subset: bool, minimum_length: _oint = None) -> _tlist_int:
 
+    if (_is_integer(value) or _is_string(value)) and minimum_length is not None and minimum_length > 1:
+        raise ValueError(f'The "@arg@" parameter must contain at least {minimum_length:d} elements.')
+
     if _is_integer(value):
 
         value = int(value)
-- 
2.43.0


From 7e2893b561fefa30038c72403439908a712030d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 39/69] fix: transition functions with very high values are
 normalised

---
 pydtmc/fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index d66ca85..e61a78c 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -278,7 +278,11 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            p[i, j] = f_result * weights[j]
+            p[i, j] = f_result
+
+    p_max = _np.max(p, axis=1, keepdims=True)
+    p /= _np.where(p_max > 0.0, p_max, 1.0)
+    p *= weights
 
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
-- 
2.43.0


From 9c5b74e5aaa4eaa875ab408556c6a61275721fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 40/69] fix: Gauss-Legendre weights are accurate to machine
 precision

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e61a78c..6e97fb0 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -213,7 +213,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             z1 = _np.copy(z)
             z = z1 - (p1 / pp)
 
-            if _np.allclose(abs(z - z1), 0.0):
+            if _np.allclose(abs(z - z1), 0.0, atol=1e-14):
                 break
 
         if iterations == 100:  # pragma: no cover
-- 
2.43.0


From 0fd95c46f7844f0948ee7472f222c67e6b70f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 41/69] fix: transition functions with complex values are
 rejected

---
 pydtmc/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index 6e97fb0..f5c5372 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -271,11 +271,12 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
         for j in range(size):
 
             try:
-                f_result = float(f(i, node_i, j, nodes[j]))
+                f_value = f(i, node_i, j, nodes[j])
+                f_result = float(f_value)
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_value) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result
-- 
2.43.0


From 3cad370c28dcf76adfcf1fef9ce42ebf9ad6f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 42/69] fix: graphs with infinite weights or edges between
 wrong nodes are rejected

---
 pydtmc/hidden_markov_model.py | 3 +++
 pydtmc/validation.py          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 7eef1d4..a1a8814 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -821,6 +821,9 @@ class HiddenMarkovModel(_Model):
         states = [node[0] for node in nodes if node[1] == 1]
         symbols = [node[0] for node in nodes if node[1] == 0]
 
+        if any(edge[0] not in states or edge[1] not in (symbols if edge[2] == 'E' else states) for edge in graph.edges(data='type')):  # pragma: no cover
+            raise _ValidationError('The "graph" parameter must define edges from states to states (type P) or from states to symbols (type E).')
+
         n, k = len(states), len(symbols)
         p, e = _np.zeros((n, n), dtype=float), _np.zeros((n, k), dtype=float)
 
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index f19239b..8392a1a 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -393,7 +393,7 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
     edge_weights = list(value.edges(data='weight', default=0.0))
 
-    if not all(_is_number(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
+    if not all(_is_number(edge_weight[2]) and _np.isfinite(float(edge_weight[2])) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
         raise ValueError('The "@arg@" parameter must define edge weight attributes as non-negative numbers.')
 
     if edge_attributes is not None:
-- 
2.43.0


From 61dbd13bea66f58945ebf8c156a0bd3d9e840995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 43/69] fix: the Adda-Cooper approximation is accurate for
 every variance

---
 pydtmc/generators.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 3861a5f..ffe3311 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -387,11 +387,11 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
 def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: float, rho: float, k: _ofloat) -> _tmc_generation:
 
-    def _adda_cooper_integrand(aci_x, aci_sigma_z, aci_sigma, aci_rho, aci_alpha, z_j, z_jp1):
+    def _adda_cooper_integrand(aci_x, aci_sigma, aci_rho, z_j, z_jp1):
 
-        t1 = _np.exp((-1.0 * (aci_x - aci_alpha)**2.0) / (2.0 * aci_sigma_z**2.0))
-        t2 = _sps.norm.cdf((z_jp1 - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
-        t3 = _sps.norm.cdf((z_j - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
+        t1 = _np.exp((-1.0 * aci_x**2.0) / 2.0)
+        t2 = _sps.norm.cdf((z_jp1 - (aci_rho * aci_x)) / aci_sigma)
+        t3 = _sps.norm.cdf((z_j - (aci_rho * aci_x)) / aci_sigma)
         output = t1 * (t2 - t3)
 
         return output
@@ -424,10 +424,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
         if _np.isclose(_np.abs(rho), 1.0):
             return None, None, 'The Adda-Cooper approximation requires a stationary process.'
 
-        z_sigma = sigma / (1.0 - rho**2.0)**0.5
-        z_sigma_factor = size / _np.sqrt(2.0 * _np.pi * z_sigma**2.0)
-
-        z = (z_sigma * _sps.norm.ppf(_np.arange(size + 1) / size)) + alpha
+        z_factor = size / _np.sqrt(2.0 * _np.pi)
+        z_sigma = (1.0 - rho**2.0)**0.5
+        z = _sps.norm.ppf(_np.arange(size + 1) / size)
 
         p = _np.zeros((size, size), dtype=float)
 
@@ -437,8 +436,8 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             z_ip = z[i + 1]
 
             for j in range(size):
-                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]))
-                p[i, j] = z_sigma_factor * iq[0]
+                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, rho, z[j], z[j + 1]), epsabs=1e-12)
+                p[i, j] = z_factor * iq[0]
 
     elif approximation_type == 'rouwenhorst':
 
-- 
2.43.0


From 5c194cc57bae0051ad663443d9aa17bbd1289fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 44/69] fix: the spectral aggregation splits a subset even when
 an eigenvector has a single sign

---
 pydtmc/generators.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index ffe3311..951d6f7 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -236,11 +236,17 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        side = evector >= 0.0
+
+        if _np.all(side) or not _np.any(side):
+            side = _np.zeros_like(side)
+            side[_np.argmax(_np.abs(evector))] = True
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = side
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~side
 
         bc_stack = _np.hstack((cbc_phi[:, :cbc_index], v1, v2, cbc_phi[:, (cbc_index + 1):]))
 
@@ -341,11 +347,17 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        side = evector >= 0.0
+
+        if _np.all(side) or not _np.any(side):
+            side = _np.zeros_like(side)
+            side[_np.argmax(_np.abs(evector))] = True
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = side
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~side
 
         cbc_phi = cbc_phi[:, :-1]
 
-- 
2.43.0


From 994ef8d8e6a74c2fc5c78ce2c5242266baf443ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 45/69] fix: the closest reversible chain is a valid matrix and
 is not missed by the solver

---
 pydtmc/generators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 951d6f7..0a8ea00 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -796,6 +796,15 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
     # noinspection PyTypeChecker
     solution = _spo.minimize(_objective, x0, jac=_jacobian, args=(h, f), constraints=constraints, method='SLSQP', options={'disp': False})
 
+    # The solver may stop at a point that is not optimal: the solution is checked against the one found starting from the identity matrix.
+    x0[mm1] = 1.0
+
+    # noinspection PyTypeChecker
+    solution_alt = _spo.minimize(_objective, x0, jac=_jacobian, args=(h, f), constraints=constraints, method='SLSQP', options={'disp': False})
+
+    if solution_alt['success'] and (not solution['success'] or solution_alt['fun'] < (solution['fun'] - 1e-4)):
+        solution = solution_alt
+
     if not solution['success']:  # pragma: no cover
         return None, None, 'The closest reversible could not be computed.'
 
@@ -805,6 +814,7 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
     for i in range(m):
         p += solution[i] * basis_vectors[i]
 
+    p[p < 1e-12] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 0893dcd5d001edee63018082f53f997969138a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 46/69] fix: arrays of complex numbers are not stripped of
 their imaginary part

---
 pydtmc/utilities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 47bdeb0..79b1a2d 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -218,6 +218,13 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
     if output is None or not _np.issubdtype(output.dtype, _np.number):
         raise TypeError('The data type is not supported.')
 
+    if _np.iscomplexobj(output):
+
+        if not _np.all(_np.isreal(output)):
+            raise TypeError('The data type is not supported.')
+
+        output = _np.real(output)
+
     if dtype is not None:
         output = output.astype(dtype)
 
-- 
2.43.0


From c61a9afec5daa4cb731e187be7a10f546b3a18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 47/69] fix: the rows of a chain of higher order sum to one

---
 pydtmc/markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index fab032f..6bb5a6e 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2056,6 +2056,7 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = _npl.matrix_power(self.__p, order)
+        p /= _np.sum(p, axis=1, keepdims=True)
         mc = MarkovChain(p, self.__states)
 
         return mc
-- 
2.43.0


From f311692f14208c25e2d5553b459f8d86f1704c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 48/69] fix: the spectral aggregation does not overflow when a
 stationary probability is tiny

---
 pydtmc/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 0a8ea00..75a798c 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -224,9 +224,9 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
 
         indices = v > 0.0
         p_sub = cbc_p[_np.ix_(indices, indices)]
-        pi_sub = _np.diag(cbc_pi[indices])
+        pi_sub = cbc_pi[indices]
 
-        ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
+        ar = 0.5 * (p_sub + ((_np.transpose(p_sub) * pi_sub) / pi_sub[:, _np.newaxis]))
 
         evalues, evectors = _npl.eig(ar)
         index = _np.argsort(_np.abs(evalues))[-2]
@@ -335,9 +335,9 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         indices = v > 0.0
         p_sub = cbc_q[_np.ix_(indices, indices)]
-        pi_sub = _np.diag(cbc_pi[indices])
+        pi_sub = cbc_pi[indices]
 
-        ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
+        ar = 0.5 * (p_sub + ((_np.transpose(p_sub) * pi_sub) / pi_sub[:, _np.newaxis]))
 
         evalues, evectors = _npl.eig(ar)
         index = _np.argsort(_np.abs(evalues))[-2]
-- 
2.43.0


From d7c5371c268c32f129df58237d8e78cef2b28dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 49/69] fix: the rows of a lumped chain sum to one

---
 pydtmc/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 75a798c..452d0f3 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -910,6 +910,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
 
     p_lump = _np.dot(_np.dot(k, p), r)
+    p_lump /= _np.sum(p_lump, axis=1, keepdims=True)
     state_names = [','.join(list(map(states.__getitem__, partition))) for partition in partitions]
 
     return p_lump, state_names, None
-- 
2.43.0


From 2c28d3d27e2b1103493de3de34554cfa4996be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 50/69] fix: files are written and read with the same encoding
 under every locale

---
 pydtmc/files_io.py   | 14 +++++++-------
 pydtmc/validation.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 466a4e7..a41a2b9 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -173,7 +173,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
         return result
 
-    with open(file_path, mode='r', newline='') as file:
+    with open(file_path, mode='r', newline='', encoding='utf-8') as file:
         file.seek(0)
         reader = _csv.reader(file)
 
@@ -190,7 +190,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = _json.load(file)
 
@@ -244,7 +244,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_txt(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = [line.strip().split() for line in file]
 
@@ -394,7 +394,7 @@ def write_csv(mc: bool, d: _tobj_dict, file_path: _tpath):
 
     header_out, rows_out = _write_csv_mc(d) if mc else _write_csv_hmm(d)
 
-    with open(file_path, mode='w', newline='') as file:
+    with open(file_path, mode='w', newline='', encoding='utf-8') as file:
 
         writer = _csv.writer(file, delimiter=',', quoting=_csv.QUOTE_MINIMAL, quotechar='"')
 
@@ -421,13 +421,13 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
         data.append(item)
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         _json.dump(data, file)
 
 
 def write_txt(d: _tobj_dict, file_path: _tpath):
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
 
         line = ''
 
@@ -468,5 +468,5 @@ def write_xml(mc: bool, d: _tobj_dict, file_path: _tpath):
     xml_content = xml_content.replace('<Item', '\t<Item')
     xml_content = xml_content.replace('" />', '"/>\n')
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         file.write(xml_content)
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 8392a1a..28ea089 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -315,7 +315,7 @@ def validate_file_path(value: _tany, accepted_extensions: _olist_str, write_perm
 
         try:
 
-            with open(file_path, mode='r') as file:
+            with open(file_path, mode='r', encoding='utf-8') as file:
                 file.seek(0)
 
                 if not file.read(1):
-- 
2.43.0


From 65204dcd34f959245b52e4405f90372eb66aef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 51/69] fix: json files nested too deeply raise the documented
 error

---
 pydtmc/files_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index a41a2b9..0a7ba6c 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -192,7 +192,11 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
     with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
-        data = _json.load(file)
+
+        try:
+            data = _json.load(file)
+        except RecursionError as ex:
+            raise ValueError('The file format is not compliant.') from ex
 
     if not isinstance(data, list):  # pragma: no cover
         raise ValueError('The file format is not compliant.')
-- 
2.43.0


From e9b3ba87c7151aa798889f2e472f17f92d3c3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 52/69] fix: degrees of freedom of assess_markov_property do
 not depend on how the labels concatenate

---
 pydtmc/assessments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index ae3b6aa..91ef4e3 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -271,8 +271,8 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
         fnp = _fnp_iteration(i, sts3, sts2, s02, p)
         chi2 += ((so3[i] - fnp)**2.0) / fnp
 
-    doubles = [f'{sequence_labels[i]}{sequence_labels[i + 1]}' for i in range(sequence_length - 1)]
-    triples = [f'{sequence_labels[i]}{sequence_labels[i + 1]}{sequence_labels[i + 2]}' for i in range(sequence_length - 2)]
+    doubles = [(sequence_labels[i], sequence_labels[i + 1]) for i in range(sequence_length - 1)]
+    triples = [(sequence_labels[i], sequence_labels[i + 1], sequence_labels[i + 2]) for i in range(sequence_length - 2)]
     dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
 
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
-- 
2.43.0


From 7edcc6571fbb2f6f91fb7bf913df5d5d6354f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 53/69] fix: assess_markov_property is not computable on two
 equal elements

---
 pydtmc/assessments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index 91ef4e3..2ea652d 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -275,6 +275,9 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
     triples = [(sequence_labels[i], sequence_labels[i + 1], sequence_labels[i + 2]) for i in range(sequence_length - 2)]
     dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
 
+    if dof < 0:
+        return None, float('nan'), {'chi2': float('nan'), 'dof': float('nan')}
+
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
     rejection = p_value < significance
 
-- 
2.43.0


From bb932548721a8c8280a6a884e7abcf965e194c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 54/69] fix: assess_theoretical_compatibility is not computable
 without degrees of freedom

---
 pydtmc/assessments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index 2ea652d..8e5259e 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -408,6 +408,10 @@ def assess_theoretical_compatibility(mc: _tmc, sequence: _tsequence, significanc
 
         chi2 *= 2.0
         dof = (n * (n - 1)) - (n**2 - _np.count_nonzero(p))
+
+        if dof == 0:
+            return None, float('nan'), {'chi2': float('nan'), 'dof': float('nan')}
+
         p_value = 1.0 - _sps.chi2.cdf(chi2, dof)
         rejection = p_value < significance
 
-- 
2.43.0


From 2e457ce312145f0be7a8f3c485b0f726a6f77350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 55/69] fix: elements at the end of a block counted in the next
 one by rounding in assess_stationarity

---
 pydtmc/assessments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index 8e5259e..c964955 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -330,7 +330,6 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
     k, n = len(sequence), len(possible_states)
 
     iters = k - 1
-    block_size = float(k) / blocks
     adjustment = 1.0 / n
     chi2_func = _chi2_standard_inner if blocks == 1 else _chi2_contingency_inner
 
@@ -342,7 +341,7 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
 
         for i in range(iters):
             if sequence_labels[i] == state:
-                p = _mt.ceil((i + 1) / block_size) - 1
+                p = ((i + 1) * blocks - 1) // k
                 f = sequence_indices[i + 1]
                 ct[p, f] += 1.0
 
-- 
2.43.0


From a808942cec62da81cd9b8d944c0cfaaef64c26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 56/69] fix: name the parameter when a model argument is a
 plain object

---
 pydtmc/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 28ea089..d885077 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -410,7 +410,7 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
 def validate_hidden_markov_model(value: _tany) -> _thmm:
 
-    if value is None or (f'{value.__module__}.{value.__class__.__name__}' != 'pydtmc.hidden_markov_model.HiddenMarkovModel'):
+    if value is None or (f'{value.__class__.__module__}.{value.__class__.__name__}' != 'pydtmc.hidden_markov_model.HiddenMarkovModel'):
         raise TypeError('The "@arg@" parameter is null or wrongly typed.')
 
     return value
@@ -618,7 +618,7 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
 
 def validate_markov_chain(value: _tany, size: _oint = None) -> _tmc:
 
-    if value is None or (f'{value.__module__}.{value.__class__.__name__}' != 'pydtmc.markov_chain.MarkovChain'):
+    if value is None or (f'{value.__class__.__module__}.{value.__class__.__name__}' != 'pydtmc.markov_chain.MarkovChain'):
         raise TypeError('The "@arg@" parameter is null or wrongly typed.')
 
     if size is not None and value.size != size:
-- 
2.43.0


From 120241ed4b0d95cd927e96f2db9930df7f42068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 57/69] fix: a refused simulation does not consume a draw of
 the generator

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a1a8814..40fe1cc 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -465,10 +465,10 @@ class HiddenMarkovModel(_Model):
 
             rng = _create_rng(seed)
             steps = _validate_integer(steps, lower_limit=(2, False))
-            initial_state = rng.randint(0, self.__size[0]) if initial_state is None else _validate_label(initial_state, self.__states)
             final_state = None if final_state is None else _validate_label(final_state, self.__states)
             final_symbol = None if final_symbol is None else _validate_label(final_symbol, self.__symbols)
             output_indices = _validate_boolean(output_indices)
+            initial_state = rng.randint(0, self.__size[0]) if initial_state is None else _validate_label(initial_state, self.__states)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6bb5a6e..a9314a4 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1823,9 +1823,9 @@ class MarkovChain(_Model):
 
             rng = _create_rng(seed)
             steps = _validate_integer(steps, lower_limit=(2, False))
-            initial_state = rng.randint(0, self.__size) if initial_state is None else _validate_label(initial_state, self.__states)
             final_state = None if final_state is None else _validate_label(final_state, self.__states)
             output_indices = _validate_boolean(output_indices)
+            initial_state = rng.randint(0, self.__size) if initial_state is None else _validate_label(initial_state, self.__states)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From 430423308c98d20d49f7c9e82f44effb67fe74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 58/69] fix: NaN refused as boundary condition

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index d885077..3947f14 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -149,7 +149,7 @@ def validate_boundary_condition(value: _tany) -> _tbcond:
 
         value = float(value)
 
-        if (value < 0.0) or (value > 1.0):
+        if not 0.0 <= value <= 1.0:
             raise ValueError('The "@arg@" parameter, when specified as a number, must have a value between 0 and 1.')
 
         return value
-- 
2.43.0


From 342559d5062bdcd54c27262e23cd58067474c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 59/69] fix: emission guess whose columns do not match the
 possible symbols refused by fit

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/validation.py          | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 40fe1cc..1b65475 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -637,7 +637,7 @@ class HiddenMarkovModel(_Model):
             possible_states = _validate_labels_input(possible_states)
             possible_symbols = _validate_labels_input(possible_symbols)
             p_guess = _validate_transition_matrix(p_guess, len(possible_states))
-            e_guess = _validate_emission_matrix(e_guess, p_guess.shape[1])
+            e_guess = _validate_emission_matrix(e_guess, p_guess.shape[1], len(possible_symbols))
             symbols = _validate_sequences(symbols, possible_symbols, True)
             initial_status = _np.full(len(possible_states), 1.0 / len(possible_states), dtype=float) if initial_status is None else _validate_status(initial_status, possible_states)
 
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 3947f14..7ed2c6b 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -246,7 +246,7 @@ def validate_dpi(value: _tany) -> int:
 
 
 # noinspection DuplicatedCode
-def validate_emission_matrix(value: _tany, size: int) -> _tarray:
+def validate_emission_matrix(value: _tany, size: int, columns: _oint = None) -> _tarray:
 
     try:
         value = _extract_numeric(value, float)
@@ -256,6 +256,9 @@ def validate_emission_matrix(value: _tany, size: int) -> _tarray:
     if value.ndim != 2 or value.shape[0] != size or value.shape[1] < 2:
         raise ValueError(f'The "@arg@" parameter must be a 2d matrix with at least 2 columns and {size:d} rows.')
 
+    if columns is not None and value.shape[1] != columns:
+        raise ValueError(f'The "@arg@" parameter must be a 2d matrix with {columns:d} columns and {size:d} rows.')
+
     if not all(_np.isfinite(x) and _np.isreal(x) and 0.0 <= x <= 1.0 for _, x in _np.ndenumerate(value)):
         raise ValueError('The "@arg@" parameter must contain only finite real values between 0.0 and 1.0.')
 
-- 
2.43.0


From 9064b6668c3c63e5eefe2c4284ff4f9f23f8f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 60/69] fix: plot_trellis tests the initial distribution of the
 state every first edge leaves

---
 pydtmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a5f36cc..a0f6d9f 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1334,7 +1334,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gte_initial_distribution[col] > 0.0:
+                if col == 0 and not gte_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
@@ -1390,7 +1390,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gts_initial_distribution[col] > 0.0:
+                if col == 0 and not gts_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
-- 
2.43.0


From d2d611af2a270cae687c80f3319a1ebec929671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 61/69] fix: plot_trellis colours the edges in the order they
 are drawn

---
 pydtmc/plotting.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a0f6d9f..eae6d6c 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1382,8 +1382,6 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
                 node_index += 1
 
-        edge_colors = []
-
         for row in range(n):
 
             row_offset = row * f
@@ -1398,16 +1396,14 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
                     if hmm.p[row][row_next] > 0.0:
 
                         if gts_forward:
-                            trellis.add_edge(row_offset + col, (row_next * f) + col + 1)
-                            on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                            edge = (row_offset + col, (row_next * f) + col + 1)
                         else:
-                            trellis.add_edge((row_next * f) + col + 1, row_offset + col)
-                            on_path = gts_states_path[col] == row_next and gts_states_path[col + 1] == row
+                            edge = ((row_next * f) + col + 1, row_offset + col)
 
-                        if on_path:
-                            edge_colors.append(_default_color_path)
-                        else:
-                            edge_colors.append(_color_black)
+                        on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                        trellis.add_edge(*edge, color=_default_color_path if on_path else _color_black)
+
+        edge_colors = [edge_color for _, _, edge_color in trellis.edges.data('color')]
 
         for row in range(n):
 
-- 
2.43.0


From 89ed2349b0ffc38fc4d819c848476ef8436ae544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 62/69] fix: plot_trellis decodes the symbols of the columns
 after the initial one

---
 pydtmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index eae6d6c..bd673c1 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1508,7 +1508,8 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
     _, symbols = hmm.simulate(steps, initial_state=initial_state, output_indices=True, seed=seed)
 
-    decoding = hmm.decode(symbols, initial_status=initial_distribution)
+    # The first column is the initial distribution, hence the first decoded symbol is the one of the second column.
+    decoding = hmm.decode(symbols[1:], initial_status=initial_distribution)
 
     if decoding is None:  # pragma: no cover
         raise ValueError('The computation of backward and forward probabilities failed.')
-- 
2.43.0


From b8612dc949912c2ed94fa55d56ef0b3e9f01525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 63/69] fix: plot_flow labels every step it shows

---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index bd673c1..4543937 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -507,7 +507,7 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
             if dv > 0.05:
                 ax.text(aj, bm[ai, aj], f'{dv:.3f}', horizontalalignment='center', verticalalignment='center')
 
-    _xticks_steps(ax, steps)
+    _xticks_steps(ax, steps + 1)
 
     ax.set_ylim(0.0, 1.0)
     ax.invert_yaxis()
-- 
2.43.0


From ff5580d7b5eeaa476d88cde8df823e042efeeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 64/69] fix: the flow plots accept every colormap palette

---
 pydtmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 4543937..fa121ee 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -366,7 +366,8 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
 
         i = gc_d.shape[0]
 
-        cm = _np.array(_mplp.get_cmap(gc_pn).colors)
+        cm = _mplp.get_cmap(gc_pn)
+        cm = cm(_np.arange(cm.N))[:, :3]
 
         ipf = _spip.interp1d(_np.linspace(0.0, 1.0, cm.shape[0]), cm, kind='linear', axis=0)
         ipv = ipf(_np.linspace(0.0, 1.0, 3 + ((i - 1) * 10)))
-- 
2.43.0


From 399d799148e1550af16fd9e9c690eedbbbedcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 65/69] fix: extended graphs and trellises accept labels with
 characters special to Graphviz

---
 pydtmc/plotting.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index fa121ee..2546062 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -127,6 +127,13 @@ def _decode_image(g, dpi):
     return img, img_x, img_xo, img_y, img_yo
 
 
+def _quote_label(label):
+
+    label = label.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('&', '&amp;')
+
+    return f'"{label}"'
+
+
 def _xticks_labels(ax, size, labels_name, labels, minor_major):
 
     if labels_name is not None:
@@ -657,9 +664,11 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'ellipse'
 
-            g_sub1.add_node(_pyd.Node(state, **node_attributes))
+            g_sub1.add_node(_pyd.Node(f'state{i}', label=_quote_label(state), **node_attributes))
+
+        for i in range(phe_hmm.k):
 
-        for symbol in phe_hmm.symbols:
+            symbol = phe_hmm.symbols[i]
 
             node_attributes = {}
 
@@ -670,20 +679,16 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'hexagon'
 
-            g_sub2.add_node(_pyd.Node(symbol, **node_attributes))
+            g_sub2.add_node(_pyd.Node(f'symbol{i}', label=_quote_label(symbol), **node_attributes))
 
         for i in range(phe_hmm.n):
 
-            state_i = phe_hmm.states[i]
-
             for j in range(phe_hmm.n):
 
                 tp = phe_hmm.p[i, j]
 
                 if tp > 0.0:
 
-                    state_j = phe_hmm.states[j]
-
                     edge_attributes = {
                         'style': 'filled',
                         'color': _default_color_edge
@@ -693,7 +698,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'state{j}', **edge_attributes))
 
             for j in range(phe_hmm.k):
 
@@ -701,8 +706,6 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
                 if ep > 0.0:
 
-                    symbol = phe_hmm.symbols[j]
-
                     edge_attributes = {
                         'style': 'dashed',
                         'color': edge_colors[i] if phe_nodes_color else _default_color_edge
@@ -712,7 +715,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(ep, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, symbol, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'symbol{j}', **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, phe_dpi)
 
@@ -852,7 +855,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                 else:
                     node_attributes['shape'] = 'ellipse'
 
-            g.add_node(_pyd.Node(state_i, **node_attributes))
+            g.add_node(_pyd.Node(f'state{i}', label=_quote_label(state_i), **node_attributes))
 
             for j in range(pme_mc.size):
 
@@ -860,8 +863,6 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
                 if tp > 0.0:
 
-                    state_j = pme_mc.states[j]
-
                     edge_attributes = {
                         'style': 'filled',
                         'color': _default_color_edge
@@ -871,7 +872,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'state{j}', **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, pme_dpi)
 
@@ -1303,7 +1304,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
         for row in range(n):
 
-            sub_label = gte_hmm.states[row]
+            sub_label = _quote_label(gte_hmm.states[row])
             sub.add_node(_pyd.Node(f'state{row}', color='transparent', label=sub_label, shape='plaintext'))
 
             if row > 0:
@@ -1315,7 +1316,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             path_current = gte_states_path[col]
 
-            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else gte_hmm.symbols[gte_symbols[col]]
+            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else _quote_label(gte_hmm.symbols[gte_symbols[col]])
             sub = _pyd.Subgraph(f'cluster_{col + 1}', color='transparent', label=sub_label)
 
             for row in range(n):
-- 
2.43.0


From 8722715380bbf24c77890fce1e3ae0f92a686073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 66/69] fix: stochastic monotonicity tolerates the rounding of
 the cumulated sums

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a9314a4..60112af 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -752,7 +752,7 @@ class MarkovChain(_Model):
                 sk = sm[k]
                 sl = sm[l]
 
-                if sl < sk:
+                if sl < sk and not _np.isclose(sl, sk):
                     result = False
                     break
 
-- 
2.43.0


From 56552cb74ad6e3e9990c021391bbc3396f78939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 67/69] fix: lumped chains whose joined labels collide get
 default labels

---
 pydtmc/generators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 452d0f3..ae31ae8 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -913,6 +913,9 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
     p_lump /= _np.sum(p_lump, axis=1, keepdims=True)
     state_names = [','.join(list(map(states.__getitem__, partition))) for partition in partitions]
 
+    if len(set(state_names)) < len(state_names):
+        state_names = [f'{i:d}' for i in range(1, len(partitions) + 1)]
+
     return p_lump, state_names, None
 
 
-- 
2.43.0


From b8199477e1d57a89eab5e0285e256904bba983b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 68/69] fix: accept masks whose rows sum to 1 up to rounding

---
 pydtmc/validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 7ed2c6b..411ab1b 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -667,7 +667,9 @@ def validate_mask(value: _tany, rows: int, columns: int) -> _tarray:
     if not all(_np.isnan(x) or (_np.isfinite(x) and _np.isreal(x) and 0.0 <= x <= 1.0) for _, x in _np.ndenumerate(value)):
         raise ValueError('The "@arg@" parameter can contain only NaNs and finite real values between 0.0 and 1.0.')
 
-    if _np.any(_np.nansum(value, axis=1, dtype=float) > 1.0):
+    row_sums = _np.nansum(value, axis=1, dtype=float)
+
+    if _np.any((row_sums > 1.0) & ~_np.isclose(row_sums, 1.0, rtol=0.0)):
         raise ValueError('The "@arg@" parameter row sums must not exceed 1.')
 
     full_rows = ~_np.any(_np.isnan(value), axis=1)
-- 
2.43.0


From 3cd3d2df052100b802624827a9460fb922c11090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 69/69] fix: null free emission and transition probabilities in
 complete rows of masks

---
 pydtmc/generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index ae31ae8..a24449d 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -128,7 +128,9 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
 
             si = _np.sum(m[i, ~assigned_columns])
 
-            if s > 0.0:
+            if pm_full_rows[i]:
+                m[i, assigned_columns] = 0.0
+            elif s > 0.0:
                 m[i, assigned_columns] *= (1.0 - si) / s
             else:
                 m[i, assigned_columns] = (1.0 - si) / max(_np.sum(assigned_columns), 1)
-- 
2.43.0

