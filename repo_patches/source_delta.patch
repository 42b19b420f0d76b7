From 473b48ab2cc2029409322e639704755b6c7a7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 01/19] fix: recompute a trial whose stored result is
 incomplete

A run killed while storing a result leaves a truncated file behind.  Its
prefix often still parses: a lone header gave a result without rows, a cut
number gave a different number.  Accept a stored result only if it is one
complete row.
---
 src/driver/experimental_trial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 2356818..a33e80f 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -20,6 +20,7 @@ against a specific DataSet, with specific SystemParameters.
 from absl import logging
 from datetime import datetime
 import hashlib
+import io
 import numpy as np
 import pandas as pd
 from os.path import isfile, join
@@ -152,9 +153,15 @@ class ExperimentalTrial:
             logging.vlog(2, "  --> Returning previously computed result")
             try:
                 with filesystem.open(trial_results_path) as file:
-                    return pd.read_csv(file)
+                    contents = file.read()
+                result = pd.read_csv(io.StringIO(contents))
+                # A run that was interrupted while it was storing the result
+                # leaves only the beginning of the file behind.
+                if len(result) != 1 or not contents.endswith("\n"):
+                    raise ValueError("Incomplete result file")
+                return result
             except Exception as e:
-                filesystem.unlink(trial_results_path)
+                filesystem.unlink(trial_results_path, missing_ok=True)
                 logging.vlog(
                     2, f"  --> {e}. Failed reading existing result. Re-evaluate."
                 )
-- 
2.43.0


From 2f9acf654af608608b0c6737fa7911773a99bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:53 +0000
Subject: [PATCH 02/19] fix: evaluate every trial with its own copy of the
 random generator

All data sets share the system parameters of a trial descriptor, and designs
may share one generator between descriptors, so a trial's noise depended on
which trials had been evaluated before it in the same process.
---
 src/driver/experimental_trial.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index a33e80f..11ca7f9 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -19,6 +19,7 @@ against a specific DataSet, with specific SystemParameters.
 
 from absl import logging
 from datetime import datetime
+import copy
 import hashlib
 import io
 import numpy as np
@@ -179,9 +180,14 @@ class ExperimentalTrial:
 
         dataset = self._data_design.by_name(self._data_set_name)
         privacy_tracker = PrivacyTracker()
-        halo = HaloSimulator(
-            dataset, self._trial_descriptor.system_params, privacy_tracker
+        # The generator is advanced by every use.  Each evaluation starts from its
+        # own copy, so that the result does not depend on the trials that were
+        # evaluated before in this process.
+        system_params = self._trial_descriptor.system_params
+        system_params = system_params._replace(
+            generator=copy.deepcopy(system_params.generator)
         )
+        halo = HaloSimulator(dataset, system_params, privacy_tracker)
         privacy_budget = self._trial_descriptor.experiment_params.privacy_budget
         modeling_strategy = (
             self._trial_descriptor.modeling_strategy.instantiate_strategy()
@@ -189,9 +195,7 @@ class ExperimentalTrial:
         single_publisher_dataframe = pd.DataFrame()
         max_frequency = self._trial_descriptor.experiment_params.max_frequency
         try:
-            reach_surface = modeling_strategy.fit(
-                halo, self._trial_descriptor.system_params, privacy_budget
-            )
+            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)
             test_points = list(
                 self._trial_descriptor.experiment_params.generate_test_points(
                     dataset, rng
-- 
2.43.0


From 91743e16ff743128d65b9b1549bc4e645aa4e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:26 +0000
Subject: [PATCH 03/19] fix: remove the stale pending entry of a trial that is
 already stored

A run killed between storing a result and removing the pending entry left the
entry behind for ever, so the pending directory listed a trial that no run
would ever execute again.
---
 src/driver/experimental_trial.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 11ca7f9..d5736aa 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -150,6 +150,12 @@ class ExperimentalTrial:
         if trial_results_path.startswith("gs://"):
             filesystem.set_default_client_to_gs_client()
 
+        # The pending directory contains one entry for each currently executing
+        # experimental trial.  If a computation appears to hang, this can be
+        # used to check which evaluations are still pending.
+        experiment_dir_parent = filesystem.parent(self._experiment_dir)
+        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
+
         if filesystem.is_file(trial_results_path):
             logging.vlog(2, "  --> Returning previously computed result")
             try:
@@ -160,18 +166,17 @@ class ExperimentalTrial:
                 # leaves only the beginning of the file behind.
                 if len(result) != 1 or not contents.endswith("\n"):
                     raise ValueError("Incomplete result file")
-                return result
             except Exception as e:
                 filesystem.unlink(trial_results_path, missing_ok=True)
                 logging.vlog(
                     2, f"  --> {e}. Failed reading existing result. Re-evaluate."
                 )
+            else:
+                # A run that was interrupted after it had stored the result
+                # leaves its pending entry behind.
+                filesystem.unlink(pending_path, missing_ok=True)
+                return result
 
-        # The pending directory contains one entry for each currently executing
-        # experimental trial.  If a computation appears to hang, this can be
-        # used to check which evaluations are still pending.
-        experiment_dir_parent = filesystem.parent(self._experiment_dir)
-        pending_path = f"{experiment_dir_parent}/pending/{hashlib.md5(trial_results_path.encode()).hexdigest()}"
         filesystem.mkdir(filesystem.parent(pending_path), parents=True, exist_ok=True)
         filesystem.write_text(
             pending_path,
-- 
2.43.0


From bdc00c1fd4d3fcd66fe59b6b0031742029de1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:26 +0000
Subject: [PATCH 04/19] fix: draw Latin hypercube test points from the
 generator given

pyDOE draws from the global random state, which modeling strategies and, in
multi-threaded runs, other trials advance and reseed.  Different strategies
were therefore compared with the truth at different test points.
---
 ...n_hypercube_random_test_point_generator.py | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/driver/latin_hypercube_random_test_point_generator.py b/src/driver/latin_hypercube_random_test_point_generator.py
index f5cfe4b..20c4d0d 100644
--- a/src/driver/latin_hypercube_random_test_point_generator.py
+++ b/src/driver/latin_hypercube_random_test_point_generator.py
@@ -18,7 +18,7 @@ from typing import List
 from typing import Callable
 
 import numpy as np
-import pyDOE
+from scipy.spatial.distance import pdist
 from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
 from wfa_planning_evaluation_framework.driver.test_point_generator import (
     TestPointGenerator,
@@ -78,9 +78,35 @@ class LatinHypercubeRandomTestPointGenerator(TestPointGenerator):
             max(self._npoints, MINIMUM_NUMBER_OF_TEST_POINTS),
             MAXIMUM_NUMBER_OF_TEST_POINTS,
         )
-        design = pyDOE.lhs(n=self._npublishers, samples=num_points, criterion="maximin")
+        design = self._maximin_latin_hypercube(num_points)
         design = design[self._rng.permutation(num_points), :][
             :, self._rng.permutation(self._npublishers)
         ]
         for point in design:
             yield list(self._max_spends * point)
+
+    def _maximin_latin_hypercube(self, samples: int, iterations: int = 5) -> np.array:
+        """Returns the Latin Hypercube with the largest minimum distance.
+
+        All randomness comes from self._rng, so that the points depend neither on
+        the global random state nor on the modeling strategies that consume it.
+
+        Args:
+          samples:  The number of points of the Latin Hypercube.
+          iterations:  The number of random Latin Hypercubes that are compared.
+
+        Returns:
+          An array with one row per point and one column per publisher, with
+          values in the unit interval.
+        """
+        best, best_distance = None, -1.0
+        for _ in range(iterations):
+            cells = np.stack(
+                [self._rng.permutation(samples) for _ in range(self._npublishers)],
+                axis=1,
+            )
+            candidate = (cells + self._rng.random(cells.shape)) / samples
+            distance = np.min(pdist(candidate))
+            if distance > best_distance:
+                best, best_distance = candidate, distance
+        return best
-- 
2.43.0


From 0c150e26c6a91f8b0d7aca7ccc992a077ef20f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 05/19] fix: fit reach surfaces with their own random state

The restricted pairwise union and generalized mixture surfaces reseeded and
consumed the global random state, so that trials running in other threads of
the same process changed the fitted model.  The numbers drawn stay the same.
---
 .../generalized_mixture_reach_surface.py      |  9 ++++----
 ...restricted_pairwise_union_reach_surface.py | 22 +++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/models/generalized_mixture_reach_surface.py b/src/models/generalized_mixture_reach_surface.py
index 34530c4..4a62cf5 100644
--- a/src/models/generalized_mixture_reach_surface.py
+++ b/src/models/generalized_mixture_reach_surface.py
@@ -82,9 +82,6 @@ class GeneralizedMixtureReachSurface(ReachSurface):
         self._c = num_clusters
         # TODO(uakyol) : Optimize N later.
         self._N = max([reach_curve.max_reach for reach_curve in reach_curves]) * 2
-        self._initial_a = np.random.dirichlet(
-            np.ones(self._c) / 5, size=self._p
-        ).flatten()
         super().__init__(data=reach_points)
 
     def _define_criteria(
@@ -217,10 +214,12 @@ class GeneralizedMixtureReachSurface(ReachSurface):
         )[0]
 
     def init_a_sampler(self):
-        return np.random.dirichlet(np.ones(self._c) / 5, size=self._p).flatten()
+        return self._random_state.dirichlet(
+            np.ones(self._c) / 5, size=self._p
+        ).flatten()
 
     def _fit_multi_init_a(self, random_seed: int = 0):
-        np.random.seed(random_seed)
+        self._random_state = np.random.RandomState(random_seed)
         max_heap = [-np.Inf] * self._num_near_the_wall
         heapify(max_heap)
 
diff --git a/src/models/restricted_pairwise_union_reach_surface.py b/src/models/restricted_pairwise_union_reach_surface.py
index 3dcb6c1..abbdcca 100644
--- a/src/models/restricted_pairwise_union_reach_surface.py
+++ b/src/models/restricted_pairwise_union_reach_surface.py
@@ -288,7 +288,7 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         Returns:
           The updated best guess of lbd after a round.
         """
-        for i in np.random.permutation(self._p):
+        for i in self._random_state.permutation(self._p):
             # We shuffle the order of coordinates to have symmetry across
             # different EDPs.
             lbd[i] = self._step(lbd, i)
@@ -342,7 +342,7 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         return lbd, cur_loss, (cur_loss >= prev_loss - self._min_improvement)
 
     @classmethod
-    def _truncated_uniform_initial_lbd(cls, p: int) -> np.array:
+    def _truncated_uniform_initial_lbd(cls, p: int, random_state=np.random) -> np.array:
         """Sample initial lbd uniformly from the truncated feasible region.
 
         This is one approach to sample lbd from the feasible region defined by
@@ -356,17 +356,20 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
 
         Args:
           p:  The length of lbd.
+          random_state:  The source of random numbers.
 
         Return:
           One sample of lbd of the given length.
         """
         while True:
-            lbd = np.random.rand(p)
+            lbd = random_state.rand(p)
             if cls._check_lbd_feasiblity(lbd):
                 return lbd
 
     @classmethod
-    def _scaled_from_simplex_initial_lbd(cls, p: int, tol: float = 1e-6) -> np.array:
+    def _scaled_from_simplex_initial_lbd(
+        cls, p: int, random_state=np.random, tol: float = 1e-6
+    ) -> np.array:
         """Sample initial lbd uniformly from the truncated feasible region.
 
         This is another approach to sample lbd from the feasible region
@@ -389,18 +392,19 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
 
         Args:
           p:  The length of lbd.
+          random_state:  The source of random numbers.
           tol:  An artifical threshold to avoid divide-by-zero error.
 
         Return:
           One sample of lbd of the given length.
         """
-        u = sorted(np.random.rand(p - 1))
+        u = sorted(random_state.rand(p - 1))
         nu = np.append(u, 1) - np.append(0, u)
         s_max = 1 / max(np.sqrt(max(nu) * sum(nu)), tol)
-        return np.random.rand() * s_max * nu
+        return random_state.rand() * s_max * nu
 
     def _fit_multi_init_lbds(
-        self, init_lbd_sampler: Callable[[int], np.array], random_seed: int = 0
+        self, init_lbd_sampler: Callable[..., np.array], random_seed: int = 0
     ) -> None:
         """Fit the model from multiple initial lbds.
 
@@ -420,7 +424,7 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
             self._scaled_from_simplex_initial_lbd.
           random_seed:  The random seed to generate random initial values.
         """
-        np.random.seed(random_seed)
+        self._random_state = np.random.RandomState(random_seed)
         max_heap = [-np.Inf] * self._num_near_the_wall
         heapify(max_heap)
         # A List following the max heap order to save the negative losses to
@@ -437,7 +441,7 @@ class RestrictedPairwiseUnionReachSurface(PairwiseUnionReachSurface):
         while (
             num_init < self._min_num_init or not _close_enough(max_heap)
         ) and num_init < self._max_num_init:
-            init_lbd = init_lbd_sampler(self._p)
+            init_lbd = init_lbd_sampler(self._p, self._random_state)
             local_fit, local_loss, local_converge = self._fit_one_init_lbd(init_lbd)
             heappushpop(max_heap, -local_loss)
             # update the smallest k locally optimum losses
-- 
2.43.0


From 97766fab8562427281cba08c972199f7bebaba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 06/19] fix: name publishers read from disk after their file

The documented name is the last component of the path.  With the whole path as
name, writing a data set that had been read from disk into another design went
to the original files and left the other design empty.
---
 src/data_generators/data_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 50e6789..1a2a246 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -271,7 +271,7 @@ class DataSet:
                 with filesystem.open(filepath) as file:
                     try:
                         pdf = PublisherData.read_publisher_data(file)
-                        pdf.name = str(filepath)
+                        pdf.name = filesystem.name(filepath)
                         pdf_list.append(pdf)
                     except (ValueError, RuntimeError) as e:
                         raise RuntimeError(
-- 
2.43.0


From 9cbe5158da62c186644fb36b07a532669acf63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 07/19] fix: do not cache an empty DataSet for a directory that
 does not exist

read_data_set is cached.  Looking up a data set before it was added made every
later lookup return an empty DataSet.
---
 src/data_generators/data_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 1a2a246..ecf9be4 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -265,6 +265,9 @@ class DataSet:
           The DataSet object representing the contents of this directory.
         """
 
+        if not filesystem.is_dir(dirpath):
+            raise FileNotFoundError("There is no DataSet at {}".format(dirpath))
+
         pdf_list = []
         for filepath in sorted(filesystem.glob(dirpath, "*")):
             if filesystem.is_file(filepath):
-- 
2.43.0


From 0a495492b7593732d84d239a01e0cf3b892d4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 08/19] fix: bisect the sorted spends in impressions_by_spend

The spends were taken from the unsorted impression log.
---
 src/data_generators/publisher_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_generators/publisher_data.py b/src/data_generators/publisher_data.py
index b90c2d8..c1f32c6 100644
--- a/src/data_generators/publisher_data.py
+++ b/src/data_generators/publisher_data.py
@@ -80,7 +80,7 @@ class PublisherData:
         self._name = name
         if not self._name:
             self._name = "{:012d}".format(randint(0, 1e12))
-        self._spends = [spend for (_, spend) in impression_log_data]
+        self._spends = [spend for (_, spend) in self._data]
         self._max_spend = max([spend for (_, spend) in impression_log_data])
         self._max_reach = len(set([id for (id, _) in impression_log_data]))
 
-- 
2.43.0


From f9ff9f00ac852f216f86b09ccb4e5fbdbfd746ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 09/19] fix: set the storage client before writing the combined
 result

The worker that writes the combined result need not have evaluated a trial.
Without a default client cloudpathlib falls back to an anonymous client, which
cannot write the result, and the whole run failed.
---
 src/driver/experimental_design.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/driver/experimental_design.py b/src/driver/experimental_design.py
index dcf8adb..41759a9 100644
--- a/src/driver/experimental_design.py
+++ b/src/driver/experimental_design.py
@@ -167,13 +167,18 @@ class ExperimentalDesign:
                 >> beam.ParDo(EvaluateTrialDoFn(), self._seed, self._filesystem)
                 | "Combine results" >> beam.CombineGlobally(CombineDataFrameFn())
                 | "Write combined result"
-                >> beam.Map(
-                    lambda df: self._filesystem.write_text(
-                        result_path, df.to_csv(na_rep="NaN", index=False)
-                    )
-                )
+                >> beam.Map(lambda df: self._write_combined_result(df, result_path))
             )
 
+    def _write_combined_result(self, df: pd.DataFrame, result_path: str) -> None:
+        # The worker that writes the combined result need not have evaluated a
+        # trial, so its default client may not have been set yet.
+        if result_path.startswith("gs://"):
+            self._filesystem.set_default_client_to_gs_client()
+        self._filesystem.write_text(
+            result_path, df.to_csv(na_rep="NaN", index=False)
+        )
+
     def load(
         self,
         use_apache_beam: bool = False,
-- 
2.43.0


From 27b0064bc38aebd9f55644a2eee779ed5b18add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 10/19] fix: read the names in stored results back as text

Data sets get a zero-padded number as name unless told otherwise.  Read back
from a stored result, 000000000042 was reported as 42, and NA as a missing
value, so that a resumed run and a Beam run reported other data sets than an
uninterrupted serial run.
---
 src/driver/experimental_design.py | 3 ++-
 src/driver/experimental_trial.py  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_design.py b/src/driver/experimental_design.py
index 41759a9..3908940 100644
--- a/src/driver/experimental_design.py
+++ b/src/driver/experimental_design.py
@@ -203,7 +203,8 @@ class ExperimentalDesign:
         result = None
         if use_apache_beam:
             with self._filesystem.open(temp_result_path) as file:
-                result = pd.read_csv(file)
+                # Names are text, even if they look like a number or like NA.
+                result = pd.read_csv(file, converters={"dataset": str, "trial": str})
         else:
             result = pd.concat(
                 trial.evaluate(self._seed, self._filesystem)
diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index d5736aa..652108f 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -161,7 +161,10 @@ class ExperimentalTrial:
             try:
                 with filesystem.open(trial_results_path) as file:
                     contents = file.read()
-                result = pd.read_csv(io.StringIO(contents))
+                # Names are text, even if they look like a number or like NA.
+                result = pd.read_csv(
+                    io.StringIO(contents), converters={"dataset": str, "trial": str}
+                )
                 # A run that was interrupted while it was storing the result
                 # leaves only the beginning of the file behind.
                 if len(result) != 1 or not contents.endswith("\n"):
-- 
2.43.0


From ae7edca36b266a454fbee976fe15665fd971bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 11/19] fix: tell apart trials that differ in the seed of the
 sketches

The name of a trial did not mention the random seed of the Liquid Legions
sketches, so of two trials that differ in nothing else only one was evaluated
and stored, and its result was reported for both.
---
 src/simulator/system_parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/system_parameters.py b/src/simulator/system_parameters.py
index 2d2a82d..600af65 100644
--- a/src/simulator/system_parameters.py
+++ b/src/simulator/system_parameters.py
@@ -66,6 +66,10 @@ class SystemParameters(NamedTuple):
         ll_str = "decay_rate={},sketch_size={}".format(
             self.liquid_legions.decay_rate, self.liquid_legions.sketch_size
         )
+        # The default seed is left out, so that the names of trials that use it
+        # stay the same.
+        if self.liquid_legions.random_seed != LiquidLegionsParameters().random_seed:
+            ll_str += ",random_seed={}".format(self.liquid_legions.random_seed)
         return "spends=({}),{}".format(spend_str, ll_str)
 
     def update_from_dataset(self, dataset: DataSet) -> "SystemParameters":
-- 
2.43.0


From 8b8334ef205632216073d74358ae28181e0c0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 12/19] fix: store the row of a failed model whose message is
 not encodable

---
 src/driver/experimental_trial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 652108f..e3aee83 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -234,7 +234,12 @@ class ExperimentalTrial:
                 logging.vlog(1, f"Trial   {self._trial_descriptor}")
             logging.vlog(1, f"Modeling failure: {inst}")
             logging.vlog(2, traceback.format_exc())
-            metrics = aggregate_on_exception(traceback.format_exc())
+            # The message of an exception can contain characters that cannot be
+            # written to a file or read back from it, e.g. those of an undecodable
+            # file name.
+            debug_msg = traceback.format_exc().replace("\0", "\\x00")
+            debug_msg = debug_msg.encode("utf-8", "backslashreplace").decode("utf-8")
+            metrics = aggregate_on_exception(debug_msg)
             if self._analysis_type == SINGLE_PUB_ANALYSIS:
                 single_publisher_dataframe = (
                     self._single_publisher_fractions_dataframe_on_exception(
-- 
2.43.0


From de2b0e5be4d7a336ef91d4e4ec19048a23961015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 13/19] fix: give a DataSet without a name a random one

randint was not imported, so the documented default ended with a NameError.
---
 src/data_generators/data_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index ecf9be4..529b383 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
     filesystem_wrapper_base,
-- 
2.43.0


From aaf8e7a89fd8b4a774eafc21bdcc88dae8ec84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 14/19] fix: refuse to write publishers that have the same name

Every publisher is stored under its name, so the second one silently replaced
the first.
---
 src/data_generators/data_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 529b383..88af7a4 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -240,6 +240,9 @@ class DataSet:
         if not dataset_dir:
             dataset_dir = self._name
 
+        if len(set(pdf.name for pdf in self._data)) != self.publisher_count:
+            raise ValueError("The publishers of a DataSet must have different names")
+
         full_dir_path = filesystem.joinpath(parent_dir, dataset_dir)
         filesystem.mkdir(full_dir_path, parents=True, exist_ok=True)
         for pdf in self._data:
-- 
2.43.0


From 1b23627d2cca8163565e2a7ed3b9342e28feaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:46 +0000
Subject: [PATCH 15/19] fix: do not read a removed cloud file from the local
 cache

---
 src/filesystem_wrappers/filesystem_cloudpath_wrapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
index ade4445..58ac44b 100644
--- a/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
+++ b/src/filesystem_wrappers/filesystem_cloudpath_wrapper.py
@@ -80,7 +80,12 @@ class FilesystemCloudpathWrapper(filesystem_wrapper_base.FilesystemWrapperBase):
         Open the file pointed by the given path and return a file object, as
         the built-in open() function does.
         """
-        return CloudPath(path).open(
+        cloud_path = CloudPath(path)
+        # CloudPath would open the copy in its local cache of a file that has been
+        # removed in the meantime.
+        if "r" in mode and not cloud_path.exists():
+            raise FileNotFoundError(f"No such file: {path}")
+        return cloud_path.open(
             mode=mode,
             buffering=buffering,
             encoding=encoding,
-- 
2.43.0


From 69a41e342f2e22e8fbdd0c72f0a6ceeeb5f19b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:03 +0000
Subject: [PATCH 16/19] fix: let one thread at a time fetch a data set

---
 src/data_generators/data_set.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_generators/data_set.py b/src/data_generators/data_set.py
index 88af7a4..03a8385 100644
--- a/src/data_generators/data_set.py
+++ b/src/data_generators/data_set.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 from os import listdir
 from os.path import isfile, join
 from functools import lru_cache
+from threading import Lock
 from numpy.random import randint
 
 from wfa_planning_evaluation_framework.filesystem_wrappers import (
@@ -39,6 +40,10 @@ from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
 FsWrapperBase = filesystem_wrapper_base.FilesystemWrapperBase
 FsPathlibWrapper = filesystem_pathlib_wrapper.FilesystemPathlibWrapper
 
+# The threads of a process share the local copies of files in cloud storage, so
+# only one of them may fetch a DataSet at a time.
+_read_lock = Lock()
+
 
 class DataSet:
     """Real or simulated impression log data for multiple publishers.
@@ -251,7 +256,6 @@ class DataSet:
                 pdf.write_publisher_data(file)
 
     @classmethod
-    @lru_cache(maxsize=128)
     def read_data_set(
         cls, dirpath: str, filesystem: FsWrapperBase = FsPathlibWrapper()
     ) -> "DataSet":
@@ -268,7 +272,13 @@ class DataSet:
         Returns:
           The DataSet object representing the contents of this directory.
         """
+        with _read_lock:
+            return cls._read_data_set(dirpath, filesystem)
 
+    @classmethod
+    @lru_cache(maxsize=128)
+    def _read_data_set(cls, dirpath: str, filesystem: FsWrapperBase) -> "DataSet":
+        """Reads a DataSet that has not been read yet."""
         if not filesystem.is_dir(dirpath):
             raise FileNotFoundError("There is no DataSet at {}".format(dirpath))
 
-- 
2.43.0


From a064cdc05a0f955aef9b7408dfd6fb697d082282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:16 +0000
Subject: [PATCH 17/19] fix: analyse a publisher whose training or data point
 reaches nobody

The single publisher analysis took the maximum of an empty list when the reach
measured or obtained at the campaign spend was zero, and the row of the trial
was reported as a failure of its model.
---
 src/driver/experimental_trial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index e3aee83..6f2ab1d 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -370,7 +370,8 @@ class ExperimentalTrial:
                         (i + 1)
                         for i, f in enumerate(training_point._kplus_reaches)
                         if f != 0
-                    ]
+                    ],
+                    default=0,
                 )
             ]
             if training_point._kplus_reaches
@@ -378,7 +379,12 @@ class ExperimentalTrial:
         )
         data_point = halo.true_reach_by_spend(halo.campaign_spends, max_frequency)
         results["max_nonzero_frequency_from_data"] = (
-            [max([(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0])]
+            [
+                max(
+                    [(i + 1) for i, f in enumerate(data_point._kplus_reaches) if f != 0],
+                    default=0,
+                )
+            ]
             if data_point._kplus_reaches
             else [0]
         )
-- 
2.43.0


From a7e7deaf3319fc4fa7dd55b7d8dd07d7235eeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 18/19] fix: do not report a negative reach in a Venn diagram
 measurement

The cardinality that the regions are scaled to is noisy and can be negative.
---
 src/simulator/halo_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simulator/halo_simulator.py b/src/simulator/halo_simulator.py
index 5df8fb7..9bf2ee8 100644
--- a/src/simulator/halo_simulator.py
+++ b/src/simulator/halo_simulator.py
@@ -577,8 +577,13 @@ class HaloSimulator:
                 seed=self._params.generator.integers(low=0, high=1e9)
             ),
         )
-        cardinality_estimate = noiser(
-            self._params.generator.normal(true_cardinality, std_cardinality_estimate)
+        cardinality_estimate = max(
+            0,
+            noiser(
+                self._params.generator.normal(
+                    true_cardinality, std_cardinality_estimate
+                )
+            ),
         )
         noise_event = NoisingEvent(
             PrivacyBudget(
-- 
2.43.0


From 8153c85cb8bbb28a745e325f7f52a22b209b7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:09 +0000
Subject: [PATCH 19/19] fix: seed the global random generator after the data
 set is loaded

Loading a data set draws random names from numpy's global generator.  A
trial whose model uses that generator got another result when it was the
first one in its process to load the data set.
---
 src/driver/experimental_trial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver/experimental_trial.py b/src/driver/experimental_trial.py
index 6f2ab1d..a836721 100644
--- a/src/driver/experimental_trial.py
+++ b/src/driver/experimental_trial.py
@@ -143,7 +143,6 @@ class ExperimentalTrial:
         logging.vlog(2, f"Trial   {self._trial_descriptor}")
 
         rng = np.random.default_rng(seed=seed)
-        np.random.seed(seed)
 
         trial_results_path = self._compute_trial_results_path()
 
@@ -187,6 +186,9 @@ class ExperimentalTrial:
         )
 
         dataset = self._data_design.by_name(self._data_set_name)
+        # Loading a DataSet draws from the global generator, unless another trial
+        # has loaded it already, so the seed is set afterwards.
+        np.random.seed(seed)
         privacy_tracker = PrivacyTracker()
         # The generator is advanced by every use.  Each evaluation starts from its
         # own copy, so that the result does not depend on the trials that were
-- 
2.43.0

