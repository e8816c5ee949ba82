From 46b0576a04319fce91649a31b210d6fcc3856014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 01/28] fix: zero the factors of rows without interactions in
 the python CG solver

---
 implicit/cpu/als.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..a90d535 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -529,6 +529,11 @@ def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):
     YtY = Y.T.dot(Y) + regularization * np.eye(factors, dtype=Y.dtype)
 
     for u in range(users):
+        # rows without any interactions are zero (like in the native solver)
+        if Cui.indptr[u] == Cui.indptr[u + 1]:
+            X[u] = 0
+            continue
+
         # start from previous iteration
         x = X[u]
 
-- 
2.43.0


From 8dc804efd0b24334168c2a1b516ac1e0dc0288da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 02/28] fix: accept a numpy RandomState as random_state

---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From 6bc4c63b87af2d99e3f456ff70313525784a283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 03/28] fix: leave_k_out_split shuffles with the given
 random_state

---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..e198a54 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -108,6 +108,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng: np.random.Generator
+        The random generator used for shuffling
 
     Returns
     -------
@@ -125,7 +127,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = np.lexsort((rng.random(arr.shape), sorted_arr))
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -204,7 +206,7 @@ cpdef leave_k_out_split(
     candidate_data = data[full_candidate_mask]
 
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        candidate_users, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 0be890cd802fc85bc94a4d8d8d4c1934b6b822cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 04/28] fix: leave_k_out_split with user ids that aren't
 consecutive

---
 implicit/evaluation.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index e198a54..23b59f6 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -191,7 +191,8 @@ cpdef leave_k_out_split(
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
         train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
+            unique_users,
+            unique_users[_choose(random_state, len(unique_users), train_only_size)],
         )
         candidate_mask = train_only_mask & candidate_mask
 
@@ -205,8 +206,10 @@ cpdef leave_k_out_split(
     candidate_items = items[full_candidate_mask]
     candidate_data = data[full_candidate_mask]
 
+    # _take_tails requires consecutive integers
+    user_positions = np.searchsorted(unique_candidate_users, candidate_users)
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True, rng=random_state
+        user_positions, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 666eceeab0da55f2c94ba3cfca35a51f830ea9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 05/28] fix: FaissModel.similar_items no longer changes the
 factors of the model

---
 implicit/ann/faiss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..5b3e919 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -161,11 +161,12 @@ class FaissModel(RecommenderBase):
             if implicit.gpu.HAS_CUDA and isinstance(factors, implicit.gpu.Matrix):
                 factors = factors.to_numpy()
 
+        # note: factors can be a view on the item_factors of the model, don't normalize in place
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+        norms = np.linalg.norm(factors, axis=1)[:, None]
+        norms[norms == 0] = 1e-10
+        factors = factors / norms
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From 29828c576aa1ab13dd9fc9e33c3c16e50cbf0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 06/28] fix: FaissModel.recommend with
 approximate_recommend=False

---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 5b3e919..e7d8659 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -211,7 +211,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From ee77642906f163037527edfa3dde4382270c90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 07/28] fix: AnnoyModel.similar_items returns N results when
 filtering

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..82f7448 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From ffdcdaa157cee1b928fe280b60e95634bdf1cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 08/28] fix: recalculate_user with the approximate nearest
 neighbour models

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 82f7448..b10129b 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -191,7 +191,7 @@ class AnnoyModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index e7d8659..ab6d01a 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -223,7 +223,7 @@ class FaissModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..a5e8842 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -199,7 +199,7 @@ class NMSLibModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
-- 
2.43.0


From eeb9d471f7a148ac9304c6bda00503991017a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 09/28] fix: concurrent queries could see norms that weren't
 completely initialized

---
 implicit/cpu/matrix_factorization_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..1896c58 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -232,17 +232,19 @@ class MatrixFactorizationBase(RecommenderBase):
     @property
     def user_norms(self):
         if self._user_norms is None:
-            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
+            norms = np.linalg.norm(self.user_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._user_norms[self._user_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._user_norms = norms
         return self._user_norms
 
     @property
     def item_norms(self):
         if self._item_norms is None:
-            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
+            norms = np.linalg.norm(self.item_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._item_norms[self._item_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._item_norms = norms
         return self._item_norms
 
     def _check_fit_errors(self):
-- 
2.43.0


From 3653696ecf88e00b69646a549a343a750d963b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 10/28] fix: invalidate caches in each epoch, since the
 callback can query the model

---
 implicit/cpu/als.py  | 3 +++
 implicit/cpu/bpr.pyx | 2 ++
 implicit/cpu/lmf.pyx | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index a90d535..5e6a727 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -160,6 +160,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             # alternate between learning the user_factors from the item_factors and vice-versa
             for iteration in range(self.iterations):
                 s = time.time()
+                # the callback could have used the model
+                self._item_norms = self._user_norms = None
+                self._YtY = self._XtX = None
                 solver(
                     Cui,
                     self.user_factors,
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..60dbda6 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -190,6 +190,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # the callback could have used the model
+                self._user_norms = self._item_norms = None
                 correct, skipped = bpr_update(rng, userids, user_items.indices, user_items.indptr,
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..d0f5c11 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
@@ -180,6 +183,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # the callback could have used the model
+                self._user_norms = self._item_norms = None
                 # user update
                 lmf_update(rng, user_vec_deriv_sum,
                            self.user_factors, self.item_factors,
-- 
2.43.0


From 36e495b816412a73d80d3a28f7a2d9356aa25b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 11/28] fix: don't sort the matrix of the caller in place when
 fitting

---
 implicit/cpu/bpr.pyx | 2 +-
 implicit/cpu/lmf.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 60dbda6..0d3970d 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -145,7 +145,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index d0f5c11..f7c0152 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -139,7 +139,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         if not item_users.has_sorted_indices:
             item_users.sort_indices()
         if not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
-- 
2.43.0


From cbec91dc3cf3697aceff350bba397977acd2a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 12/28] fix: a failing partial_fit_users/partial_fit_items
 leaves the model unchanged

---
 implicit/cpu/als.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 5e6a727..f8611f7 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -301,18 +301,20 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         # ensure that we have enough storage for any new users
         users, factors = self.user_factors.shape
         max_userid = max(userids)
+        stored_factors = self.user_factors
         if max_userid >= users:
-            self.user_factors = np.concatenate(
-                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
+            stored_factors = np.concatenate(
+                [stored_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
             )
 
-        # update the stored factors with the newly calculated values
-        self.user_factors[userids] = user_factors
-
         # clear any cached properties that are invalidated by this update
         self._user_norms = None
         self._XtX = None
 
+        # update the stored factors with the newly calculated values
+        stored_factors[userids] = user_factors
+        self.user_factors = stored_factors
+
     def partial_fit_items(self, itemids, item_users):
         """Incrementally updates item factors
 
@@ -338,18 +340,20 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         # ensure that we have enough storage for any new items
         items, factors = self.item_factors.shape
         max_itemid = max(itemids)
+        stored_factors = self.item_factors
         if max_itemid >= items:
-            self.item_factors = np.concatenate(
-                [self.item_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
+            stored_factors = np.concatenate(
+                [stored_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
             )
 
-        # update the stored factors with the newly calculated values
-        self.item_factors[itemids] = item_factors
-
         # clear any cached properties that are invalidated by this update
         self._item_norms = None
         self._YtY = None
 
+        # update the stored factors with the newly calculated values
+        stored_factors[itemids] = item_factors
+        self.item_factors = stored_factors
+
     def explain(self, userid, user_items, itemid, user_weights=None, N=10):
         """Provides explanations for why the item is liked by the user.
 
-- 
2.43.0


From afd0756bc5ca836b0dacdcb814c809931188888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 13/28] fix: models with a RandomState or Generator could be
 saved but not loaded

---
 implicit/cpu/als.py  | 6 +++---
 implicit/cpu/bpr.pyx | 6 +++---
 implicit/cpu/lmf.pyx | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index f8611f7..a00d331 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -477,9 +477,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             "random_state": self.random_state,
             "alpha": self.alpha,
         }
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k: v for k, v in args.items() if v is not None}
+        # filter out 'None' valued args (and RandomState/Generator objects), since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 0d3970d..62db6f3 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -240,9 +240,9 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             random_state=self.random_state
         )
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        # filter out 'None' valued args (and RandomState/Generator objects), since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index f7c0152..6d95769 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -216,9 +216,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             dtype=self.dtype.name,
             random_state=self.random_state)
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        # filter out 'None' valued args (and RandomState/Generator objects), since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if np.asarray(v).dtype != object}
         np.savez(fileobj_or_path, **args)
 
 
-- 
2.43.0


From 901e8150340d755e0e81df7faa5152334fac60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 14/28] fix: save all parameters of nearest neighbour models

---
 implicit/nearest_neighbours.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..4c811a9 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -158,7 +158,7 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = self._get_params()
         m = self.similarity
         if m is not None:
             args.update(
@@ -166,6 +166,9 @@ class ItemItemRecommender(RecommenderBase):
             )
         np.savez(fileobj_or_path, **args)
 
+    def _get_params(self):
+        return {"K": self.K, "num_threads": self.num_threads}
+
     @classmethod
     def load(cls, fileobj_or_path):
         # numpy.save automatically appends a npz suffic, numpy.load doesn't apparently
@@ -180,7 +183,10 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            # models saved by previous versions only contain K
+            for param in ret._get_params():
+                if param in data:
+                    setattr(ret, param, data[param].item())
             return ret
 
 
@@ -208,6 +214,9 @@ class BM25Recommender(ItemItemRecommender):
         self.K1 = K1
         self.B = B
 
+    def _get_params(self):
+        return {"K1": self.K1, "B": self.B, **super()._get_params()}
+
     def fit(self, counts, show_progress=True, callback=None):
         weighted = bm25_weight(counts.T, self.K1, self.B).T
         ItemItemRecommender.fit(self, weighted, show_progress, callback)
-- 
2.43.0


From 5a7b4fe0eace0f110b681910311807ff759c143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 15/28] fix: ItemItemRecommender.recommend returned more than N
 results with filter_items

---
 implicit/nearest_neighbours.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 4c811a9..babc52c 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,20 +71,21 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
-- 
2.43.0


From 15d1dbb8c0f0a569115e7efc222306cc1bf8c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:28 +0000
Subject: [PATCH 16/28] fix: a failed download no longer leaves a truncated
 file in the dataset cache

---
 implicit/datasets/_download.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..42b2252 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 
 try:
     from urllib.request import urlretrieve
@@ -24,4 +25,14 @@ def download_file(url, local_filename):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        # download to a temporary file first: a download that fails must not leave a truncated
+        # file that looks like a cached dataset
+        temp_filename = f"{local_filename}.{uuid.uuid4().hex}.tmp"
+        try:
+            _, headers = urlretrieve(url, temp_filename, reporthook=report)
+            os.replace(temp_filename, local_filename)
+        except BaseException:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+            raise
+        return local_filename, headers
-- 
2.43.0


From 018beca663ff56b0d1e1353befa08c778c54ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:05 +0000
Subject: [PATCH 17/28] fix: the squared error of negative confidences is
 towards zero in the ALS training loss

---
 implicit/cpu/_als.pyx | 2 +-
 implicit/gpu/als.cu   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
diff --git a/implicit/gpu/als.cu b/implicit/gpu/als.cu
index 58ad047..ef52239 100644
--- a/implicit/gpu/als.cu
+++ b/implicit/gpu/als.cu
@@ -226,11 +226,11 @@ __global__ void calculate_loss_kernel(int factors, size_t user_count,
       if (confidence > 0) {
         r +=
             ((confidence - 1) * dot(Yi, x_value, shared) - 2 * confidence) * Yi;
+        loss += confidence;
       } else {
         confidence *= -1;
         r += ((confidence - 1) * dot(Yi, x_value, shared)) * Yi;
       }
-      loss += confidence;
       total_confidence += confidence;
     }
     loss += dot(x_value, r, shared);
-- 
2.43.0


From 38972c0e554821463eb6fcc31fae0a6a77515fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:26 +0000
Subject: [PATCH 18/28] fix: a file without a model in it doesn't load as an
 untrained model

---
 implicit/nearest_neighbours.py | 2 ++
 implicit/recommender_base.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index babc52c..deb7aa5 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -177,6 +177,8 @@ class ItemItemRecommender(RecommenderBase):
             fileobj_or_path = fileobj_or_path + ".npz"
 
         with np.load(fileobj_or_path, allow_pickle=False) as data:
+            if not data.files:
+                raise ValueError("file doesn't contain a model")
             ret = cls()
             if data.get("data") is not None:
                 similarity = csr_matrix(
diff --git a/implicit/recommender_base.py b/implicit/recommender_base.py
index 25c7c0a..63221b4 100644
--- a/implicit/recommender_base.py
+++ b/implicit/recommender_base.py
@@ -191,6 +191,8 @@ class RecommenderBase(metaclass=ABCMeta):
         if isinstance(fileobj_or_path, str) and not fileobj_or_path.endswith(".npz"):
             fileobj_or_path = fileobj_or_path + ".npz"
         with np.load(fileobj_or_path, allow_pickle=False) as data:
+            if not data.files:
+                raise ValueError("file doesn't contain a model")
             ret = cls()
             for k, v in data.items():
                 if k == "dtype":
-- 
2.43.0


From 82174342298c1fc6ed521170f1ac4b5caf06c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 19/28] fix: queries after a failed fit don't use the indices
 of the previous one

---
 implicit/ann/annoy.py  | 17 +++++++++++------
 implicit/ann/faiss.py  |  3 +++
 implicit/ann/nmslib.py | 21 +++++++++++++--------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index b10129b..b52ddc6 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -64,6 +64,9 @@ class AnnoyModel(RecommenderBase):
         self.search_k = search_k
 
     def fit(self, Cui, show_progress=True, callback=None):
+        # queries shouldn't use the indices of a previous fit if this one fails
+        self.similar_items_index = self.recommend_index = None
+
         # train the model
         self.model.fit(Cui, show_progress, callback)
 
@@ -77,20 +80,22 @@ class AnnoyModel(RecommenderBase):
         if self.approximate_similar_items:
             log.debug("Building annoy similar items index")
 
-            self.similar_items_index = annoy.AnnoyIndex(item_factors.shape[1], "angular")
+            index = annoy.AnnoyIndex(item_factors.shape[1], "angular")
             for i, row in enumerate(item_factors):
-                self.similar_items_index.add_item(i, row)
-            self.similar_items_index.build(self.n_trees)
+                index.add_item(i, row)
+            index.build(self.n_trees)
+            self.similar_items_index = index
 
         # build up a separate index for the inner product (for recommend
         # methods)
         if self.approximate_recommend:
             log.debug("Building annoy recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = annoy.AnnoyIndex(extra.shape[1], "angular")
+            index = annoy.AnnoyIndex(extra.shape[1], "angular")
             for i, row in enumerate(extra):
-                self.recommend_index.add_item(i, row)
-            self.recommend_index.build(self.n_trees)
+                index.add_item(i, row)
+            index.build(self.n_trees)
+            self.recommend_index = index
 
     def similar_items(
         self, itemid, N=10, recalculate_item=False, item_users=None, filter_items=None, items=None
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index ab6d01a..2964559 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -74,6 +74,9 @@ class FaissModel(RecommenderBase):
         super().__init__()
 
     def fit(self, Cui, show_progress=True, callback=None):
+        # queries shouldn't use the indices of a previous fit if this one fails
+        self.similar_items_index = self.recommend_index = None
+
         self.model.fit(Cui, show_progress, callback=callback)
 
         item_factors = self.model.item_factors
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index a5e8842..45b0c6f 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -76,6 +76,9 @@ class NMSLibModel(RecommenderBase):
         # the logging
         logging.getLogger("nmslib").setLevel(logging.WARNING)
 
+        # queries shouldn't use the indices of a previous fit if this one fails
+        self.similar_items_index = self.recommend_index = None
+
         # train the model
         self.model.fit(Cui, show_progress, callback=callback)
         item_factors = self.model.item_factors
@@ -85,7 +88,7 @@ class NMSLibModel(RecommenderBase):
         # create index for similar_items
         if self.approximate_similar_items:
             log.debug("Building nmslib similar items index")
-            self.similar_items_index = nmslib.init(method=self.method, space="cosinesimil")
+            index = nmslib.init(method=self.method, space="cosinesimil")
 
             # there are some numerical instability issues here with
             # building a cosine index with vectors with 0 norms, hack around this
@@ -97,19 +100,21 @@ class NMSLibModel(RecommenderBase):
             nonzero_item_factors = np.delete(item_factors, ids[norms == 0], axis=0)
             ids = ids[norms != 0]
 
-            self.similar_items_index.addDataPointBatch(nonzero_item_factors, ids=ids)
-            self.similar_items_index.createIndex(self.index_params, print_progress=show_progress)
-            self.similar_items_index.setQueryTimeParams(self.query_params)
+            index.addDataPointBatch(nonzero_item_factors, ids=ids)
+            index.createIndex(self.index_params, print_progress=show_progress)
+            index.setQueryTimeParams(self.query_params)
+            self.similar_items_index = index
 
         # build up a separate index for the inner product (for recommend
         # methods)
         if self.approximate_recommend:
             log.debug("Building nmslib recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = nmslib.init(method="hnsw", space="cosinesimil")
-            self.recommend_index.addDataPointBatch(extra)
-            self.recommend_index.createIndex(self.index_params, print_progress=show_progress)
-            self.recommend_index.setQueryTimeParams(self.query_params)
+            index = nmslib.init(method="hnsw", space="cosinesimil")
+            index.addDataPointBatch(extra)
+            index.createIndex(self.index_params, print_progress=show_progress)
+            index.setQueryTimeParams(self.query_params)
+            self.recommend_index = index
 
     def similar_items(
         self, itemid, N=10, recalculate_item=False, item_users=None, filter_items=None, items=None
-- 
2.43.0


From 20d192e51626ecb0c6f199683535960e77ab68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:57 +0000
Subject: [PATCH 20/28] fix: reject a matrix that doesn't match the factors of
 the model when fitting

---
 implicit/cpu/als.py                       |  1 +
 implicit/cpu/bpr.pyx                      |  1 +
 implicit/cpu/lmf.pyx                      |  1 +
 implicit/cpu/matrix_factorization_base.py | 10 ++++++++++
 4 files changed, 13 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index a00d331..d6c43ae 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -137,6 +137,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         log.debug("Calculated transpose in %.3fs", time.time() - s)
 
         items, users = Ciu.shape
+        self._check_factors(users, items)
 
         s = time.time()
         # Initialize the variables randomly if they haven't already been set
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 62db6f3..459eef9 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -142,6 +142,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         users, items = user_items.shape
+        self._check_factors(users, items)
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 6d95769..436616c 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -132,6 +132,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             user_items = user_items.astype(np.float32)
 
         users, items = user_items.shape
+        self._check_factors(users, items)
 
         user_items = check_csr(user_items)
         item_users = user_items.T.tocsr()
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 1896c58..06a84a2 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -247,6 +247,16 @@ class MatrixFactorizationBase(RecommenderBase):
             self._item_norms = norms
         return self._item_norms
 
+    def _check_factors(self, users, items):
+        # factors that are already set have to match the matrix that is trained on
+        for name, count in (("user_factors", users), ("item_factors", items)):
+            factors = getattr(self, name)
+            if factors is not None and factors.shape[0] != count:
+                raise ValueError(
+                    f"{name} has {factors.shape[0]} rows, but the matrix to fit has {count}. "
+                    "Set the factors to None to train from scratch"
+                )
+
     def _check_fit_errors(self):
         is_nan = np.any(np.isnan(self.user_factors), axis=None)
         is_nan |= np.any(np.isnan(self.item_factors), axis=None)
-- 
2.43.0


From dd890e2ede7a534ddf7347d26a38c40404dcff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 21/28] fix: reject ids outside the model in recalculate_user
 and recalculate_item

The solver indexed the other side's factors with them unchecked and read outside
the array.
---
 implicit/cpu/als.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index d6c43ae..8ad0a81 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -226,6 +226,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
+        _check_columns(user_items, self.item_factors, "item")
 
         if self.alpha != 1.0:
             user_items = self.alpha * user_items
@@ -263,6 +264,10 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             item_users = self.alpha * item_users
 
         items = 1 if np.isscalar(itemid) else len(itemid)
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+        _check_columns(item_users, self.user_factors, "user")
+
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
@@ -484,6 +489,11 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         np.savez(fileobj_or_path, **args)
 
 
+def _check_columns(m, factors, name):
+    if m.nnz and m.indices.max() >= factors.shape[0]:
+        raise ValueError(f"Some of the {name}ids in the matrix are not in the model")
+
+
 def least_squares(Cui, X, Y, regularization, num_threads=0):
     """For each user in Cui, calculate factors Xu for them
     using least squares on Y.
-- 
2.43.0


From 07f5b5b33a9c23fe5f97453c4ceb5f89648b22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 22/28] fix: reject unknown item ids and missing rows in
 ItemItemRecommender.recommend

The scorer read outside the similarity matrix and indptr.
---
 implicit/nearest_neighbours.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index deb7aa5..a67f023 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -68,6 +68,9 @@ class ItemItemRecommender(RecommenderBase):
                 items=items,
             )
 
+        if user_items.shape[0] < 1:
+            raise ValueError("user_items must contain 1 row for every user in userids")
+
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
@@ -81,6 +84,9 @@ class ItemItemRecommender(RecommenderBase):
             if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        if user_items.nnz and user_items.indices.max() >= self.similarity.shape[0]:
+            raise ValueError("Some of the itemids in user_items are not in the model")
+
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
-- 
2.43.0


From f1f8796878c625f38b88c295efcff8fc6216a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 23/28] fix: K=0 in the nearest neighbour TopK

An empty heap was compared with and popped.
---
 implicit/nearest_neighbours.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.h b/implicit/nearest_neighbours.h
index 6e72452..e074ac3 100644
--- a/implicit/nearest_neighbours.h
+++ b/implicit/nearest_neighbours.h
@@ -17,7 +17,7 @@ template <typename Index, typename Value> struct TopK {
   explicit TopK(size_t K) : K(K) {}
 
   void operator()(Index index, Value score) {
-    if ((results.size() < K) || (score > results[0].first)) {
+    if ((results.size() < K) || (K && (score > results[0].first))) {
       if (results.size() >= K) {
         std::pop_heap(results.begin(), results.end(), heap_order);
         results.pop_back();
-- 
2.43.0


From 334162235dc2cb22a530ef969f8be0faba7cfe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 24/28] fix: N=0 in the top-k selection

An empty heap was compared with and popped.
---
 implicit/cpu/select.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/select.h b/implicit/cpu/select.h
index 2199b85..f843b25 100644
--- a/implicit/cpu/select.h
+++ b/implicit/cpu/select.h
@@ -20,7 +20,7 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
     for (int col = 0; col < cols; ++col) {
       T score = batch[row * cols + col];
 
-      if ((results.size() < k) || (score > results[0].first)) {
+      if ((results.size() < k) || (k && (score > results[0].first))) {
         if (results.size() >= k) {
           std::pop_heap(results.begin(), results.end(), heap_order);
           results.pop_back();
-- 
2.43.0


From bc219adc8ec06da969487ffaf085bf38fc664bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 25/28] fix: reject K < 1 in ranking_metrics_at_k

The discount table was read at index -1.
---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 23b59f6..00aee8e 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -397,6 +397,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
     float
         the calculated p@k
     """
+    if K < 1:
+        raise ValueError("The 'K' must be >= 1.")
+
     if not isinstance(train_user_items, csr_matrix):
         train_user_items = train_user_items.tocsr()
 
-- 
2.43.0


From 9d99586a3d94a64e3c00278e3d64af46f87fea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:28 +0000
Subject: [PATCH 26/28] fix: concurrent downloads don't fail when both create
 the dataset cache directory

---
 implicit/datasets/_download.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 42b2252..66032b3 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -16,8 +16,7 @@ def download_file(url, local_filename):
     bar of download progress"""
     local_filename = os.path.abspath(local_filename)
     path = os.path.dirname(local_filename)
-    if not os.path.isdir(path):
-        os.makedirs(path)
+    os.makedirs(path, exist_ok=True)
 
     with tqdm(unit="B", unit_scale=True) as progress:
 
-- 
2.43.0


From dad8d231ce1f640c6d28c64d3910f507642e6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:25 +0000
Subject: [PATCH 27/28] fix: a fit that fails while creating the factors
 doesn't leave caches of the previous ones

---
 implicit/cpu/als.py  | 9 +++++----
 implicit/cpu/bpr.pyx | 6 +++---
 implicit/cpu/lmf.pyx | 6 +++---
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 8ad0a81..8954b78 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -139,6 +139,11 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         items, users = Ciu.shape
         self._check_factors(users, items)
 
+        # invalidate cached norms and squared factors
+        self._item_norms = self._user_norms = None
+        self._YtY = None
+        self._XtX = None
+
         s = time.time()
         # Initialize the variables randomly if they haven't already been set
         if self.user_factors is None:
@@ -148,10 +153,6 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         log.debug("Initialized factors in %s", time.time() - s)
 
-        # invalidate cached norms and squared factors
-        self._item_norms = self._user_norms = None
-        self._YtY = None
-        self._XtX = None
         loss = None
 
         solver = self.solver
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 459eef9..4a60278 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -153,6 +153,9 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         user_counts = np.ediff1d(user_items.indptr)
         userids = np.repeat(np.arange(users), user_counts).astype(user_items.indices.dtype)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # create factors if not already created.
         # Note: the final dimension is for the item bias term - which is set to a 1 for all users
         # this simplifies interfacing with approximate nearest neighbours libraries etc
@@ -173,9 +176,6 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
             self.user_factors[:, self.factors] = 1.0
 
-        # invalidate cached norms
-        self._user_norms = self._item_norms = None
-
         # we accept num_threads = 0 as indicating to create as many threads as we have cores,
         # but in that case we need the number of cores, since we need to initialize RNG state per
         # thread. Get the appropriate value back from openmp
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 436616c..e7ac6ed 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -147,6 +147,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         user_counts = np.ediff1d(user_items.indptr)
         item_counts = np.bincount(user_items.indices, minlength=items)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # Reserve last two elements of user factors, and item factors to be bias.
         # user_factors[-1] = 1, item_factors[-2] = 1
         # user_factors[-2] = user bias, item factors[-1] = item bias
@@ -165,9 +168,6 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
-        # invalidate cached norms
-        self._user_norms = self._item_norms = None
-
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From 232d2294a76b8b73c7ae3560e617dade2882a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:35 +0000
Subject: [PATCH 28/28] fix: native solvers read factors that are not
 C-contiguous as if they were

Factors set by the caller in Fortran order (a transposed array, or one loaded
from elsewhere) gave wrong results in fit, recalculate_user, recalculate_item
and calculate_loss, since the native code takes a row for contiguous.
---
 implicit/cpu/_als.pyx                     | 3 ++-
 implicit/cpu/als.py                       | 4 ++--
 implicit/cpu/matrix_factorization_base.py | 3 +++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index ffeae98..3e51ebc 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -251,7 +251,8 @@ def _least_squares_cg(integral[:] indptr, integral[:] indices, float[:] data,
 def calculate_loss(Cui, X, Y, regularization, num_threads=0):
     """ Calculates the loss for an ALS model """
     return _calculate_loss(Cui, Cui.indptr, Cui.indices, Cui.data.astype('float32'),
-                           X, Y, regularization, num_threads)
+                           np.ascontiguousarray(X), np.ascontiguousarray(Y),
+                           regularization, num_threads)
 
 
 @cython.cdivision(True)
diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 8954b78..f2f668c 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -239,7 +239,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             user_items.indices,
             user_items.data.astype("float32"),
             user_factors,
-            self.item_factors,
+            np.ascontiguousarray(self.item_factors),
             self.regularization,
             num_threads=self.num_threads,
         )
@@ -276,7 +276,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             item_users.indices,
             item_users.data.astype("float32"),
             item_factors,
-            self.user_factors,
+            np.ascontiguousarray(self.user_factors),
             self.regularization,
             num_threads=self.num_threads,
         )
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 06a84a2..67f7800 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -256,6 +256,9 @@ class MatrixFactorizationBase(RecommenderBase):
                     f"{name} has {factors.shape[0]} rows, but the matrix to fit has {count}. "
                     "Set the factors to None to train from scratch"
                 )
+            if factors is not None:
+                # the native code requires the values of a row to be next to each other
+                setattr(self, name, np.ascontiguousarray(factors))
 
     def _check_fit_errors(self):
         is_nan = np.any(np.isnan(self.user_factors), axis=None)
-- 
2.43.0

