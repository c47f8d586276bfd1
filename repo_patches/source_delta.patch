From 9c6f313edcbced16f29b1de36d388db729d6a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 1/9] fix: size the leaf-subset buffers from all trees, not
 only the last one

self.max_var was reset for every tree, so it ended up as the largest number of
split variables in a leaf of the LAST tree. The kernels allocate 2**max_var
slots with bounds checks off and wrote out of bounds for any other tree with a
deeper leaf.
---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From ece9f12cdfea4a591fd125082d2ff546f31df6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 2/9] fix: leaves of the projected forest have no split and no
 children to walk into

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 56 ++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..b7be3f4 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4051,6 +4051,8 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4268,6 +4270,9 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -4356,6 +4361,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
                 s = 0
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4450,6 +4457,8 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4536,6 +4545,8 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4711,6 +4722,8 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4842,6 +4855,8 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
@@ -4992,6 +5007,8 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0 or children_left[b, nodes_level[it_node]] < 0: # a leaf: no split, no children
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -5160,6 +5177,9 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5266,6 +5286,9 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5432,6 +5455,9 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5538,6 +5564,9 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5674,6 +5703,9 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5829,6 +5861,9 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5923,6 +5958,9 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6509,6 +6547,9 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
@@ -6805,6 +6846,9 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6912,6 +6956,9 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7066,6 +7113,9 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7317,6 +7367,9 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7452,6 +7505,9 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0 or children_left[b, it_node] < 0: # a leaf: no split, no children
+                    inc(it_point)
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
-- 
2.43.0


From 3504cba814f04f7855e72203a21016946239f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 3/9] fix: normalised conditional expectation ignores leaves no
 background row can reach, instead of returning NaN

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b7be3f4..5d69948 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..63e4c7b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 34a6d2ab13b72c2cf367a9e4bbf2140cf832b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 4/9] fix: sufficient_cxpl_rf drops each sample's placeholder,
 not the first sample's probabilities

---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..24221dc 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1215,7 +1215,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [cdp_ind[1:] for cdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From b1d5ab8b3e9d6f336adc9275fd1c9b8674ef57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 5/9] fix: compute_exp_normalized_nopa calls the serial kernel,
 which exists under another name

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..ab3319e 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -639,7 +639,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From 67b82f6a2f18764131a00dff7cfdffecf761b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 6/9] fix: the tree limit of a multiclass booster counts rounds
 of one tree per class

---
 acv_explainers/base_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..2430793 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -728,7 +728,8 @@ class BaseTree:
 
         # see if we have a default tree_limit in place.
         if tree_limit is None:
-            tree_limit = -1 if self.tree_limit is None else self.tree_limit
+            # the limit of the original model counts rounds, and a round adds one tree per stacked model
+            tree_limit = -1 if self.tree_limit is None else self.tree_limit * self.num_stacked_models
 
         # convert dataframes
         if safe_isinstance(X, "pandas.core.series.Series"):
-- 
2.43.0


From 98a36c56c55608d73b0a17d5b01da07342428a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 7/9] fix: local counterfactual rules in regression use the
 caller's pi_level and search parameters, not acc_level

---
 acv_explainers/counterfactual_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..5c1efb8 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,11 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence)
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 2f66d9d1818d3dbbbed9e52a63b3b442a95775dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 8/9] fix: remove the contained counterfactual rule, keep the
 containing one and one of two equal rules

---
 acv_explainers/utils_cr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..e8023cf 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -802,7 +802,9 @@ def remove_in_wsdp(ra, sa, wa):
                 # ra[i] = ra[j]
                 # sa[i] = sa[j]
                 # wa[i] = wa[j]
-                remove_list.append(j)
+                # of two equal rules, the first one stays
+                if j < i or not np.array_equal(ra[i], ra[j]):
+                    remove_list.append(i)
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 8e9cf1ca4ab430b7ac6b18a43fa850f42c734200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 9/9] fix: the global rules model never answers with a rule
 below the asked coverage, and gives no answer when only such rules apply

---
 acv_explainers/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..3229b17 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -987,9 +987,10 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.max(y_weights[np.array(y_coverage) >= min_cov]) >= min_acc:
-            max_weights = np.max(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == max_weights)
+        covered = np.array(y_coverage) >= min_cov
+        if np.any(covered) and np.max(y_weights[covered]) >= min_acc:
+            max_weights = np.max(y_weights[covered])
+            best_acc = np.argmax(covered * (y_weights == max_weights))
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
@@ -1021,9 +1022,10 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
                 y_S.append(S[i])
 
         y_weights = np.array(y_weights)
-        if len(y_out) != 0 and np.min(y_weights[np.array(y_coverage) >= min_cov]) <= min_mse:
-            min_weights = np.min(y_weights[np.array(y_coverage) >= min_cov])
-            best_acc = np.argmax(y_weights == min_weights)
+        covered = np.array(y_coverage) >= min_cov
+        if np.any(covered) and np.min(y_weights[covered]) <= min_mse:
+            min_weights = np.min(y_weights[covered])
+            best_acc = np.argmax(covered * (y_weights == min_weights))
 
             y_exp.append(y_out[best_acc])
             rule_exp.append(y_rule[best_acc])
-- 
2.43.0

