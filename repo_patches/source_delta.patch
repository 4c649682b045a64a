From 8de621de28c0472754e2a6bdb4d071dd081f6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 01/47] fix: is_not_constant ignored the first value of a
 column

A column whose only deviating value is the first one (and hence every
two-row column) was reported as constant, so it could never be split.
---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9daa97e 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From b85d84f864e5ca65edd4308948e2856de5ba7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 02/47] fix: compare the log of the uniform draw with the log
 acceptance ratio

The ratio is on the log scale, but was compared with the uniform draw
itself, so every move with a ratio below one was always rejected and the
Metropolis-Hastings rule was not followed.
---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From 1dc2a4c918dc96571ab4f01a3c94f370444a5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 03/47] fix: use the prior variance of leaf values in the grow
 likelihood ratio

The marginal likelihood of a leaf depends on the variance of the leaf
prior; several terms used its standard deviation instead.
---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From 382a8ff3b8138a43e2c8440b57d5607ceecb80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 04/47] fix: draw leaf values with the posterior variance

The prior scale already accounts for the number of trees; dividing the
posterior variance by it once more made leaf draws too narrow.
---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From d0b8f0bd15c7a291f4de38255adaa346f5615486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 05/47] fix: use the proposal probabilities of the mutated tree
 in the transition ratio

---
 .../unconstrainedtree/likihoodratio.py        | 68 ++++++++++++++-----
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..1089b5d 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation, GrowMutation, PruneMutation
-from bartpy.node import LeafNode, TreeNode
+from bartpy.node import DecisionNode, LeafNode, TreeNode
 from bartpy.samplers.treemutation import TreeMutationLikihoodRatio
 from bartpy.sigma import Sigma
 from bartpy.tree import Tree
@@ -78,28 +78,42 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
-        prob_grow_selected = log_probability_split_within_tree(tree, mutation)
+        n_prunable = n_prunable_decision_nodes(tree)
+        n_prunable_after = n_prunable + 1 - int(is_child_of_prunable_node(tree, mutation.existing_node))
+        n_splittable_after = n_splittable_leaf_nodes(tree) - 1 + n_splittable_children(mutation.updated_node)
 
-        prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        prob_prune_selected = self.log_probability_prune(n_splittable_after) - np.log(n_prunable_after)
+        prob_grow_selected = self.log_probability_grow(n_prunable) + log_probability_split_within_tree(tree, mutation)
 
-        return prune_grow_ratio + prob_selection_ratio
+        return prob_prune_selected - prob_grow_selected
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        n_prunable = n_prunable_decision_nodes(tree)
+        n_prunable_after = n_prunable - 1 + int(would_be_child_of_prunable_node(tree, mutation.existing_node))
+        n_splittable = n_splittable_leaf_nodes(tree)
+        n_splittable_after = n_splittable - n_splittable_children(mutation.existing_node) + 1
+
+        prob_grow_node_selected = - np.log(n_splittable_after)
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
-        prob_grow_selected = prob_grow_node_selected + prob_split
+        prob_grow_selected = self.log_probability_grow(n_prunable_after) + prob_grow_node_selected + prob_split
 
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
+        prob_prune_selected = self.log_probability_prune(n_splittable) - np.log(n_prunable)
 
-        prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        return prob_grow_selected - prob_prune_selected
 
-        return grow_prune_ratio + prob_selection_ratio
+    def log_probability_grow(self, n_prunable_nodes: int) -> float:
+        """
+        The log probability of a grow mutation being proposed for a tree with a splittable leaf node
+        Growing is the only option for trees with nothing to prune
+        """
+        return np.log(self.prob_method[0]) if n_prunable_nodes > 0 else 0.
+
+    def log_probability_prune(self, n_splittable_nodes: int) -> float:
+        """
+        The log probability of a prune mutation being proposed for a tree with a prunable decision node
+        Pruning is the only option for trees with nothing to grow
+        """
+        return np.log(self.prob_method[1]) if n_splittable_nodes > 0 else 0.
 
     @staticmethod
     def log_tree_ratio_grow(model: Model, tree: Tree, proposal: GrowMutation):
@@ -108,7 +122,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
@@ -142,6 +156,28 @@ def n_splittable_leaf_nodes(tree: Tree) -> int:
     return len(tree.splittable_leaf_nodes)
 
 
+def n_splittable_children(node: DecisionNode) -> int:
+    """
+    The number of children of a decision node that are splittable leaf nodes
+    """
+    return sum([1 for child in [node.left_child, node.right_child] if child.is_splittable()])
+
+
+def is_child_of_prunable_node(tree: Tree, node: LeafNode) -> bool:
+    """
+    Whether growing the leaf node stops its parent from being prunable
+    """
+    return any([node is x.left_child or node is x.right_child for x in tree.prunable_decision_nodes])
+
+
+def would_be_child_of_prunable_node(tree: Tree, node: DecisionNode) -> bool:
+    """
+    Whether pruning the decision node makes its parent prunable, i.e. whether its sibling is a leaf node
+    """
+    return any([(node is x.left_child and type(x.right_child) == LeafNode) or
+                (node is x.right_child and type(x.left_child) == LeafNode) for x in tree.decision_nodes])
+
+
 def log_probability_split_within_tree(tree: Tree, mutation: GrowMutation) -> float:
     """
     The log probability of the particular grow mutation being selected conditional on growing a given tree
-- 
2.43.0


From 57c313621852e2bae1d8baf38042430a3cb0f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 06/47] fix: leave the tree unchanged when no mutation is
 possible instead of recursing forever

---
 bartpy/samplers/unconstrainedtree/proposer.py | 23 +++++++++++++------
 .../unconstrainedtree/treemutation.py         |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/proposer.py b/bartpy/samplers/unconstrainedtree/proposer.py
index c84e826..5ab4581 100644
--- a/bartpy/samplers/unconstrainedtree/proposer.py
+++ b/bartpy/samplers/unconstrainedtree/proposer.py
@@ -40,14 +40,23 @@ class UniformMutationProposer(TreeMutationProposer):
                                               list(self.prob_method_lookup.values()),
                                               cache_size=1000)
 
-    def propose(self, tree: Tree) -> TreeMutation:
+    def propose(self, tree: Tree) -> Optional[TreeMutation]:
+        """
+        Propose a mutation, falling back on the other methods if the sampled one isn't possible for the tree
+
+        Returns None if there is no possible mutation
+        """
+        remaining = {x: p for x, p in self.prob_method_lookup.items() if p > 0}
         method = self.method_sampler.sample()
-        try:
-            return method(tree)
-        except NoSplittableVariableException:
-            return self.propose(tree)
-        except NoPrunableNodeException:
-            return self.propose(tree)
+        while True:
+            try:
+                return method(tree)
+            except (NoSplittableVariableException, NoPrunableNodeException):
+                remaining.pop(method)
+                if len(remaining) == 0:
+                    return None
+                probas = np.array(list(remaining.values()))
+                method = np.random.choice(list(remaining.keys()), p=probas / probas.sum())
 
 
 def random_splittable_leaf_node(tree: Tree) -> LeafNode:
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..1dfc6de 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
+        if proposal is None:
+            return None
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
-- 
2.43.0


From 0a38a7bb208039f76c5511324af4c280c93d0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 07/47] fix: start each sweep from the current sum of tree
 predictions

---
 bartpy/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..23fc3d9 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -69,8 +69,7 @@ class Model:
         return self._trees
 
     def refreshed_trees(self) -> Generator[Tree, None, None]:
-        if self._prediction is None:
-            self._prediction = self.predict()
+        self._prediction = self.predict()
         for tree in self._trees:
             self._prediction -= tree.predict()
             tree.update_y(self.data.y.values - self._prediction)
-- 
2.43.0


From 1ccf5da261fe5126c46c42a065f8a155999fb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 08/47] fix: initialize the target of trees to the data rather
 than None

---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index 23fc3d9..d516e74 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From d0a69aff30975232da14374dd10161bd06128fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 09/47] fix: link the nodes of a copied tree to each other
 rather than to the live tree

---
 bartpy/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..1a08e03 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -171,4 +171,8 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = {id(x): deep_copy_node(x) for x in tree.nodes}
+    for node in tree.decision_nodes:
+        copies[id(node)]._left_child = copies[id(node.left_child)]
+        copies[id(node)]._right_child = copies[id(node.right_child)]
+    return Tree([copies[id(x)] for x in tree.nodes])
-- 
2.43.0


From 9198c82b431539857d3453bb38b041397cbc4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 10/47] fix: give every chain its own model and its own random
 draws

---
 bartpy/samplers/scalar.py | 20 +++++++++++++++++---
 bartpy/sklearnmodel.py    |  6 +++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..80f3110 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -3,7 +3,21 @@ from typing import Any, List
 import numpy as np
 
 
-class NormalScalarSampler():
+class CachedScalarSampler():
+    """
+    Base class for samplers that draw from the random number generator in batches
+
+    Pre-drawn values belong to a single sampler and are left behind when it is copied or pickled,
+    otherwise the copies would all go on to use the same values
+    """
+
+    def __getstate__(self):
+        state = dict(self.__dict__)
+        state["_cache"] = []
+        return state
+
+
+class NormalScalarSampler(CachedScalarSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -19,7 +33,7 @@ class NormalScalarSampler():
         self._cache = list(np.random.normal(size=self._cache_size))
 
 
-class UniformScalarSampler():
+class UniformScalarSampler(CachedScalarSampler):
 
     def __init__(self,
                  cache_size: int=1000):
@@ -35,7 +49,7 @@ class UniformScalarSampler():
         self._cache = list(np.random.uniform(size=self._cache_size))
 
 
-class DiscreteSampler():
+class DiscreteSampler(CachedScalarSampler):
 
     def __init__(self,
                  values: List[Any],
diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..6a5c4c8 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List, Callable, Mapping, Union, Optional
 
 import numpy as np
@@ -23,7 +23,11 @@ def run_chain(model: 'SklearnModel', X: np.ndarray, y: np.ndarray):
     """
     Run a single chain for a model
     Primarily used as a building block for constructing a parallel run of multiple chains
+
+    Chains may share the `SklearnModel` with each other, so each works on its own copy
     """
+    model = copy(model)
+    model.sampler = deepcopy(model.sampler)
     model.model = model._construct_model(X, y)
     return model.sampler.samples(model.model,
                                  model.n_samples,
-- 
2.43.0


From 67537de2c7aed56fd356d7e746c8497afe87eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 11/47] fix: leave the estimator as it was when a fit fails

---
 bartpy/sklearnmodel.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 6a5c4c8..dcaef71 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -141,9 +141,14 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         SklearnModel
             self with trained parameter values
         """
-        self.model = self._construct_model(X, y)
-        self.extract = Parallel(n_jobs=self.n_jobs)(self.f_delayed_chains(X, y))
-        self.combined_chains = self._combine_chains(self.extract)
+        fitted = copy(self)
+        fitted._construct_model(X, y)
+        extract = Parallel(n_jobs=self.n_jobs)(self.f_delayed_chains(X, y))
+        combined_chains = self._combine_chains(extract)
+
+        # Only keep the results once nothing can fail any more
+        self.data, self.sigma, self.model = fitted.data, fitted.sigma, fitted.model
+        self.extract, self.combined_chains = extract, combined_chains
         self._model_samples, self._prediction_samples = self.combined_chains["model"], self.combined_chains["in_sample_predictions"]
         self._acceptance_trace = self.combined_chains["acceptance"]
         return self
-- 
2.43.0


From e1a18c62c7a584d6682763741863e271c71e67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 12/47] fix: put the samples of an extract in the new model
 rather than the template

---
 bartpy/sklearnmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index dcaef71..f5d9a7f 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -369,7 +369,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From 403ff6d7d0b7315cf4d3eee4ffb4f7195cd25170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 13/47] fix: calculate residuals from the data the estimator
 was fit on

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index f5d9a7f..71688f0 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -256,7 +256,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             Error for each observation
         """
         if y is None:
-            return self.model.data.y.unnormalized_y - self.predict(X)
+            return self.data.y.unnormalized_y - self.predict(X)
         else:
             return y - self.predict(X)
 
-- 
2.43.0


From 535994d93b5c61432af3feeb3f4b84758aa231dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 14/47] fix: return the prediction samples instead of recursing
 forever

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 71688f0..1d2378f 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -347,7 +347,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From d7fa7c0d23069d6b2ebdc064b59c18e4214b1950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 15/47] fix: calculate null RMSEs on the held out rows

---
 bartpy/features/featureimportance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..f3bcee8 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -88,7 +88,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From 57123817fe4d0c083edc654ec0db606791c8afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:01 +0000
Subject: [PATCH 16/47] fix: keep the extract a model was made from, not that
 of the template

---
 bartpy/sklearnmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 1d2378f..a277a52 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -371,5 +371,6 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         combined_chain = self._combine_chains(extract)
         new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
         new_model._acceptance_trace = combined_chain["acceptance"]
+        new_model.extract, new_model.combined_chains = extract, combined_chain
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From b53e37f3e0dd900289ec5dfeec437d863c5271d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 17/47] fix: pass the training arrays to sklearn when
 initializing trees

---
 bartpy/initializers/sklearntreeinitializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From fde8e6c3893539efbbd3e49a03256f072583264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 18/47] fix: store the requested proportion of samples for any
 value of thin

---
 bartpy/samplers/modelsampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..a847444 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -47,10 +47,12 @@ class ModelSampler(Sampler):
         print("Starting sampling")
 
         thin_inverse = 1. / thin
+        n_stored = 0
 
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if ss >= int(round(n_stored * thin_inverse)):
+                n_stored += 1
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From 4bcd5b9bbdd7e1ec352878063adc7cc78c3ecd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 19/47] fix: normalize a constant target to zero instead of
 dividing by zero

---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9daa97e..09dd7b4 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_min == y_max:
+            return np.zeros(len(y))
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3660421044e8075546aa53c1e638a193ceec3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 20/47] fix: don't initialize trees with empty leaf nodes

---
 bartpy/initializers/sklearntreeinitializer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 80ef22a..91c19a5 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -78,6 +78,11 @@ def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
 
         left_child: LeafNode = decision_node.left_child
         right_child: LeafNode = decision_node.right_child
+
+        # sklearn rounds covariates to 32 bits, so its splits can be degenerate for the original values
+        if left_child.data.X.n_obsv == 0 or right_child.data.X.n_obsv == 0:
+            return
+
         left_child.set_value(sklearn_tree.value[left_child_index][0][0])
         right_child.set_value(sklearn_tree.value[right_child_index][0][0])
 
-- 
2.43.0


From e3bed20caabefdf209a555a94396ab8c7c65733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 21/47] fix: import LinearRegression from its public location

---
 bartpy/extensions/baseestimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..796f629 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
-- 
2.43.0


From 24145cadd7f59feeae7b69b6f96e483c63730647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 22/47] fix: predict the training rows of residual models from
 their covariates

---
 bartpy/extensions/baseestimator.py | 2 +-
 bartpy/extensions/ols.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 796f629..43e53a6 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -25,7 +25,7 @@ class ResidualBART(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..8428688 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -21,7 +21,7 @@ class OLS(SklearnModel):
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
-- 
2.43.0


From e5c41765b3c11cc2798c55bd028754da3a6014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 23/47] fix: keep the base model and the BART model of residual
 models in step

---
 bartpy/extensions/baseestimator.py | 10 +++++-----
 bartpy/extensions/ols.py           |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 43e53a6..5126ba1 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -11,16 +11,16 @@ class ResidualBART(SklearnModel):
                  base_estimator: RegressorMixin = None,
                  **kwargs):
 
-        if base_estimator is not None:
-            self.base_estimator = clone(base_estimator)
-        else:
+        if base_estimator is None:
             base_estimator = LinearRegression()
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
-        self.base_estimator.fit(X, y)
-        SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
+        base_estimator = clone(self.base_estimator)
+        base_estimator.fit(X, y)
+        SklearnModel.fit(self, X, y - base_estimator.predict(X))
+        self.base_estimator = base_estimator
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 8428688..503a00b 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -15,8 +15,9 @@ class OLS(SklearnModel):
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
-        self.stat_model_fit = self.stat_model(y, X).fit()
-        SklearnModel.fit(self, X, self.stat_model_fit.resid)
+        stat_model_fit = self.stat_model(y, X).fit()
+        SklearnModel.fit(self, X, stat_model_fit.resid)
+        self.stat_model_fit = stat_model_fit
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
-- 
2.43.0


From 7a0a59fe48193d8c9440a5dfab3dad393148a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 24/47] fix: calculate residuals of residual models against the
 original target

---
 bartpy/extensions/baseestimator.py | 5 +++++
 bartpy/extensions/ols.py           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 5126ba1..9869aea 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -29,3 +29,8 @@ class ResidualBART(SklearnModel):
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.base_estimator.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 503a00b..19651f3 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -26,3 +26,8 @@ class OLS(SklearnModel):
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        if y is None:
+            y = self.data.y.unnormalized_y + self.stat_model_fit.predict(self.data.X.values)
+        return SklearnModel.residuals(self, X, y)
-- 
2.43.0


From 9672159c41bdd1b1ba12d11cdb86e03a5d7bacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 25/47] fix: import SelectorMixin from its public location

---
 bartpy/features/featureselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..a01803c 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
-- 
2.43.0


From f0eeac51a2e7bd119415c276de280d5656b31d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 26/47] fix: oblivious trees only grow leaves that can be split

Growing an unsplittable leaf gave it two children that both held all of its rows,
so rows were counted in two leaves
---
 bartpy/samplers/oblivioustrees/proposer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..227e3ae 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,7 +13,7 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    return [GrowMutation(x, sample_split_node(x)) for x in tree.splittable_leaf_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
-- 
2.43.0


From 69a51af4b241e26b28c97d9d02510cb3bc79ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 27/47] fix: splits made by the tree initializer can be pruned

Their thresholds lie between two values of the covariate, which the proposal distribution gives
zero probability, so the acceptance ratio of pruning them was nan and they were kept forever
---
 bartpy/initializers/sklearntreeinitializer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 91c19a5..f2a8e75 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -41,22 +41,30 @@ class SklearnTreeInitializer(Initializer):
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
 
-def map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index: int) -> Tuple[SplitCondition, SplitCondition]:
+def map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index: int, node: LeafNode) -> Tuple[SplitCondition, SplitCondition]:
     """
     Convert how a split is stored in sklearn's gradient boosted trees library to the bartpy representation
 
+    sklearn splits half way between two values, bartpy only at values found in the node
+    Any other splitting value would have zero probability of being proposed, so could never be pruned
+
     Parameters
     ----------
     sklearn_tree: The full tree object
     index: The index of the node in the tree object
+    node: The bartpy node being split
 
     Returns
     -------
 
     """
+    variable, value = sklearn_tree.feature[index], sklearn_tree.threshold[index]
+    values_to_left = [x for x in node.data.X.get_column(variable) if x <= value]
+    if len(values_to_left) > 0:
+        value = max(values_to_left)
     return (
-        SplitCondition(sklearn_tree.feature[index], sklearn_tree.threshold[index], le),
-        SplitCondition(sklearn_tree.feature[index], sklearn_tree.threshold[index], gt)
+        SplitCondition(variable, value, le),
+        SplitCondition(variable, value, gt)
     )
 
 
@@ -73,7 +81,7 @@ def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
 
         searched_node: LeafNode = nodes[index]
 
-        split_conditions = map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index)
+        split_conditions = map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index, searched_node)
         decision_node = split_node(searched_node, split_conditions)
 
         left_child: LeafNode = decision_node.left_child
-- 
2.43.0


From edb032e90f28ce9fcc68bbd0443cf8082e611a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:55 +0000
Subject: [PATCH 28/47] fix: setting the tree_sampler parameter changes the
 sampler that is used

---
 bartpy/sklearnmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index a277a52..206ebfc 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -125,6 +125,13 @@ class SklearnModel(BaseEstimator, RegressorMixin):
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
+    def set_params(self, **params) -> 'SklearnModel':
+        super().set_params(**params)
+        if "tree_sampler" in params:
+            self.schedule = SampleSchedule(self.tree_sampler, LeafNodeSampler(), SigmaSampler())
+            self.sampler = ModelSampler(self.schedule)
+        return self
+
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
         Learn the model based on training data
-- 
2.43.0


From 50e273dd4d88575aa7f20ad347637c842dd4bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:55 +0000
Subject: [PATCH 29/47] fix: clones of the residual models keep the BART
 parameters

---
 bartpy/extensions/baseestimator.py | 4 ++++
 bartpy/extensions/ols.py           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 9869aea..b9bce37 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -16,6 +16,10 @@ class ResidualBART(SklearnModel):
         self.base_estimator = base_estimator
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         base_estimator = clone(self.base_estimator)
         base_estimator.fit(X, y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 19651f3..63862a2 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -14,6 +14,10 @@ class OLS(SklearnModel):
         self.stat_model_fit = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         stat_model_fit = self.stat_model(y, X).fit()
         SklearnModel.fit(self, X, stat_model_fit.resid)
-- 
2.43.0


From c0f2acf33a9f50f41b2359947f636376f0752d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 30/47] fix: split proportions are relative to the number of
 splits, roots are not splits

---
 bartpy/diagnostics/features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..343b771 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,10 +20,11 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
-        columns = sorted(list([x for x in counter.keys() if x is not None]))
+        columns = sorted(list(counter.keys()))
 
     proportions = {}
     for column in columns:
-- 
2.43.0


From 4faf44b6c7930f0806796dc7e8d6f9fdf667111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 31/47] fix: global thresholds can be calculated

---
 bartpy/diagnostics/features.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 343b771..ae265e9 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -154,10 +154,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    q_s = []
-    df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
-        q_s.append(np.max(row))
+    q_s = pd.DataFrame(null_distributions).max(axis=1)
     threshold = np.percentile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
-- 
2.43.0


From 16b6126e8c788bff0e74f72f069ce5822e434a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 32/47] fix: threshold percentiles are fractions, as documented

---
 bartpy/diagnostics/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index ae265e9..5d84776 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -127,7 +127,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.quantile(null_distributions[feature], percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -155,7 +155,7 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
         A lookup from column to % inclusion threshold
     """
     q_s = pd.DataFrame(null_distributions).max(axis=1)
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From 9dec308496f255053a878a74677e245e681d5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 33/47] fix: feature selection considers all columns, also ones
 without splits

---
 bartpy/features/featureselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index a01803c..5720bb1 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From c5c70e61f69f4ca4ba227f7a1b22bb469571a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 34/47] fix: split proportions are drawn on the axis passed in

---
 bartpy/diagnostics/features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 5d84776..65efe0b 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,11 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos, props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From 8d55651c9654115d9dab0e604a87cc37f92b3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 35/47] fix: residual diagnostics work with current versions of
 seaborn

---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From 84583b84c9fb1111619b3977815f16603f14d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 36/47] fix: plots of in sample predictions find the target

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From d0543262f13c68b4c3a914e44af662860dcc91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:13 +0000
Subject: [PATCH 37/47] fix: trees that are grown before their first prediction
 can be predicted from

---
 bartpy/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 1a08e03..e3f3d62 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,7 +85,7 @@ class Tree:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
+                self._prediction = np.zeros(len(self.nodes[0].data.mask))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
         return self._prediction
-- 
2.43.0


From 87fc0d2eef47f8b6c91e3ab559ed5f89ee17cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:01 +0000
Subject: [PATCH 38/47] fix: predicting from a model between two steps of a
 sweep does not disturb its sampling

---
 bartpy/samplers/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bartpy/samplers/schedule.py b/bartpy/samplers/schedule.py
index 7e08d1e..3cce11f 100644
--- a/bartpy/samplers/schedule.py
+++ b/bartpy/samplers/schedule.py
@@ -4,10 +4,12 @@ import numpy as np
 import pandas as pd
 
 from bartpy.model import Model
+from bartpy.node import LeafNode
 from bartpy.samplers.leafnode import LeafNodeSampler
 from bartpy.samplers.sampler import Sampler
 from bartpy.samplers.sigma import SigmaSampler
 from bartpy.samplers.treemutation import TreeMutationSampler
+from bartpy.tree import Tree
 
 
 class SampleSchedule:
@@ -51,5 +53,10 @@ class SampleSchedule:
             yield "Tree", lambda: self.tree_sampler.step(model, tree)
 
             for leaf_node in tree.leaf_nodes:
-                yield "Node", lambda: self.leaf_sampler.step(model, leaf_node)
+                yield "Node", lambda: self._sample_leaf(model, tree, leaf_node)
         yield "Node", lambda: self.sigma_sampler.step(model, model.sigma)
+
+    def _sample_leaf(self, model: Model, tree: Tree, leaf_node: LeafNode) -> float:
+        # The tree may have been predicted from since it was refreshed
+        tree.cache_up_to_date = False
+        return self.leaf_sampler.step(model, leaf_node)
-- 
2.43.0


From 282ad90f398b6813283a14954c0c23a80004983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:38 +0000
Subject: [PATCH 39/47] fix: feature importance accepts data frames

---
 bartpy/features/featureimportance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index f3bcee8..02a5967 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -6,6 +6,7 @@ import pandas as pd
 from matplotlib import pyplot as plt
 from sklearn.model_selection import KFold
 
+from bartpy.data import ensure_numpy_array
 from bartpy.runner import run_models
 from bartpy.sklearnmodel import SklearnModel
 
@@ -30,6 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From e585e673c2a16c52414ef93b0a39b936d35f3887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:19 +0000
Subject: [PATCH 40/47] fix: assigning the tree_sampler attribute changes the
 sampler that is used

---
 bartpy/sklearnmodel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 206ebfc..790802c 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -120,17 +120,18 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         self.columns = None
         self.tree_sampler = tree_sampler
         self.initializer = initializer
-        self.schedule = SampleSchedule(self.tree_sampler, LeafNodeSampler(), SigmaSampler())
-        self.sampler = ModelSampler(self.schedule)
 
         self.sigma, self.data, self.model, self._prediction_samples, self._model_samples, self.extract = [None] * 6
 
-    def set_params(self, **params) -> 'SklearnModel':
-        super().set_params(**params)
-        if "tree_sampler" in params:
-            self.schedule = SampleSchedule(self.tree_sampler, LeafNodeSampler(), SigmaSampler())
-            self.sampler = ModelSampler(self.schedule)
-        return self
+    @property
+    def tree_sampler(self) -> TreeMutationSampler:
+        return self._tree_sampler
+
+    @tree_sampler.setter
+    def tree_sampler(self, tree_sampler: TreeMutationSampler) -> None:
+        self._tree_sampler = tree_sampler
+        self.schedule = SampleSchedule(self.tree_sampler, LeafNodeSampler(), SigmaSampler())
+        self.sampler = ModelSampler(self.schedule)
 
     def fit(self, X: Union[np.ndarray, pd.DataFrame], y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From 4ded19274004252850e760b825b1ba657442517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 41/47] fix: data frames with columns of different kinds can be
 fitted

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index 09dd7b4..7baf000 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -28,7 +28,7 @@ def is_not_constant(series: np.ndarray) -> bool:
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-                first_value = series.data[i]
+                first_value = series[i]
             else:
                 return True
     return False
-- 
2.43.0


From bf053c23c33c8348d50d2b8a69787d0e1f67ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 42/47] fix: covariates from data frames with columns of
 different kinds are numbers

---
 bartpy/sklearnmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 790802c..44b5cca 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -6,7 +6,7 @@ import pandas as pd
 from joblib import Parallel, delayed
 from sklearn.base import RegressorMixin, BaseEstimator
 
-from bartpy.data import Data
+from bartpy.data import Data, ensure_float_array
 from bartpy.initializers.initializer import Initializer
 from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
 from bartpy.model import Model
@@ -175,6 +175,8 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         if type(X) == pd.DataFrame:
             X: pd.DataFrame = X
             X = X.values
+        if X.dtype == object:
+            X = ensure_float_array(X)
         return Data(deepcopy(X), deepcopy(y), normalize=True)
 
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
-- 
2.43.0


From f01c455a8f8f931e1880e9100f187a0b19c2e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 43/47] fix: feature importance pairs rows and targets by
 position also when the target is a series

---
 bartpy/features/featureimportance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 02a5967..39e56b1 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -31,7 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
-    X = ensure_numpy_array(X)
+    X, y = ensure_numpy_array(X), np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -78,7 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
-    X = ensure_numpy_array(X)
+    X, y = ensure_numpy_array(X), np.asarray(y)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
-- 
2.43.0


From 7ac413cc25c2c83ec3566e583858386e6a06bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 44/47] fix: feature selectors can be cloned and their
 parameters read and set

---
 bartpy/features/featureselection.py | 39 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 5720bb1..aebc8e1 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -10,19 +10,22 @@ from bartpy.diagnostics.features import null_feature_split_proportions_distribut
     plot_feature_split_proportions
 from bartpy.sklearnmodel import SklearnModel
 
+THRESHOLD_METHODS = {"local": local_thresholds, "global": global_thresholds}
+
 
 class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
 
     def __init__(self,
                  model: SklearnModel,
                  percentile: float=0.2):
-        self.model = deepcopy(model)
+        self.model = model
         self.percentile = percentile
 
     def fit(self, X, y):
-        self.model.fit(X, y)
-        self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
+        model = deepcopy(self.model)
+        model.fit(X, y)
+        self.feature_proportions = feature_split_proportions(model, list(range(X.shape[1])))
+        self.model, self.X, self.y = model, X, y
         return self
 
     def _get_support_mask(self):
@@ -41,24 +44,24 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
                  method="local",
                  n_permutations=10,
                  n_trees=None):
-        if method == "local":
-            self.method = local_thresholds
-        elif method == "global":
-            self.method = global_thresholds
-        else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
-        self.model = deepcopy(model)
-        if n_trees is not None:
-            self.model.n_trees = n_trees
+        if method not in THRESHOLD_METHODS:
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
+        self.model = model
         self.percentile = percentile
+        self.method = method
         self.n_permutations = n_permutations
+        self.n_trees = n_trees
 
     def fit(self, X, y):
-        self.model.fit(X, y)
-        self.X, self.y = X, y
-        self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
-        self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
+        model = deepcopy(self.model)
+        if self.n_trees is not None:
+            model.n_trees = self.n_trees
+        model.fit(X, y)
+        null_distribution = null_feature_split_proportions_distribution(model, X, y, self.n_permutations)
+        thresholds = THRESHOLD_METHODS[self.method](null_distribution, self.percentile)
+        self.feature_proportions = feature_split_proportions(model, list(range(X.shape[1])))
+        self.null_distribution, self.thresholds = null_distribution, thresholds
+        self.model, self.X, self.y = model, X, y
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 612e21b7c61337eac866bb688b6dcb408c532772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:05 +0000
Subject: [PATCH 45/47] fix: having no oblivious move to make is not an
 accepted move

---
 bartpy/samplers/oblivioustrees/treemutation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..4ce78b4 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -39,6 +39,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
+        if len(proposals) == 0:  # There is nothing to split, or nothing to prune
+            return None
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
-- 
2.43.0


From 30cad03189425dd4c8098e13882f174e543d926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 46/47] fix: targets of narrow types overflowed when they were
 normalized, and truth values could not be fitted

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 44b5cca..8f9294b 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -177,7 +177,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             X = X.values
         if X.dtype == object:
             X = ensure_float_array(X)
-        return Data(deepcopy(X), deepcopy(y), normalize=True)
+        return Data(deepcopy(X), ensure_float_array(deepcopy(y)), normalize=True)
 
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
-- 
2.43.0


From 6d5afb8115a4988834092e6f0a2f52b9513c72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 47/47] fix: predicting without data gave nan when storing was
 switched on after the fit

---
 bartpy/sklearnmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 8f9294b..88f2ec1 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -241,11 +241,11 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             predictions for the X covariates
         """
-        if X is None and self.store_in_sample_predictions:
+        if X is None and self.store_in_sample_predictions and len(self._prediction_samples) > 0:
             return self.data.y.unnormalize_y(np.mean(self._prediction_samples, axis=0))
-        elif X is None and not self.store_in_sample_predictions:
+        elif X is None:
             raise ValueError(
-                "In sample predictions only possible if model.store_in_sample_predictions is `True`.  Either set the parameter to True or pass a non-None X parameter")
+                "In sample predictions only possible if model.store_in_sample_predictions is `True` when the model is fit.  Either set the parameter to True or pass a non-None X parameter")
         else:
             return self._out_of_sample_predict(X)
 
-- 
2.43.0

