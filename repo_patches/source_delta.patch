From 3068c3854e0560395b88513d6ee2f8ea0b90959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 01/16] fix: rule_1 subtracts an edge between two removed
 vertices only once

---
 medil/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..4cb8f78 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -214,11 +214,11 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                     tiled, self.common_neighbors[idx_nbrhoods_to_update]
                 ).sum(1)
                 self.nbrhood_edge_counts[idx_nbrhoods_to_update] -= to_subtract
-                # my own addition:
-                # self.nbrhood[:, vert] = 0
 
-            # remove isolated_verts from common neighborhoods
-            self.common_neighbors[:, isolated_verts] = 0
+                # remove vert from common neighborhoods right away, so
+                # that edges between two removed verts are only
+                # subtracted once
+                self.common_neighbors[:, vert] = 0
 
         # max_num_edges = self.n_choose_2(self.unreduced.max_num_verts)
         # mask = lambda edge_idx: np.array(self.common_neighbors[edge_idx], dtype=bool)
-- 
2.43.0


From 734e059be8e99a2ba497cce4bdc3c86abdabb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 02/16] fix: rule_3 deletes only vertices whose edges a
 solution can reconstruct

---
 medil/ecc_algorithms.py |  5 ++--
 medil/graph.py          | 62 +++++++++++++++++++++++++++--------------
 2 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..e6a0409 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -116,9 +116,8 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
-            branch_graph.the_cover
-        )  # not in paper, but speeds it up slightly; or rather return None?
+        # not in paper, but speeds it up slightly
+        return branch_graph.reconstruct_cover(branch_graph.the_cover)
 
     chosen_nbrhood = branch_graph.choose_nbrhood()
     # print("num cliques: {}".format(len([x for x in max_cliques(chosen_nbrhood)])))
diff --git a/medil/graph.py b/medil/graph.py
index 4cb8f78..dc37f11 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -162,7 +162,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.get_edge = udg.get_edge
 
         if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+            self.reduced_away = udg.reduced_away.copy()
+            self.reduction_log = udg.reduction_log.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -273,21 +274,35 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
-            if nbrhood[vert] == 0:  # then nbrhood is empty
-                continue
-            exits = np.zeros(self.unreduced.max_num_verts, bool)
-            nbrs = np.flatnonzero(nbrhood)
-            for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
-                    exits[nbr] = True
+        # neighborhoods are those of the original graph, restricted to
+        # the vertices that haven't been removed (so covered edges still
+        # count); only uncovered edges need to be dominated
+        alive = np.diag(self.adj_matrix).astype(bool)
+        extant = np.logical_and(self.unreduced.adj_matrix, np.outer(alive, alive))
+        uncovered = self.adj_matrix.astype(bool)
+        np.fill_diagonal(uncovered, False)
+
+        for vert in np.flatnonzero(alive):
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            exits = np.zeros(self.unreduced.max_num_verts, bool)
+            for nbr in np.flatnonzero(extant[vert]):
+                exits[nbr] = np.logical_and(extant[nbr], ~extant[vert]).any()
+            prisoners = np.logical_and(~exits, extant[vert])
             prisoners[vert] = False  # a vert isn't its own prisoner
 
+            # check that there are prisoners, each of which has an
+            # uncovered edge to some vertex other than vert
+            if not prisoners.any():
+                continue
+            prisoner_edges = uncovered[prisoners]
+            prisoner_edges[:, vert] = False
+            if not prisoner_edges.any(1).all():
+                continue
+
             # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
+            exits = np.logical_and(exits, uncovered[vert])
+            prisoners_dominate_exits = prisoner_edges[:, exits].any(0)
             if prisoners_dominate_exits.all():  # apply the rule
                 self.reducing = True
                 if self.verbose:
@@ -295,19 +310,20 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
                 # mark edges covered so rule_1 will delete vertex
                 edges = np.array(
-                    [
-                        [vert, u]
-                        for u in np.flatnonzero(self.adj_matrix[vert])
-                        if vert != u
-                    ]
+                    [[vert, u] for u in np.flatnonzero(uncovered[vert])]
                 )
                 edges.sort()  # so they're in triu, so that self.get_idx works
                 self.cover_edges(edges)
 
-                # keep track of deleted nodes and their prisoners for reconstructing solution
+                # keep track of deleted nodes and their prisoners (and
+                # the number of cliques chosen before the deletion) for
+                # reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reduction_log = []
                 self.reduced_away[vert] = prisoners
+                num_cliques = 0 if self.the_cover is None else len(self.the_cover)
+                self.reduction_log.append((vert, num_cliques))
                 break
 
     def choose_nbrhood(self):
@@ -321,7 +337,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        # covered edges still belong to the cliques of the nbrhood
+        chosen_nbrhood = self.unreduced.adj_matrix.copy()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
@@ -381,9 +398,11 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
+        # add the reduced away vert to all covering cliques containing at
+        # least one of its prisoners, starting with the vert that was
+        # reduced away last; cliques that were chosen before the vert was
+        # reduced away are already complete
+        for vert, num_cliques in reversed(self.reduction_log):
             prisoners = self.reduced_away[vert]
             tiled_prisoners = np.tile(
                 prisoners, (len(the_cover), 1)
@@ -391,6 +410,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
             cliques_to_update_mask = (
                 np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
             )
+            cliques_to_update_mask[:num_cliques] = False
             the_cover[cliques_to_update_mask, vert] = 1
 
         return the_cover
-- 
2.43.0


From 7c7915311754a0cf59abf04cffacf1a16e7803bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 03/16] fix: branch completes the cover when it reaches the
 iteration limit

---
 medil/ecc_algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index e6a0409..03cc4bb 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -134,7 +134,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
         # print(iteration)
         if iteration > iteration_max:
-            return branch_graph.the_cover
+            # don't give up on the cover, only on its minimality: every
+            # further clique covers at least one more edge
+            k_num_cliques = branch_graph.num_edges + 1
 
         the_cover_prime = branch(
             branch_graph,
-- 
2.43.0


From 42db654eae3d82e989e2b9ea2b509c954b21e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/16] fix: find_heuristic_1pc collects uncovered edges as
 hashable tuples

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 03cc4bb..3841e8e 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -247,7 +247,7 @@ def find_heuristic_1pc(graph):
 
     uncovered_edges = deque(
         {
-            edge
+            tuple(edge)
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
-- 
2.43.0


From 19bfa435d44e6ed02d4b48e1ca8dd28bd83b7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/16] fix: dcov sums over all entries of the doubly centered
 distance matrices

---
 medil/independence_testing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..b81799f 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -25,8 +25,7 @@ def dcov(samples):
         :math:`R_j`.
     """
     num_samps, num_feats = samples.shape
-    num_pairs = num_samps * (num_samps - 1) // 2
-    dists = np.zeros((num_feats, num_pairs))
+    dists = np.zeros((num_feats, num_samps**2))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,8 +36,7 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
-        d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
-        dists[feat_idx] = d
+        dists[feat_idx] = d.ravel()
         d_bars[feat_idx] = d_bar
     return dists @ dists.T / num_samps**2, d_bars
 
-- 
2.43.0


From 6a4a429393cb35937072a52ab6f4dc5e12f7df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/16] fix: GaussianMCM._estimate_udg uses squared
 correlations

---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..9a16aaa 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # should never be <= 0?
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From 485c7bbc1be9e09f654e10d3c87492be6741760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 07/16] fix: mcm passes its rng on to biadj

---
 medil/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..c27c8c4 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,7 +14,7 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
-- 
2.43.0


From dcd754acc28ed8da0c1e113d21c08945ff03cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 08/16] fix: mcm uses 0/1 biadj as mask, not as indices

---
 medil/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/medil/sample.py b/medil/sample.py
index c27c8c4..6266caf 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -19,11 +19,12 @@ def mcm(
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
 
-        num_edges = biadj.sum()
+        support = biadj.astype(bool)
+        num_edges = support.sum()
         weights = (rng.random(num_edges) * 1.5) + 0.5
         weights[rng.choice((True, False), num_edges)] *= -1
         params.biadj_weights = np.zeros_like(biadj, float)
-        params.biadj_weights[biadj] = weights
+        params.biadj_weights[support] = weights
 
         num_meas = biadj.shape[1]
         params.error_means = rng.random(num_meas) * 2
-- 
2.43.0


From a9e6aa65275f545f50705b068fe86cf967d3afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 09/16] fix: GaussianMCM.fit uses 0/1 biadj as mask, not as
 indices

---
 medil/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 9a16aaa..3f0a36c 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -84,7 +84,8 @@ class GaussianMCM(MedilCausalModel):
 
         cov = np.cov(self.dataset, rowvar=False)
 
-        num_weights = self.biadj.sum()
+        support = self.biadj.astype(bool)
+        num_weights = support.sum()
         num_err_vars = self.biadj.shape[1]
 
         def _objective(weights_and_err_vars):
@@ -92,7 +93,7 @@ class GaussianMCM(MedilCausalModel):
             err_vars = weights_and_err_vars[num_weights:]
 
             biadj_weights = np.zeros_like(self.biadj, float)
-            biadj_weights[self.biadj] = weights
+            biadj_weights[support] = weights
 
             return (
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
@@ -105,7 +106,7 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_variances = result.x[num_weights:]
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[support] = result.x[:num_weights]
 
         return self
 
-- 
2.43.0


From bf73b7693acdc7d062dfaf138abd3c1be5d342b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 10/16] fix: min_perm distances don't truncate true_W to the
 dtype of predicted_W

---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..ab37ac4 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros(predicted_W.shape)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros(predicted_W.shape)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From 3dfc90bbdacb20994224ae35fc36fc6f17abfa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 11/16] fix: NCFA writes training.log inside its path

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 3f0a36c..7b311b9 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -180,7 +180,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From 5c15f319439c68ff0d118eb6c5a11522ef4ea5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 12/16] fix: NCFA trains every epoch in training mode

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 7b311b9..6084985 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -273,12 +273,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()  # validation switches to evaluation mode
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From 8c98ff3f3f4ecfca35f601c36d09602b79bc59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 13/16] fix: Decoder registers its hidden layers

---
 medil/vae.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..96a6836 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
-- 
2.43.0


From e2d54090ab235bf5186dfd224089cab2b3d078c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 14/16] fix: penalized LSE optimizes the error variances it
 stores

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 6084985..86c869a 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -555,7 +555,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From 1f1300b8350dbd3c8631fbd98c9cc1e3b146e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 15/16] fix: DevMedil stores the fitted parameters that sample
 reads

---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index 86c869a..98f154b 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -519,6 +519,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -573,6 +574,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From e9720addbe5c29d46169a81db85dd05531eee450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 16/16] fix: visualize defines the names that show_obs_adj_mat
 and show_pairwise_plot use

---
 medil/visualize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..75e9a09 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -3,13 +3,16 @@ import numpy as np
 import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
+import pandas as pd
+
+from .evaluate import recover_ug
 
 
 def show_obs_adj_mat(incidence_mat):
 
     fig, ax = plt.subplots()
 
-    adj_mat = get_adj_from_incidence(incidence_mat)
+    adj_mat = recover_ug(incidence_mat.astype(bool))
     plt.imshow(adj_mat)
 
     dim = adj_mat.shape[0]
-- 
2.43.0

