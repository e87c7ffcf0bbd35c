From eedc3b74bdcdffa3255832bc8a49101d8157d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 01/59] fix: replacing a graph state that has a self-loop

---
 beer/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..b11c137 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -139,8 +139,14 @@ class Graph:
         new_arcs = []
         for arc in self.arcs(old_state_id):
             to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
+            # A self-loop goes from the end to the start of the new graph.
+            end = arc.end
+            if end == old_state_id:
+                end = new_states[graph.start_state]
+            new_arcs.append((new_states[graph.end_state], end, arc.weight))
         for arc in self.arcs(old_state_id, incoming=True):
+            if arc.start == old_state_id:
+                continue
             to_delete.append(arc)
             new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
 
-- 
2.43.0


From be7ce0221d391bbb1a30fdc01d6d15460baab653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 02/59] fix: keep start/end state valid when it is replaced by
 a graph

---
 beer/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beer/graph.py b/beer/graph.py
index b11c137..179ebe5 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -158,6 +158,10 @@ class Graph:
         for arc in to_delete:
             self._arcs.remove(arc)
         del self._states[old_state_id]
+        if self.start_state == old_state_id:
+            self.start_state = new_states[graph.start_state]
+        if self.end_state == old_state_id:
+            self.end_state = new_states[graph.end_state]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
         to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-- 
2.43.0


From 90c101965c425a7533461ddab8b138728d7381d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 03/59] fix: compile graphs with non-emitting states shared by
 several paths

---
 beer/graph.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index 179ebe5..32cdbb8 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -164,33 +164,35 @@ class Graph:
             self.end_state = new_states[graph.end_state]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        # Each entry keeps the states of its own path: a non-emitting state
+        # can be shared by several paths but no path goes through it twice.
+        path = frozenset([start_state])
+        to_explore = [(arc, init_weight, path)
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, path = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
-                yield arc.end, weight * arc.weight
-            else:
-                if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                yield arc.end, weight
+            elif arc.end not in path:
+                to_explore += [(next_arc, weight, path | {arc.end})
+                               for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        path = frozenset([start_state])
+        to_explore = [(arc, init_weight, path)
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, path = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
-                yield arc.start, weight * arc.weight
-            else:
-                if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                yield arc.start, weight
+            elif arc.start not in path:
+                to_explore += [(next_arc, weight, path | {arc.start})
+                               for next_arc in self.arcs(arc.start,
+                                                         incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 79af1cf7b198771cc2d9cf413121efbc6920e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 04/59] fix: best-path training on utterances shorter than the
 number of states

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..12e326e 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[range(len(path)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From 8d12261d2958df21be13c3460d114400f9993fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 05/59] fix: full covariance densities with current torch
 linear algebra

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 beer/utils.py               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..d498d93 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From 48874684a374223f6177ef06ae850d845223dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 06/59] fix: filter bank features with current numpy

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From b1351b3ef07b0ef076c065c832c0ae1cb4d33ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 07/59] fix: component posteriors of a mixture

---
 beer/models/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..3133f77 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,8 +108,9 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf)[None]
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
-        per_component_exp_llh += log_weights
+        per_component_exp_llh = per_component_exp_llh + log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From c7a241f51da5f92e90827387ea1ab9d054d4c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 08/59] fix: Gamma model likelihood and rate statistics

---
 beer/models/gamma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..e2fb465 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,7 +67,7 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
@@ -77,12 +77,12 @@ class Gamma(Model):
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
         new_stats = torch.cat([
-            -stats[:, :dim],
+            stats[:, :dim],
             torch.ones_like(stats[:, :dim]) * self.shape
         ], dim=-1)
         return {self.rate: new_stats.sum(dim=0)}
-- 
2.43.0


From 309221ab06d53972acbe704edd0ae5fc57ad1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 09/59] fix: length of a Gamma density

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From a40daf8146c64fa928bf64ca54345ae76640505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 10/59] fix: warn about missing utterances when decoding and
 accumulating

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From ffcd712bed5f2028c85b4bdc2cba6dfaa86540f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 11/59] fix: loading the alignment graphs when decoding

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From 89e013d40de37e31b31062e12dd97fc283e8b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 12/59] fix: unit posteriors include the last state of the unit

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From a88a47ddbe5c9e666f009089cfc6fddfafb396a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 13/59] fix: acoustic scale of the HMM posteriors

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 12e326e..73ee043 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From b78b59810c5579af4990278314b3e0b9b117368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 14/59] fix: training a bigram phone-loop with alignment graphs

---
 beer/models/phoneloop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..6aef69d 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -187,5 +187,5 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(self.categoricalset.accumulate_from_jointresps(fake_stats[None, :]))
         return retval
-- 
2.43.0


From 26f50a1c244d954da487508f048c908e07785253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 15/59] fix: bigram weights of the phone-loop indexed by the
 left unit

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 6aef69d..d92c675 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -148,7 +148,7 @@ class BigramPhoneLoop(HMM):
                       'requires_grad': False}
         data = torch.eye(len(self.start_pdf), **tensorconf)
         stats = self.categoricalset.sufficient_statistics(data)
-        log_weights = self.categoricalset.expected_log_likelihood(stats)
+        log_weights = self.categoricalset.expected_log_likelihood(stats).t()
         start_idxs = [value for value in self.start_pdf.values()]
         for i, end_idx in enumerate(self.end_pdf.values()):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
-- 
2.43.0


From a8fe09da96501e12c69f6ab95225e36d5c215ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 16/59] fix: default prior of mkphoneloopbigram

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..435b21a 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From e2d488fe95ce9d4d6856420cbebd785e87223011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:40 +0000
Subject: [PATCH 17/59] fix: stale transition statistics when training with
 alignment graphs

---
 beer/models/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 73ee043..84546ff 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,7 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From de99cdcfccf45750c77f3e3836166155e5f2938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 18/59] fix: accumulating an empty list of utterances

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..7be64e5 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,7 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / max(1, count * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From ed885a6e1b2082c55654357ab89d4e36f8f02f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 19/59] fix: single machine training of HMM based models

---
 beer/cli/subcommands/hmm/train.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..188e443 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,25 +31,35 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
+
+    nutts = len(dataset)
+    batch_size = args.batch_size if args.batch_size > 0 else nutts
+    nbatches = -(-nutts // batch_size)
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
+        count = 0
         optim.init_step()
         for i, utt in enumerate(dataset.utterances(), start=1):
             logger.debug(f'processing utterance: {utt.id}')
             elbo += beer.evidence_lower_bound(model, utt.features,
                                               datasize=dataset.size)
+            count += 1
 
-            # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            # Update the model after N utterances or at the end of the
+            # epoch.
+            if count == batch_size or i == nutts:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(-(-i // batch_size)) + "/" + str(nbatches):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (count * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
+                count = 0
                 optim.init_step()
 
     logger.debug('save the model on disk...')
-- 
2.43.0


From becfb548440b04c09ebb2512fe0ceff803fb580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 20/59] fix: statistics of features stored with a narrow type

---
 beer/cli/subcommands/dataset/create.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/dataset/create.py b/beer/cli/subcommands/dataset/create.py
index e1121f7..7ccbe2b 100644
--- a/beer/cli/subcommands/dataset/create.py
+++ b/beer/cli/subcommands/dataset/create.py
@@ -27,9 +27,10 @@ def accumulate(feature_file):
     tot_square_sum = np.zeros(dim)
     tot_counts = 0
     for k in keys:
-        nframes_per_utt = len(feats[k])
-        per_square_sum = (feats[k] ** 2).sum(axis=0)
-        tot_sum += feats[k].sum(axis=0)
+        utt_feats = feats[k].astype(np.float64)
+        nframes_per_utt = len(utt_feats)
+        per_square_sum = (utt_feats ** 2).sum(axis=0)
+        tot_sum += utt_feats.sum(axis=0)
         tot_square_sum += per_square_sum
         tot_counts += nframes_per_utt
     mean = tot_sum / tot_counts
-- 
2.43.0


From e4158009e86b30a2f21e635d66e4e412cb0842f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 21/59] fix: indexing and slicing of concatenated and repeated
 model sets

---
 beer/models/modelset.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/beer/models/modelset.py b/beer/models/modelset.py
index 355ce18..67e155b 100644
--- a/beer/models/modelset.py
+++ b/beer/models/modelset.py
@@ -90,9 +90,11 @@ class JointModelSet(ModelSet):
 
     def __getitem__(self, key):
         '''Args:
-        key (int): state index.
+        key (int or slice): state index or contiguous range of states.
 
         '''
+        if isinstance(key, slice):
+            return self._getslice(*key.indices(len(self)))
         if key < 0:
             raise ValueError("Unsupported negative index")
         total_length = 0
@@ -102,6 +104,20 @@ class JointModelSet(ModelSet):
             total_length += len(modelset)
         raise IndexError('index out of range')
 
+    def _getslice(self, start, stop, step):
+        if step != 1 or start >= stop:
+            raise IndexError('only non-empty contiguous slices are supported')
+        modelsets, total_length = [], 0
+        for modelset in self.modelsets:
+            first = max(start - total_length, 0)
+            last = min(stop - total_length, len(modelset))
+            if first < last:
+                modelsets.append(modelset[first:last])
+            total_length += len(modelset)
+        if len(modelsets) == 1:
+            return modelsets[0]
+        return self.__class__(modelsets)
+
     def __len__(self):
         length = 0
         for model in self.modelsets:
@@ -205,7 +221,16 @@ class RepeatedModelSet(ModelSet):
     ####################################################################
 
     def __getitem__(self, key):
-        return self.modelset[key % len(self.modelset)]
+        size = len(self.modelset)
+        if isinstance(key, slice):
+            start, stop, step = key.indices(len(self))
+            if step != 1 or start >= stop or start // size != (stop - 1) // size:
+                raise IndexError('only non-empty contiguous slices within one '
+                                 'repetition are supported')
+            return self.modelset[start % size: (stop - 1) % size + 1]
+        if not -len(self) <= key < len(self):
+            raise IndexError('index out of range')
+        return self.modelset[key % size]
 
     def __len__(self):
         return len(self.modelset) * self.repeat
-- 
2.43.0


From 5b2e01461995aaa84c24f444209ab33a2c1ac19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 22/59] fix: slices and precision of mixture sets

---
 beer/models/mixtureset.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..5da7440 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -46,7 +46,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype,
+                             device=device) / ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
@@ -120,13 +121,16 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            if not -len(self) <= key < len(self):
+                raise IndexError('index out of range')
+            key = key % len(self)
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError('only contiguous slices are supported')
+            new_s = slice(start * ncpm, stop * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From d01341b8b10d2bb6fff4fa1734ba1bad4b15e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 23/59] fix: subspace parameterization of the isotropic
 covariance Normal

---
 beer/dists/isonormalgamma.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..e0105a1 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, dim:dim + 1]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
@@ -47,11 +47,12 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
-        mean = pdfvec[:, :-3] / precision
+        dim = pdfvec.shape[-1] - 3
+        precision = pdfvec[:, dim:dim + 1]
+        mean = pdfvec[:, :dim] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean.view(-1, dim), precision.view(-1, 1)
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 64f53ca602a5f623d8bb333b80181f7a9ee30f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 24/59] fix: views of subspace parameters had no natural form
 and lost their offset

---
 beer/models/gsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..5f4fcd2 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,13 +397,13 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From 335c2b55488d628ae772cac21105d61f0ce14402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 25/59] fix: saved subspace models could not be updated again

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 5f4fcd2..858faa6 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -446,7 +446,7 @@ def _update_params(params, pdfvecs):
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
+        param.pdfvec = pdfvecs[idx: idx + totdim].detach().reshape(shape)
         idx += totdim
 
 # Update the models given a set of pdf-vectors.
-- 
2.43.0


From 6440a1fc9265593a5b27be02a0f37950f1e8fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 26/59] fix: models sharing a subspace had indistinguishable
 parameters

---
 beer/models/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 858faa6..80a716e 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -1,6 +1,7 @@
 'Bayesian Generalized Subspace Model.'
 
 import copy
+import uuid
 from dataclasses import dataclass
 import math
 from operator import mul
@@ -542,6 +543,9 @@ class GSM(Model):
             for param in params:
                 param.posterior = latent_posteriors
                 param.pdfvecs = torch.zeros_like(param.stats)
+            # The copies are distinct parameters.
+            for param in model.bayesian_parameters():
+                param.uuid = uuid.uuid4()
 
         # Initialize the newly created models.
         samples = latent_posteriors.sample(latent_nsamples)
-- 
2.43.0


From 91085461d5f9bd4ac2c7a179adff0cc3592bc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 27/59] fix: subspace models of single-component mixtures
 raised on the empty slice of their weights

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 80a716e..4c443cc 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -434,7 +434,7 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim].reshape(len(rvecs) * npdfs, dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From 9d2ae63c71b586dcbe16c0c2d7dd8f9afd7d4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 28/59] fix: mksphoneloop --posteriors overwrote the given
 posteriors and did not use them

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..aefa9ab 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,8 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
-                init_posts = pickle.load(f)[0]
+            with open(args.posteriors, 'rb') as f:
+                latent_posts = pickle.load(f)[0]
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 402b163edcf90bdeade4fcc66cb90f2aa34783ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 29/59] fix: autoregressive networks of one-dimensional data
 could not be created

---
 beer/nnet/arnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..300d18b 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,8 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)),
+                                                k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From dd2069602729d7d565ddbb7a9523fd7ac6cd231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 30/59] fix: filter banks ignored the sampling rate of the
 signal

---
 beer/cli/subcommands/features/extract.py | 1 +
 beer/features.py                         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
diff --git a/beer/features.py b/beer/features.py
index 27524fc..d290fa7 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -63,7 +63,7 @@ def create_fbank(nfilters, fft_len=512, srate=16000, lowfreq=0, highfreq=None,
         (numpy.ndarray): The filters organized as a matrix.
 
     '''
-    highfreq = highfreq or srate / 2
+    highfreq = min(highfreq or srate / 2, srate / 2)
     low = hz2scale(lowfreq)
     high = hz2scale(highfreq)
     centers = np.linspace(low, high, nfilters + 2)
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 97c3bf935f35d50fb01e24ce881f0b6568fce359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 31/59] fix: frame lengths lost one sample to floating point
 truncation

---
 beer/features.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/features.py b/beer/features.py
index d290fa7..29dd060 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -119,8 +119,8 @@ def short_term_mspec(signal, flen=0.025, frate=0.01, preemph=0.97,
     signal = signal - signal.mean()
 
     # Convert the frame rate/length from second to number of samples.
-    frate_samp = int(srate * frate)
-    flen_samp = int(srate * flen)
+    frate_samp = int(round(srate * frate, 6))
+    flen_samp = int(round(srate * flen, 6))
 
     # Compute the number of frames.
     nframes = (len(signal) - flen_samp) // frate_samp + 1
@@ -173,8 +173,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
 
     '''
     # Convert the frame rate/length from second to number of samples.
-    frate_samp = int(srate * frate)
-    flen_samp = int(srate * flen)
+    frate_samp = int(round(srate * frate, 6))
+    flen_samp = int(round(srate * flen, 6))
 
     # Compute the number of frames.
     nframes = (len(signal) - flen_samp) // frate_samp + 1
-- 
2.43.0


From f4b8a859350cda7da02d4f5220824c2d0230f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 32/59] fix: score boundaries of references without any
 boundary

---
 recipes/aud/utils/score_boundaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..570de4e 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,8 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0


From 432a1a32bc2ed13f2e271860794ed60ebb1ab737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 33/59] fix: distinct units without mapping stay distinct when
 scoring boundaries

---
 recipes/aud/utils/score_boundaries.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index 570de4e..ae91b86 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -57,13 +57,11 @@ def load_mapping(path):
 
 def map_trans(trans, mapfile):
     new_trans = {}
-    oov_i = 1
     for utt, utt_trans in trans.items():
         tmp = []
         for token in utt_trans:
             if token not in mapfile:
-                mapfile[token] = '<oov_' + str(oov_i) +'>'
-                oov_i += 1
+                mapfile[token] = '<oov_' + token + '>'
             new_token = mapfile[token]
             tmp.append(new_token)
         new_trans[utt] = tmp
-- 
2.43.0


From f8ea93cd3a27096eaba78295d998d725dfc8edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 34/59] fix: load the counts of the NMI with any version of
 yaml

---
 recipes/aud/utils/nmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/utils/nmi.py b/recipes/aud/utils/nmi.py
index a36237b..35db46e 100755
--- a/recipes/aud/utils/nmi.py
+++ b/recipes/aud/utils/nmi.py
@@ -13,7 +13,7 @@ def main():
     args = parser.parse_args()
 
     with open(args.counts, 'r') as f:
-        au2phone = yaml.load(f)
+        au2phone = yaml.safe_load(f)
 
     # Extract the list of acoustic units / phones.
     au_set = set()
-- 
2.43.0


From 96470868aab99f42becb74e9da8cf1cf763b76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 35/59] fix: utterance id equal to the first unit when merging
 alignments

---
 recipes/aud/utils/ali2trans.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/utils/ali2trans.py b/recipes/aud/utils/ali2trans.py
index a03045e..363a20c 100644
--- a/recipes/aud/utils/ali2trans.py
+++ b/recipes/aud/utils/ali2trans.py
@@ -12,8 +12,9 @@ def run():
 
     with open(args.ali, 'r') as f:
         for line in f:
-            seq = [x[0] for x in groupby(line.strip().split())]
-            print(' '.join(seq), file=sys.stdout)
+            tokens = line.strip().split()
+            seq = [x[0] for x in groupby(tokens[1:])]
+            print(' '.join(tokens[:1] + seq), file=sys.stdout)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 731cda9231e87948c1316f3115bfae178c198a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 36/59] fix: a failing parallel job stops the recipe

---
 recipes/aud/utils/parallel/submit_parallel.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recipes/aud/utils/parallel/submit_parallel.sh b/recipes/aud/utils/parallel/submit_parallel.sh
index 4987ea8..4334c11 100755
--- a/recipes/aud/utils/parallel/submit_parallel.sh
+++ b/recipes/aud/utils/parallel/submit_parallel.sh
@@ -24,6 +24,7 @@ utils/parallel/split.sh $list $njobs $outdir/split
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
     $outdir/log 2>&1 > $outdir/log/parallel.log
+status=$?
 
 # Check if something went wrong.
 nerrors=$(cat $outdir/log/* | grep ERROR | wc -l)
@@ -33,3 +34,6 @@ if [ ! "$nwarnings" = "0" ] || [ ! "$nerrors" = "0" ]; then
          "errors (see $outdir/log/*) <!>"
 fi
 
+# A failing job fails the whole submission.
+exit $status
+
-- 
2.43.0


From 7ffe8834e56d5b185c76590fb2daf861bb3c4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 37/59] fix: forget the lists of a previous submission with
 another number of jobs

---
 recipes/aud/utils/parallel/split.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/aud/utils/parallel/split.sh b/recipes/aud/utils/parallel/split.sh
index ded7940..f58be68 100755
--- a/recipes/aud/utils/parallel/split.sh
+++ b/recipes/aud/utils/parallel/split.sh
@@ -14,6 +14,9 @@ split_dir=$3
 mkdir -p $split_dir
 
 
+# Forget the lists of a previous submission.
+rm -f $split_dir/x*
+
 nsuff=${#n_split}
 cp $list $split_dir/list
 pushd $split_dir > /dev/null
-- 
2.43.0


From 65816b531e8d5d77101f92f23a162bcc73001b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 38/59] fix: training does not combine statistics of an
 interrupted run

---
 recipes/aud/steps/aud.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index f8a8aff..4910071 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -108,6 +108,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run are not part of this one.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer -s $seed  hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
-- 
2.43.0


From 205537f450d0dc8f93be368253f3a52f3b7f0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 39/59] fix: a failing update stops the training

---
 recipes/aud/steps/aud.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index 4910071..8417ac1 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# The status of a command is not hidden by the logging.
+set -o pipefail
+
 acoustic_scale=1.
 seed=1
 prior=gamma_dirichlet_process
-- 
2.43.0


From 22add1735adbde130322dbc96acf5954ab5f2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 40/59] fix: training interrupted while writing a model

---
 recipes/aud/steps/aud.sh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index 8417ac1..fb9168b 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -76,7 +76,8 @@ mkdir -p $outdir
 # Create the units' HMM.
 if [ ! -f $outdir/hmms.mdl ]; then
     beer -s $seed hmm mkphones -d $dataset $modelconf $langdir/units \
-        $outdir/hmms.mdl || exit 1
+        $outdir/hmms.mdl.tmp || exit 1
+    mv $outdir/hmms.mdl.tmp $outdir/hmms.mdl || exit 1
 else
     echo "units' HMM already created. Skipping."
 fi
@@ -90,7 +91,8 @@ if [ ! -f $outdir/0.mdl ]; then
         $outdir/decode_graph.pkl || exit 1
     beer -s $seed hmm mkphoneloop --concentration $concentration \
         --weights-prior $prior $outdir/decode_graph.pkl \
-        $outdir/hmms.mdl $outdir/0.mdl || exit 1
+        $outdir/hmms.mdl $outdir/0.mdl.tmp || exit 1
+    mv $outdir/0.mdl.tmp $outdir/0.mdl || exit 1
 else
     echo "Phone Loop model already created. Skipping."
 fi
@@ -130,13 +132,15 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
         # Update the model' parameters.
         find $outdir/epoch${epoch} -name '*pkl' | \
             beer -s $seed hmm update -o $outdir/optim_state.pth $outdir/$mdl \
-                $outdir/${epoch}.mdl 2>&1 | \
+                $outdir/${epoch}.mdl.tmp 2>&1 | \
                 tee -a $outdir/training.log || exit 1
+        mv $outdir/${epoch}.mdl.tmp $outdir/${epoch}.mdl || exit 1
 
         mdl=${epoch}.mdl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    cp $outdir/$mdl $outdir/final.mdl.tmp || exit 1
+    mv $outdir/final.mdl.tmp $outdir/final.mdl || exit 1
 else
     echo "Model already trained. Skipping."
 fi
-- 
2.43.0


From 4053bcad6c3f2e2f8eabe6b439e20ab6c59c971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 41/59] fix: final model of a longer training interrupted after
 its last epoch

---
 recipes/aud/steps/aud.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index fb9168b..c755661 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -98,7 +98,7 @@ else
 fi
 
 # Training.
-if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+if ! cmp -s $outdir/${epochs}.mdl $outdir/final.mdl; then
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
-- 
2.43.0


From 79714fa7d2653062ae242b3d2b688ce450144bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 42/59] fix: optimizer state ahead of the model after an
 interruption

---
 recipes/aud/steps/aud.sh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index c755661..20efdcb 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -129,9 +129,15 @@ if ! cmp -s $outdir/${epochs}.mdl $outdir/final.mdl; then
             "$cmd" \
             $outdir/epoch${epoch}|| exit 1
 
+        # The optimizer state goes with the model of the same epoch.
+        optim=$outdir/optim_state_${epoch}.pth
+        prev_optim=$outdir/optim_state_$((epoch - 1)).pth
+        rm -f $optim
+        if [ -f $prev_optim ]; then cp $prev_optim $optim || exit 1; fi
+
         # Update the model' parameters.
         find $outdir/epoch${epoch} -name '*pkl' | \
-            beer -s $seed hmm update -o $outdir/optim_state.pth $outdir/$mdl \
+            beer -s $seed hmm update -o $optim $outdir/$mdl \
                 $outdir/${epoch}.mdl.tmp 2>&1 | \
                 tee -a $outdir/training.log || exit 1
         mv $outdir/${epoch}.mdl.tmp $outdir/${epoch}.mdl || exit 1
-- 
2.43.0


From bdcad070f7ecb8b2dd665cecba411cd4e2f60900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 43/59] fix: natural parameters, statistics and likelihoods of
 sets of diagonal Normal densities

---
 beer/dists/normaldiag.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..370fee1 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From 040250d6ece9f2628c782486e863b7e0305815e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 44/59] fix: natural parameters and likelihood of single full
 covariance Normal densities

---
 beer/dists/normal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..a0aefa2 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -40,9 +40,9 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
         dim = int(.5 * (-1 + math.sqrt(1 + 4 * l)))
 
         np1 = natural_params[:, :dim]
-        np2 = natural_params[:, dim: dim * (dim + 1)]
+        np2 = natural_params[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
         cov = np2.inverse()
-        mean = cov * np1
+        mean = torch.matmul(cov, np1[:, :, None]).reshape(-1, dim)
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 7b5a56808e9bbe7bc0a8f0567e47223cbae86b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 45/59] fix: entropy of exponential family densities

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From fb64ba0cd52b49c4209d03c63dde5cf4e05fa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 46/59] fix: use the given variance nonlinearity in the
 isotropic Normal layer

---
 beer/nnet/problayers.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..8e35877 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -92,12 +92,8 @@ class NormalIsotropicCovarianceLayer(NormalDiagonalCovarianceLayer):
 
     def __init__(self, dim_in, dim_out,
                 variance_nonlinearity=None):
-        super().__init__(dim_in, dim_out)
-        self.mean = torch.nn.Linear(dim_in, dim_out)
+        super().__init__(dim_in, dim_out, variance_nonlinearity)
         self.logvar = torch.nn.Linear(dim_in, 1)
-        if variance_nonlinearity is None:
-            variance_nonlinearity = torch.nn.Softplus()
-        self.variance_nonlinearity = variance_nonlinearity
 
     def forward(self, inputs):
         means = self.mean(inputs)
-- 
2.43.0


From 889b6ca5e95fd39cc0bb8c9db5a03314fa83e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 47/59] fix: one objective per frame in the VAE

---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From 308907f65a1710f723b41cb52e03334ba7706023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 48/59] fix: gradient through the likelihood of mixture sets

---
 beer/models/mixtureset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 5da7440..b392845 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -91,8 +91,8 @@ class MixtureSet(ModelSet):
         w_pc_exp_llhs = pc_exp_llhs + log_weights[None]
 
         # Responsibilities.
-        log_norm = logsumexp(w_pc_exp_llhs.detach(), dim=-1)
-        log_resps = w_pc_exp_llhs.detach() - log_norm[:, :, None]
+        log_norm = logsumexp(w_pc_exp_llhs, dim=-1)
+        log_resps = (w_pc_exp_llhs - log_norm[:, :, None]).detach()
         resps = log_resps.exp()
         self.cache['resps'] = resps
 
-- 
2.43.0


From 22971ebcbd8d05cfd8f975a8ea847de4bbe383f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 49/59] fix: transcriptions of interrupted decoding and
 alignment steps

---
 recipes/aud/steps/align.sh  | 9 ++++++++-
 recipes/aud/steps/decode.sh | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/align.sh b/recipes/aud/steps/align.sh
index eba2d8d..ffadf02 100755
--- a/recipes/aud/steps/align.sh
+++ b/recipes/aud/steps/align.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# The status of a command is not hidden by the logging.
+set -o pipefail
+
 acoustic_scale=1.
 parallel_env=sge
 parallel_opts=""
@@ -60,6 +63,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Transcriptions of an interrupted run are not part of this one.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode --per-frame -a $alis -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
@@ -71,7 +77,8 @@ if [ ! -f $outdir/trans ]; then
         "$cmd" \
         $outdir || exit 1
 
-    cat $outdir/trans_* | sort > $outdir/trans || exit 1
+    cat $outdir/trans_* | sort > $outdir/trans.tmp || exit 1
+    mv $outdir/trans.tmp $outdir/trans || exit 1
 else
     echo "data already aligned"
 fi
diff --git a/recipes/aud/steps/decode.sh b/recipes/aud/steps/decode.sh
index a17f940..6ebe1d3 100755
--- a/recipes/aud/steps/decode.sh
+++ b/recipes/aud/steps/decode.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# The status of a command is not hidden by the logging.
+set -o pipefail
+
 acoustic_scale=1.
 per_frame=""
 parallel_env=sge
@@ -65,6 +68,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Transcriptions of an interrupted run are not part of this one.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode $per_frame -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
@@ -76,7 +82,8 @@ if [ ! -f $outdir/trans ]; then
         "$cmd" \
         $outdir || exit 1
 
-    cat $outdir/trans_* | sort > $outdir/trans || exit 1
+    cat $outdir/trans_* | sort > $outdir/trans.tmp || exit 1
+    mv $outdir/trans.tmp $outdir/trans || exit 1
 else
     echo "Data already decoded. Skipping."
 fi
-- 
2.43.0


From b18f94f98f9d15bb67dc05ccf44b2eea28f3959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 50/59] fix: features of interrupted or failed extraction steps

---
 recipes/aud/steps/extract_features.sh     | 6 +++++-
 recipes/aud/steps/extract_mbn_features.sh | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/extract_features.sh b/recipes/aud/steps/extract_features.sh
index 9f0283f..745d8c1 100755
--- a/recipes/aud/steps/extract_features.sh
+++ b/recipes/aud/steps/extract_features.sh
@@ -58,6 +58,8 @@ mkdir -p $feadir
 if [ ! -f $feadir/${feaname}.npz ]; then
     echo "extracting features in $feadir/${feaname}.npz"
 
+    # Features of an interrupted run are not part of this one.
+    rm -fr $feadir/${feaname}_tmp
     mkdir -p $feadir/${feaname}_tmp
 
     # Extract the features.
@@ -72,7 +74,9 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp \
+        $feadir/${feaname}.npz.tmp || exit 1
+    mv $feadir/${feaname}.npz.tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
diff --git a/recipes/aud/steps/extract_mbn_features.sh b/recipes/aud/steps/extract_mbn_features.sh
index 5ca3577..d156c91 100755
--- a/recipes/aud/steps/extract_mbn_features.sh
+++ b/recipes/aud/steps/extract_mbn_features.sh
@@ -52,6 +52,8 @@ mkdir -p $feadir
 if [ ! -f $feadir/${feaname}.npz ]; then
     echo "extracting features in $feadir/${feaname}.npz"
 
+    # Features of an interrupted run are not part of this one.
+    rm -fr $feadir/${feaname}_tmp
     mkdir -p $feadir/${feaname}_tmp
 
     # Extract the features.
@@ -66,7 +68,9 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp \
+        $feadir/${feaname}.npz.tmp || exit 1
+    mv $feadir/${feaname}.npz.tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
-- 
2.43.0


From 7ca5097cee47e549652f073ec22906fcf9ec7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 51/59] fix: data set of an interrupted create_dataset step

---
 recipes/aud/steps/create_dataset.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/steps/create_dataset.sh b/recipes/aud/steps/create_dataset.sh
index 8c6a55b..1d9e691 100755
--- a/recipes/aud/steps/create_dataset.sh
+++ b/recipes/aud/steps/create_dataset.sh
@@ -12,7 +12,8 @@ outdir=$(dirname $output)
 mkdir -p $outdir
 
 if [ ! -f $output ]; then
-    beer dataset create $datadir $features $output
+    beer dataset create $datadir $features $output.tmp || exit 1
+    mv $output.tmp $output || exit 1
 else
     echo "Dataset \"$output\" already created. Skipping."
 fi
-- 
2.43.0


From 9731fa0f09016532b8adc22c56a038c482cca36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 52/59] fix: interrupted training of the phone recogniser
 recipe

---
 recipes/aud/steps/monophone.sh | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 320db1b..71b8f00 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# The status of a command is not hidden by the logging.
+set -o pipefail
+
 prior=gamma_dirichlet_process
 parallel_env=sge
 parallel_opts=""
@@ -64,7 +67,8 @@ mkdir -p $outdir
 # Create the units' HMM.
 if [ ! -f $outdir/hmms.mdl ]; then
     beer hmm mkphones -d $dataset $modelconf $langdir/units \
-        $outdir/hmms.mdl || exit 1
+        $outdir/hmms.mdl.tmp || exit 1
+    mv $outdir/hmms.mdl.tmp $outdir/hmms.mdl || exit 1
 else
     echo "units' HMM already created. Skipping."
 fi
@@ -77,7 +81,8 @@ if [ ! -f $outdir/0.mdl ]; then
     beer hmm mkdecodegraph $outdir/ploop_graph.pkl $outdir/hmms.mdl \
         $outdir/decode_graph.pkl || exit 1
     beer hmm mkphoneloop --weights-prior $prior $outdir/decode_graph.pkl \
-        $outdir/hmms.mdl $outdir/0.mdl || exit 1
+        $outdir/hmms.mdl $outdir/0.mdl.tmp || exit 1
+    mv $outdir/0.mdl.tmp $outdir/0.mdl || exit 1
 else
     echo "Phone Loop model already created. Skipping."
 fi
@@ -86,6 +91,7 @@ fi
 # Create the alignment graphs.
 if [ ! -f $outdir/alis.npz ]; then
     mkdir -p $outdir/aligraphs
+    rm -f $outdir/aligraphs/*npy
 
     # Accumulate the statistics in parallel.
     cmd="beer hmm mkaligraph $outdir/hmms.mdl $outdir/aligraphs"
@@ -109,7 +115,7 @@ fi
 
 
 # Training.
-if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+if ! cmp -s $outdir/${epochs}.mdl $outdir/final.mdl; then
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
@@ -124,6 +130,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run are not part of this one.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate --alis $outdir/alis.npz $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
@@ -136,16 +145,24 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
             "$cmd" \
             $outdir/epoch${epoch}|| exit 1
 
+        # The optimizer state goes with the model of the same epoch.
+        optim=$outdir/optim_state_${epoch}.pth
+        prev_optim=$outdir/optim_state_$((epoch - 1)).pth
+        rm -f $optim
+        if [ -f $prev_optim ]; then cp $prev_optim $optim || exit 1; fi
+
         # Update the model' parameters.
         find $outdir/epoch${epoch} -name '*pkl' | \
-            beer hmm update -o $outdir/optim_state.pth $outdir/$mdl \
-                $outdir/${epoch}.mdl 2>&1 | \
+            beer hmm update -o $optim $outdir/$mdl \
+                $outdir/${epoch}.mdl.tmp 2>&1 | \
                 tee -a $outdir/training.log || exit 1
+        mv $outdir/${epoch}.mdl.tmp $outdir/${epoch}.mdl || exit 1
 
         mdl=${epoch}.mdl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    cp $outdir/$mdl $outdir/final.mdl.tmp || exit 1
+    mv $outdir/final.mdl.tmp $outdir/final.mdl || exit 1
 else
     echo "Model already trained. Skipping."
 fi
-- 
2.43.0


From 22cf30b56b814f30fb538c77c970045c6de99af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 53/59] fix: interrupted training of the bigram unit discovery
 recipe

---
 recipes/aud/steps/aud_bigram.sh | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 0f66137..3be675f 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# The status of a command is not hidden by the logging.
+set -o pipefail
+
 acoustic_scale=1.
 prior=gamma_dirichlet_process
 parallel_env=sge
@@ -70,13 +73,14 @@ mkdir -p $outdir
 # Create the 2-gram phone-loop model.
 if [ ! -f $outdir/0.mdl ]; then
     beer hmm mkphoneloopbigram --weights-prior $prior $ploopinit \
-        $outdir/0.mdl || exit 1
+        $outdir/0.mdl.tmp || exit 1
+    mv $outdir/0.mdl.tmp $outdir/0.mdl || exit 1
 else
     echo "2-gram phone-loop model already created"
 fi
 
 # Training.
-if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+if ! cmp -s $outdir/${epochs}.mdl $outdir/final.mdl; then
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
@@ -91,6 +95,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run are not part of this one.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
@@ -104,16 +111,24 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
             "$cmd" \
             $outdir/epoch${epoch}|| exit 1
 
+        # The optimizer state goes with the model of the same epoch.
+        optim=$outdir/optim_state_${epoch}.pth
+        prev_optim=$outdir/optim_state_$((epoch - 1)).pth
+        rm -f $optim
+        if [ -f $prev_optim ]; then cp $prev_optim $optim || exit 1; fi
+
         # Update the model' parameters.
         find $outdir/epoch${epoch} -name '*pkl' | \
-            beer hmm update -o $outdir/optim_state.pth $outdir/$mdl \
-                $outdir/${epoch}.mdl 2>&1 | \
+            beer hmm update -o $optim $outdir/$mdl \
+                $outdir/${epoch}.mdl.tmp 2>&1 | \
                 tee -a $outdir/training.log || exit 1
+        mv $outdir/${epoch}.mdl.tmp $outdir/${epoch}.mdl || exit 1
 
         mdl=${epoch}.mdl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    cp $outdir/$mdl $outdir/final.mdl.tmp || exit 1
+    mv $outdir/final.mdl.tmp $outdir/final.mdl || exit 1
 else
     echo "Model already trained. Skipping."
 fi
-- 
2.43.0


From 4edf9c60de40d1b58231e39f92d3b3752111972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 54/59] fix: refuse unknown covariance types with
 UnknownCovarianceType

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From 45544a370ec42cf49c6c4c72978c92695fe20cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 55/59] fix: log-density of the mean of a flow layer misses its
 constant

---
 beer/nnet/problayers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index 8e35877..1d59e24 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -178,7 +178,8 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.full_like(means[:, 0],
+                                   -.5 * dim * math.log(2 * math.pi))
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From b01ec6f7b378f8c318869c0f418fde0cd9dec889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 56/59] fix: replace_parameters reaches the members of a joint
 model set

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..a8761da 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From 3c08e0e5752c90d096ab8f685e28cd9d95acca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:11 +0000
Subject: [PATCH 57/59] fix: the Gamma log-likelihood had the wrong sign of its
 rate

---
 beer/dists/gamma.py  | 2 +-
 beer/models/gamma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index e2fb465..7c7563d 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -82,7 +82,7 @@ class Gamma(Model):
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
         new_stats = torch.cat([
-            stats[:, :dim],
+            -stats[:, :dim],
             torch.ones_like(stats[:, :dim]) * self.shape
         ], dim=-1)
         return {self.rate: new_stats.sum(dim=0)}
-- 
2.43.0


From d9fdaec90ecb5484d8cad3e6ac6c01f897379370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 58/59] fix: score_aud.sh ignored the mapping it was given and
 misspelt its output directory

---
 recipes/aud/steps/score_aud.sh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index fbdbe95..3b1b73b 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -2,6 +2,8 @@
 
 . path.sh
 
+mapping=""
+au_mapping=""
 nargs=3
 
 while [[ $# -gt $nargs ]]; do
@@ -36,10 +38,12 @@ outdir=$3
 mkdir -p $outdir
 
 
-if [ ! -f $oudir/au_phone_counts.yml ]; then
+if [ ! -f $outdir/au_phone_counts.yml ]; then
     echo "creating a mapping acoustic unit -> phone"
     python utils/maxoverlap_mapping.py $ref_ali $hyp_ali \
         --counts $outdir/au_phone_counts.yml $outdir/au_phone
+fi
+if [ -z "$au_mapping" ]; then
     au_mapping=$outdir/au_phone
 fi
 
-- 
2.43.0


From 9c50106d4c817abb26a61afbe8a73a35e74e65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 59/59] fix: score_aud.sh kept the partial scores of an
 interrupted run and hid failing tools

---
 recipes/aud/steps/score_aud.sh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index 3b1b73b..ab62d95 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -41,7 +41,8 @@ mkdir -p $outdir
 if [ ! -f $outdir/au_phone_counts.yml ]; then
     echo "creating a mapping acoustic unit -> phone"
     python utils/maxoverlap_mapping.py $ref_ali $hyp_ali \
-        --counts $outdir/au_phone_counts.yml $outdir/au_phone
+        --counts $outdir/au_phone_counts.yml.tmp $outdir/au_phone || exit 1
+    mv $outdir/au_phone_counts.yml.tmp $outdir/au_phone_counts.yml
 fi
 if [ -z "$au_mapping" ]; then
     au_mapping=$outdir/au_phone
@@ -50,24 +51,27 @@ fi
 if [ ! -f $outdir/eq_per ]; then
    echo "mapping the acoustic unit to phones"
    python utils/maptrans.py --unk '<unk>' $au_mapping $hyp_ali \
-           > $outdir/au_phone_trans
+           > $outdir/au_phone_trans || exit 1
 
    echo "computing the equivalent Phone Error Rate"
    python utils/ter.py --no-repeat $mapping $ref_ali \
-       $outdir/au_phone_trans > $outdir/eq_per || exit 1
+       $outdir/au_phone_trans > $outdir/eq_per.tmp || exit 1
+   mv $outdir/eq_per.tmp $outdir/eq_per
 fi
 echo "PER: $(tail -n 1 $outdir/eq_per)"
 
 if [ ! -f $outdir/nmi ]; then
     echo "computing the NMI"
-    python utils/nmi.py $outdir/au_phone_counts.yml > $outdir/nmi || exit 1
+    python utils/nmi.py $outdir/au_phone_counts.yml > $outdir/nmi.tmp || exit 1
+    mv $outdir/nmi.tmp $outdir/nmi
 fi
 echo "NMI: $(tail -n 1 $outdir/nmi)"
 
 
 if [ ! -f $outdir/entropy_rate ]; then
     echo "evaluating the entropy rate"
-    python utils/entropy_rate.py $hyp_ali > $outdir/entropy_rate || exit 1
+    python utils/entropy_rate.py $hyp_ali > $outdir/entropy_rate.tmp || exit 1
+    mv $outdir/entropy_rate.tmp $outdir/entropy_rate
 fi
 echo "entropy rate, perplexity: $(tail -n 1 $outdir/entropy_rate)"
 
@@ -75,7 +79,8 @@ echo "entropy rate, perplexity: $(tail -n 1 $outdir/entropy_rate)"
 if [ ! -f $outdir/phone_boundaries ]; then
     echo "evaluating the segmentation"
     python utils/score_boundaries.py $ref_ali $hyp_ali \
-        > $outdir/phone_boundaries || exit 1
+        > $outdir/phone_boundaries.tmp || exit 1
+    mv $outdir/phone_boundaries.tmp $outdir/phone_boundaries
 fi
 echo "recall, precision, fscore: $(tail -n 1 $outdir/phone_boundaries)"
 
-- 
2.43.0

