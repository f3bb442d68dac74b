From 47f377e4bcd4682c1345e4b08d0409adeadb50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 01/48] fix: use torch.linalg.cholesky, torch.cholesky has been
 removed

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From f7efe9681747ceb9cfc569ba8203b90e949032b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 02/48] fix: use torch.linalg.eigh, torch.symeig has been
 removed

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..d498d93 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From fe07dfbda7978891e6688019eb8771e2945a775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 03/48] fix: np.float does not exist, filter banks could not be
 created

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From b0665609d8c900a0d780f1029c1acd0e5fa6b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 04/48] fix: invert the natural parameters of the diagonal
 Normal

---
 beer/dists/normaldiag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..99d2fdf 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
-- 
2.43.0


From ad3d75ae0cdf498979ba85fd6b1d8952774aa567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 05/48] fix: concatenate the diagonal Normal expected
 statistics per distribution

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 99d2fdf..d641e32 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From f0441f102ec6923c676d190415f15fcf9e433930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 06/48] fix: subtract each diagonal Normal's own log-normalizer

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index d641e32..370fee1 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
-- 
2.43.0


From 42b83e0facf5658e3649f3b99b9e5a10da413f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 07/48] fix: recover the full covariance Normal from its
 natural parameters

---
 beer/dists/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..8bfa09c 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -41,8 +41,8 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
 
         np1 = natural_params[:, :dim]
         np2 = natural_params[:, dim: dim * (dim + 1)]
-        cov = np2.inverse()
-        mean = cov * np1
+        cov = np2.reshape(-1, dim, dim).inverse()
+        mean = torch.matmul(cov, np1[:, :, None])
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
-- 
2.43.0


From ed9ce3fcbe17384e68c6c78cc237a012a7f08733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 08/48] fix: entropy used an undefined name and had the wrong
 sign

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From e1ca353dec87228140fa05d3104c5953c927be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 09/48] fix: likelihood of a single full covariance Normal
 indexed a 2D matrix as 3D

---
 beer/dists/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 8bfa09c..9470b02 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 084f9fc566d25b582dcf4b4c0fdfc65a80eacbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 10/48] fix: length of a Gamma read a parameter it does not
 have

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From 19337b558332d138dc69dd525127fc8aab5b3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 11/48] fix: Gamma log-likelihood had a flipped sign and used
 the wrong natural parameters

---
 beer/dists/gamma.py  | 2 +-
 beer/models/gamma.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..7c7563d 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,7 +67,7 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
@@ -77,7 +77,7 @@ class Gamma(Model):
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From 2b2c4899ec0217fa5061f4d69383cecab232ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 12/48] fix: isotropic Normal parameters of a batch used an
 undefined name

---
 beer/dists/isonormalgamma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..55e1fbe 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -47,11 +47,12 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        dim = pdfvec.shape[-1] - 3
+        precision = pdfvec[:, dim:dim + 1]
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean.view(-1, dim), precision.view(-1, 1)
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 1e79d18b251c82ac47232721e6f86706371ddd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 13/48] fix: VBOptimizer.load_state used pickle without
 importing it

---
 beer/inference/optimizers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beer/inference/optimizers.py b/beer/inference/optimizers.py
index 7d7f3e9..8a4dae6 100644
--- a/beer/inference/optimizers.py
+++ b/beer/inference/optimizers.py
@@ -1,4 +1,7 @@
 
+import pickle
+
+
 __all__ = ['VBConjugateOptimizer', 'VBOptimizer']
 
 
-- 
2.43.0


From 860ad0f55b2267ede3de8aeb8b2cf941f1798d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 14/48] fix: posteriors of a Mixture used an attribute it does
 not have

---
 beer/models/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..90f90b8 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,7 +108,8 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf).view(1, -1)
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
         per_component_exp_llh += log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
-- 
2.43.0


From 507881a6336394dc4f80c684f62343d3c66e22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 15/48] fix: MixtureSet weights ignored the type and device of
 its components

---
 beer/models/mixtureset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..57ec81e 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -46,7 +46,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype,
+                             device=device) / ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
-- 
2.43.0


From 7657f4bb524afc7953579202a8f6494bcd47f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 16/48] fix: import the Dirichlet used by the MixtureSet
 default parameters

---
 beer/models/mixtureset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 57ec81e..db8a8d1 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -4,6 +4,7 @@ from .parameters import ConjugateBayesianParameter
 from .modelset import ModelSet
 from .mixture import Mixture
 from .categoricalset import CategoricalSet
+from ..dists import Dirichlet
 from ..utils import logsumexp
 
 __all__ = ['MixtureSet']
-- 
2.43.0


From a2168323885215a18ca4f0899c691c00273fd5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 17/48] fix: slices of a MixtureSet selected the wrong
 components

---
 beer/models/mixtureset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index db8a8d1..c294dec 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -122,13 +122,15 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            if key < 0:
+                key += len(self)
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError(f'Unsupported index: {key}')
+            new_s = slice(start * ncpm, stop * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From fcbabe0ba874c9896793b58aad3c8b133489f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 18/48] fix: stick-breaking set prior ignored the ordering of
 the root process

---
 beer/models/categoricalset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..c445824 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -170,7 +170,9 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    residual = 1 - mean[root_sb_categorical.ordering].cumsum(dim=0)
+    params[:, :, 1] = prior_strength \
+                      * residual[root_sb_categorical.reverse_ordering]
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
@@ -251,7 +253,8 @@ class SBCategoricalSet(Model):
                             len(self.root_sb_categorical.stickbreaking), 2,
                             **tensorconf)
         params[:, :, 0] = self.concentration * mean
-        params[:, :, 1] = self.concentration * (1 - mean.cumsum(dim=0))
+        residual = 1 - mean[self.ordering].cumsum(dim=0)
+        params[:, :, 1] = self.concentration * residual[self.reverse_ordering]
         params = params.reshape(-1, 2)
         self.stickbreaking.prior = Dirichlet.from_std_parameters(params)
 
-- 
2.43.0


From d28f1176f5e31c1256683b7874ed8286efac6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 19/48] fix: bigram phone loop used the transposed phone
 transitions

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index c445824..68ab553 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -301,7 +301,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..8c9bd4f 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -154,7 +154,7 @@ class BigramPhoneLoop(HMM):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
             residual_log_prob = (1 - loop_prob).log()
             self.graph.trans_log_probs[end_idx, start_idxs] = \
-                    residual_log_prob + log_weights[i]
+                    residual_log_prob + log_weights[:, i]
 
     ####################################################################
     # Model interface.
-- 
2.43.0


From 45b959be1dfd1ddbf61f2d8298619a67d84a19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 20/48] fix: bigram phone loop could not be trained with
 alignments

---
 beer/models/phoneloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 8c9bd4f..1be9f3c 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -187,5 +187,6 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(self.categoricalset.accumulate_from_jointresps(
+                            fake_stats[None, :]))
         return retval
-- 
2.43.0


From 10e5f474742cf4b462d5ad3e136bd743d383819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 21/48] fix: VAE likelihood of N frames was broadcast to a N x
 N matrix

---
 beer/models/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..053c6bf 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From dab97fc7ac35f6c99c36ebe29a0ed4b930ed18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 22/48] fix: HMM transition counts ignored the type and device
 of the data

---
 beer/models/hmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..4e8f590 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -48,7 +48,9 @@ class HMM(DiscreteLatentModel):
                            dtype=pc_llhs.dtype, device=pc_llhs.device)
             if trans_posteriors:
                 n_states = inference_graph.n_states
-                trans_posts = torch.zeros(len(pc_llhs) - 1, n_states, n_states)
+                trans_posts = torch.zeros(len(pc_llhs) - 1, n_states, n_states,
+                                          dtype=pc_llhs.dtype,
+                                          device=pc_llhs.device)
                 for i, transition in enumerate(zip(path[:-1], path[1:])):
                     src, dest = transition
                     trans_posts[i, src, dest] = 1
-- 
2.43.0


From 8adff2c53f3486e53358d9e84d58e8281d925c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 23/48] fix: HMM path log-likelihood indexed the frames with
 the states

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 4e8f590..e1c0e1e 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -57,7 +57,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = (pc_llhs * posts).sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From 1237b823c0e58cfe9087ce080d51ad72d83ac58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 24/48] fix: HMM posteriors scaled the statistics instead of
 the likelihoods

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index e1c0e1e..d1eb86a 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -118,7 +118,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From 168afe955226581db02113e7f1ca3ce331f3664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 25/48] fix: HMM kept the transition posteriors of a previous
 utterance

---
 beer/models/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index d1eb86a..a737003 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -86,6 +86,7 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From 07514d8176924d4337591e6a4e370e2f35dddaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 26/48] fix: VAE divergence of N frames was broadcast to a N x
 N matrix

---
 beer/models/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index 053c6bf..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
-- 
2.43.0


From 6b7d918fae38fb572e369404ab96663df6c95d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 27/48] fix: a graph state with a self-loop could not be
 replaced

---
 beer/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..2a3fba6 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -139,8 +139,12 @@ class Graph:
         new_arcs = []
         for arc in self.arcs(old_state_id):
             to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
+            end = arc.end if arc.end != old_state_id \
+                else new_states[graph.start_state]
+            new_arcs.append((new_states[graph.end_state], end, arc.weight))
         for arc in self.arcs(old_state_id, incoming=True):
+            if arc.start == old_state_id:
+                continue
             to_delete.append(arc)
             new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
 
-- 
2.43.0


From 3139dbd0c671d29d8619a2eb37641611384ae77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 28/48] fix: weight of a path through non-emitting states is
 the product of its arcs

---
 beer/graph.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index 2a3fba6..c74878f 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -158,33 +158,33 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        to_explore = [(arc, init_weight, {start_state})
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
                 yield arc.end, weight * arc.weight
             else:
                 if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                    to_explore += [(next_arc, weight * arc.weight,
+                                    visited | {arc.end})
+                                   for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, {start_state})
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
                 yield arc.start, weight * arc.weight
             else:
                 if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                    to_explore += [(prev_arc, weight * arc.weight,
+                                    visited | {arc.start})
+                                   for prev_arc in self.arcs(arc.start,
+                                                             incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 7e852da2e842127990ef09a62e9e2d46fab9cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 29/48] fix: reserve_gpu used its optional logger without
 checking it

---
 beer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index d498d93..8945ccd 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -60,7 +60,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
         active_gpus = get_active_gpus()
         for gpu, gpu_idx in gpus.items():
             if gpu not in active_gpus:
-                logger.debug(f'trying to reserve gpu {gpu_idx}')
+                if logger is not None:
+                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                 os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                 # Reserve the GPU by allocating some dummy data.
                 try:
@@ -72,7 +73,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
             if gpu_reserved:
                 break
         else:
-            logger.debug(f'waiting {wait_time} seconds...')
+            if logger is not None:
+                logger.debug(f'waiting {wait_time} seconds...')
             time.sleep(wait_time)
         count += 1
 
-- 
2.43.0


From 51e160c665aa3b71d466d8677b5437727014e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 30/48] fix: each row of the jacobians accumulated the previous
 ones

---
 beer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index 8945ccd..53421da 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -199,9 +199,9 @@ def jacobians(outputs, inputs):
     dim, dtype, device = len(outputs), outputs.dtype, outputs.device
     jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype,
                     device=device) for tensor in inputs]
-    for input_tensor in inputs:
-        input_tensor.grad = None
     for i in range(dim):
+        for input_tensor in inputs:
+            input_tensor.grad = None
         autograd.backward(outputs[i], retain_graph=True)
         for j, in_tensor in enumerate(inputs):
             jac_matrices[j][i, :] = in_tensor.grad.view(-1)
-- 
2.43.0


From 8ee03bf5b506bba9d4bd5b1178ac4f93bdcc3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 31/48] fix: unknown covariance types were not refused

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From 5f83f25b7cdaaaf58771cc72c7348cb383cefc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 32/48] fix: natural form of a view of a subspace parameter was
 not returned

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From 6bde2d43466ecf2c85eba26fc9526a725f898aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 33/48] fix: error for an unknown latent covariance type did
 not name it

---
 beer/models/gsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..71e4ca0 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -209,7 +209,7 @@ class HierarchicalAffineTransform(AffineTransform):
     def new_latent_posteriors(transform, nposts, cov_type='diagonal'):
         'Create a set of `nposts` latent posteriors.'
         if cov_type not in ['full', 'diagonal']:
-            raise UnknownCovarianceType('f{cov_type}')
+            raise UnknownCovarianceType(f'{cov_type}')
         tensor = transform.bias.prior.params.mean
         dim = transform.in_dim
         dtype, device = tensor.dtype, tensor.device
@@ -554,7 +554,7 @@ class GSM(Model):
     def new_latent_posteriors(self, nposts, cov_type='diagonal'):
         'Create a set of `nposts` latent posteriors.'
         if cov_type not in ['full', 'diagonal']:
-            raise UnknownCovarianceType('f{cov_type}')
+            raise UnknownCovarianceType(f'{cov_type}')
         tensor = self.transform.bias.prior.params.mean
         dim = self.transform.in_dim
         dtype, device = tensor.dtype, tensor.device
-- 
2.43.0


From 9962bde11dfc255fd54d95bc3831751431023cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 34/48] fix: new subspace models initialized a misspelt
 attribute

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 71e4ca0..d6ea8e9 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -541,7 +541,7 @@ class GSM(Model):
             params = _subspace_params(model)
             for param in params:
                 param.posterior = latent_posteriors
-                param.pdfvecs = torch.zeros_like(param.stats)
+                param.pdfvec = torch.zeros_like(param.stats)
 
         # Initialize the newly created models.
         samples = latent_posteriors.sample(latent_nsamples)
-- 
2.43.0


From 1c58fc325b682ef1b65de61f412ecdf3e0faa0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 35/48] fix: parameters of the members of a joint model set
 were not replaced

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..a8761da 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From 7b83a2e7b7f29026a1dbada551173e724ac10d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 36/48] fix: an utterance missing from the dataset aborted the
 command

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From f3c56c86f514f1ca5394fa0dc913c61aa1cfed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 37/48] fix: alignment graphs could not be loaded for decoding

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From cad204adfbfcc168bc963ef3e8b9e3386c70045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 38/48] fix: phone posteriors left out the last state of each
 phone

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From 0a2766b940aa0dbe70c0af6db1e1d6951fc6cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 39/48] fix: filter banks ignored the sampling rate of the
 signal

---
 beer/cli/subcommands/features/extract.py | 1 +
 beer/features.py                         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
diff --git a/beer/features.py b/beer/features.py
index 27524fc..299ad96 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 29b010d8afff0004b6d8d27c79d6a719e7eca704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 40/48] fix: initial posteriors of a subspace phone-loop were
 erased instead of read

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..aefa9ab 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,8 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
-                init_posts = pickle.load(f)[0]
+            with open(args.posteriors, 'rb') as f:
+                latent_posts = pickle.load(f)[0]
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 1d3dc5c07e5efe71e096008d12d847b87e966739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 41/48] fix: hmm train used an optimizer which does not exist

---
 beer/cli/subcommands/hmm/train.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..3e36627 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,10 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
-- 
2.43.0


From 4fbd7ed3f2c05857a8e9b07f2afaa10f6dc840c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 42/48] fix: hmm train updated the model after each utterance
 by default

---
 beer/cli/subcommands/hmm/train.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index 3e36627..98836b9 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -36,6 +36,8 @@ def main(args, logger):
         lrate=args.lrate
     )
 
+    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
+
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
         optim.init_step()
@@ -45,12 +47,12 @@ def main(args, logger):
                                               datasize=dataset.size)
 
             # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            if i % batch_size == 0:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(i // batch_size) + "/" + str(int(len(dataset) / batch_size)):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From 0bd1cf09650b6114dae3589973a4fbb00bc0b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 43/48] fix: subspace models kept the graph of the samples they
 were set from

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index d6ea8e9..1f226c1 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -446,7 +446,7 @@ def _update_params(params, pdfvecs):
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
+        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape).detach()
         idx += totdim
 
 # Update the models given a set of pdf-vectors.
-- 
2.43.0


From 208c032c3649415114232089b9af7ee37750f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 44/48] fix: accumulating no utterance ended with a division by
 zero

---
 beer/cli/subcommands/hmm/accumulate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..8e3a035 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,6 +62,10 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
+    if count == 0:
+        logger.warning('no utterance to accumulate')
+        return
+
     logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
-- 
2.43.0


From 2d52366533b6bbc720cb74f33848d3e4e4cd0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 45/48] fix: default prior of the bigram phone-loop was not one
 of its choices

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..435b21a 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From 6f177577b4db687bc52522f33f0a941ebe9c4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 46/48] fix: merging transforms overwrote its input when the
 first is the identity

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From 815b4a6ea0542da7903798891b486e769b0245da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 47/48] fix: likelihood of the mean of a flow missed its
 normalization constant

---
 beer/nnet/problayers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..158da68 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,8 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.zeros_like(means[:, 0]) \
+                   - .5 * dim * math.log(2 * math.pi)
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From b8c9c76cd1f1cb7f6392490eff13a642d3b56c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 48/48] fix: boundaries of an utterance with a single unit
 could not be scored

---
 recipes/aud/utils/score_boundaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..570de4e 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,8 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0

