From 762e70bfb1b9464ea695b04258c1c805452c2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:20 +0000
Subject: [PATCH 01/24] fix: refuse cost codes with an unknown engine or too
 many fields

The direct decoder silently dropped every field after the fifth.
The two-step decoder accepted any engine when a label weight was given.
---
 skwdro/base/cost_decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..e2bcd2b 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -38,6 +38,8 @@ def cost_from_str(code: str) -> TorchCost:
     :rtype: TorchCost
     """
     splitted = code.split('-')
+    if len(splitted) not in (4, 5):
+        raise ValueError("Cost code invalid: " + code)
     engine_, id_, power_, type_ = splitted[:4]
     kappa = float(splitted[4]) if len(splitted) >= 5 else DEFAULT_KAPPA
     if engine_ == 't':
@@ -114,6 +116,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From c1c7a7267502ecc5397a0aa37070a3ddcc020988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:45 +0000
Subject: [PATCH 02/24] fix: newsvendor loss works without labels and applies
 its penalty; Weber loss keeps its scale on higher-rank batches

---
 skwdro/base/losses_torch/newsvendor.py | 4 ++--
 skwdro/base/losses_torch/weber.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..9c14a78 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,10 +68,10 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
-        return returns - costs
+        return self.regularize(returns - costs)
 
     @property
     def theta(self) -> pt.Tensor:
diff --git a/skwdro/base/losses_torch/weber.py b/skwdro/base/losses_torch/weber.py
index a11d077..a33d172 100644
--- a/skwdro/base/losses_torch/weber.py
+++ b/skwdro/base/losses_torch/weber.py
@@ -14,6 +14,6 @@ class SimpleWeber(nn.Module):
         distances = pt.linalg.norm(
             xi - self.pos.unsqueeze(0), dim=-1, keepdims=True
         )
-        val = xi_labels * distances * xi_labels.shape[1]
+        val = xi_labels * distances * xi_labels.shape[-1]
         assert isinstance(val, pt.Tensor)
         return val
-- 
2.43.0


From 37b631e20388169c4f58236cc8edd013b06d7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:26 +0000
Subject: [PATCH 03/24] fix: wrapped losses give one value per sample on
 labelled matrices

---
 skwdro/base/losses_torch/wrapper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/losses_torch/wrapper.py b/skwdro/base/losses_torch/wrapper.py
index 34fc7e5..a366d6f 100644
--- a/skwdro/base/losses_torch/wrapper.py
+++ b/skwdro/base/losses_torch/wrapper.py
@@ -173,10 +173,9 @@ class WrappedPrimalLoss(Loss):
                 return self._reduce_flat_spatial_dims_loss(flat_loss).view(*b, 1)
             elif xi.dim() == 2 and xi_labels.dim() <= 2:
                 # Forwarding xis
-                flat_loss = self._flat_value_w_labels(
-                    xi, xi_labels
+                return self._reduce_flat_spatial_dims_loss(
+                    self._flat_value_w_labels(xi, xi_labels)
                 ).squeeze()
-                return self._reduce_flat_spatial_dims_loss(flat_loss)
             elif xi.dim() == xi_labels.dim() == 1:
                 # Forwarding xis (no batch dim)
                 b_xi = xi.unsqueeze(0)  # need to consider as zetas, will squeeze later
-- 
2.43.0


From 0eb9cf8bb0d75cf31aaf3b2ddfc1327e286016c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:46 +0000
Subject: [PATCH 04/24] fix: the summed robust loss averages the samples of
 every data point

With reduction='sum' the normalisation by the number of samples was
subtracted once instead of once per data point.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..72fb3e4 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -128,8 +128,8 @@ class _DualFormulation(_SampleDisplacer):
             # Expectation on the zeta samples (collapse 1st dim)
             second_term = self.reduce_loss_batch(
                 pt.logsumexp(integrand, 0)
+                - pt.log(pt.tensor(zeta.size(0)))
             )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
             return first_term + self.epsilon * second_term  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
-- 
2.43.0


From 04e5d7a2fe9c643b2396515549477c72ed041887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:53 +0000
Subject: [PATCH 05/24] fix: the non-robust mode evaluates the plain loss

At a positive radius the non-robust mode still added rho * lambda to the
loss, and its gradient moved lambda.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 72fb3e4..fc67caa 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -46,7 +46,8 @@ class _DualFormulation(_SampleDisplacer):
                 xi.unsqueeze(0),  # (1, m, d)
                 maybe_unsqueeze(xi_labels, dim=0),  # (1, m, d') or None
             )  # (1, m, 1)
-            first_term: pt.Tensor = self.rho * self.lam
+            # Just to have a zero grad in lambda
+            first_term: pt.Tensor = 0. * self.rho * self.lam
             primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
             return first_term + primal_loss
         elif self.rho > 0.:
-- 
2.43.0


From d23e01c733b7626bedb91e04b6078bbc94c13ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:49 +0000
Subject: [PATCH 06/24] fix: zero radius works with samples kept from an
 earlier pass

The kept-samples branch handed a batch with a leading dimension to the
reduction, which refuses it.
---
 skwdro/solvers/oracle_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..d56b032 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,7 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(batched_pl.squeeze(0))
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From 148fec7e0e3a6a446cb6681a8ca045e635721d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:07 +0000
Subject: [PATCH 07/24] fix: labelled samplers recentre the density they are
 asked for

The importance sampling correction always came out as zero for problems
with labels, because log_prob_recentered ignored the new centre.
---
 skwdro/base/samplers/torch/base_samplers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skwdro/base/samplers/torch/base_samplers.py b/skwdro/base/samplers/torch/base_samplers.py
index d354928..8cc3607 100644
--- a/skwdro/base/samplers/torch/base_samplers.py
+++ b/skwdro/base/samplers/torch/base_samplers.py
@@ -213,9 +213,12 @@ class LabeledSampler(BaseSampler, ABC):
             zeta_labels: Optional[pt.Tensor]
     ) -> pt.Tensor:
         assert zeta_labels is not None and xi_labels is not None
-        # TODO: FIX
-        lp_zeta = self._format_logprobs(self.data_s, zeta)
-        lp_zeta_labels = self._format_logprobs(self.labels_s, zeta_labels)
+        if xi_labels.dim() < xi.dim():
+            xi_labels = xi_labels.unsqueeze(-1)
+        lp_zeta = self._format_logprobs(
+            self.data_s, zeta - xi + self.data_s.mean)
+        lp_zeta_labels = self._format_logprobs(
+            self.labels_s, zeta_labels - xi_labels + self.labels_s.mean)
         lp = lp_zeta + lp_zeta_labels
         return lp
 
-- 
2.43.0


From bfd33276bf8838310606f75a523d14837299630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:10 +0000
Subject: [PATCH 08/24] fix: fall back to the drawn samples when labels have no
 finite displacement

With kappa=0 the labels were moved to infinity or NaN.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..1ab32f0 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -276,6 +276,15 @@ class _SampleDisplacer(_SampledDualLoss):
                 disp,
                 disp_labels
             )
+            if displaced_xi_labels is not None and check_tensor_validity(
+                    displaced_xi_labels):
+                # Labels that are free to move (kappa=0) have no finite optimum
+                return (
+                    xi.unsqueeze(0),
+                    maybe_unsqueeze(xi_labels, dim=0),
+                    zeta,
+                    zeta_labels
+                )
             displaced_zeta, displaced_zeta_labels = _solve_for_xi(
                 zeta, zeta_labels, disp, disp_labels
             )
-- 
2.43.0


From 516603479724ff5f4a72acd83705dd0d7d7464b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:49 +0000
Subject: [PATCH 09/24] fix: keep the dual variable non-negative under AdamW
 and LBFGS

Only the composite optimisers projected the dual variable after a step.
AdamW and LBFGS could leave it negative.
Both now project it through a hook run after every step.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 7 +++++++
 skwdro/solvers/oracle_torch.py                           | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..4113c87 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -288,6 +288,13 @@ class _DualLossBase(nn.Module, ABC):
         for param in frozen_params:
             param.requires_grad = rg
 
+    def _project_lam(self, *_):
+        """ Keep the dual variable non-negative, to be called after a step
+        of the optimizer.
+        """
+        with pt.no_grad():
+            self._lam.clamp_(min=0.)
+
     def eval(self):
         self.erm_mode = True
         return super().eval()
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index d56b032..e8da469 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -202,6 +202,7 @@ class DualPostSampledLoss(_DualLoss):
                 amsgrad=True,
                 foreach=True
             )
+            self._opti.register_step_post_hook(self._project_lam)
 
     def reset_sampler_mean(
         self,
@@ -436,6 +437,7 @@ class DualPreSampledLoss(_DualLoss):
             tolerance_change=1e-6,
             history_size=30
         )
+        self._opti.register_step_post_hook(self._project_lam)
 
         self.zeta = None
         self.zeta_labels = None
-- 
2.43.0


From b1cb7905ec959e027a01158d7ce2cc6440e9fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:35 +0000
Subject: [PATCH 10/24] fix: keep the starting guess for the dual variable
 finite

The guess is computed from the gradients of the loss at the data.
When one of them was not finite, or their norms overflowed, the dual variable started at infinity or not-a-number.
It now starts at the value set by the constructor in that case.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index fc67caa..365fecb 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -171,6 +171,9 @@ class _DualFormulation(_SampleDisplacer):
                             .sum()
                             .pow(1. / q)
                             ) / (p * rho_N)
+                    if not lam0.isfinite():
+                        # Same value as at construction
+                        lam0 = 1e-3 / self.rho
                     self._lam.data.mul_(0.).add_(lam0)
                 return lam0
             else:
-- 
2.43.0


From bdbf1615a315877910904b484c024176330f424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:43 +0000
Subject: [PATCH 11/24] fix: evaluating the robust loss leaves frozen
 parameters and modes alone

The gradients at the data are computed with the loss frozen and in evaluation mode.
Afterwards every parameter was made trainable and every module was put in training mode.
The earlier settings are now restored.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 1ab32f0..86bb070 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        modes = [(module, module.training) for module in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for module, mode in modes:
+            module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,6 +194,10 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        trainable = [
+            (param, param.requires_grad)
+            for param in (*self.primal_loss.parameters(), self._lam)
+        ]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -201,7 +207,8 @@ class _SampleDisplacer(_SampledDualLoss):
         )
 
         # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        for param, rg in trainable:
+            param.requires_grad = rg
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 06d3a1c4cdca557a2b090701dcce2cac3dfc9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:09 +0000
Subject: [PATCH 12/24] fix: the stopping rule keeps its own copy of the dual
 variable

With the parameter metric the rule remembered the live tensor.
Every later change of the dual variable then looked like no change at all.
---
 skwdro/solvers/optim_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..80447e2 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -147,7 +147,7 @@ class OptCondTorch:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From ca2527488ad304157275b37de9a406228efb0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:52 +0000
Subject: [PATCH 13/24] fix: the first phase of training with resampling
 minimises the plain loss

The loop announced as ERM pretraining ran on the robust loss, because the
ERM flag was switched off before it instead of on.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..6f76f5e 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -254,7 +254,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0


From 8ea7ff7eb2633e7c0e759c6e081b8cea5628b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:27 +0000
Subject: [PATCH 14/24] fix: solver results share no mutable state

Results built without a list of attributes all shared one list, and results
built from a mapping followed later changes to that mapping.
---
 skwdro/solvers/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skwdro/solvers/result.py b/skwdro/solvers/result.py
index 45672a2..484dc9a 100644
--- a/skwdro/solvers/result.py
+++ b/skwdro/solvers/result.py
@@ -3,7 +3,7 @@ from functools import wraps
 
 
 class SolverResult(Iterable):
-    def __init__(self, coef=None, intercept=None, dual_var=None, robust_loss=None, _iter_attrs=['coef', 'intercept', 'dual_var'], **kwargs):
+    def __init__(self, coef=None, intercept=None, dual_var=None, robust_loss=None, _iter_attrs=('coef', 'intercept', 'dual_var'), **kwargs):
         self.coef = coef
         self.intercept = intercept
         self.dual_var = dual_var
@@ -41,8 +41,8 @@ def wrap_solver_result(solver_func):
                 d['dual_var'] = legacy_res[2]
             if len(legacy_res) == 4:
                 d['robust_loss'] = legacy_res[3]
-            return SolverResult(**d, _iter_attrs=d.keys())
+            return SolverResult(**d, _iter_attrs=tuple(d.keys()))
         elif isinstance(legacy_res, dict):
-            return SolverResult(**legacy_res, _iter_attrs=legacy_res.keys())
+            return SolverResult(**legacy_res, _iter_attrs=tuple(legacy_res.keys()))
         raise RuntimeError("Invalid return from solver")
     return wrapper
-- 
2.43.0


From b9b0e978f50f11a8b345fa6945713cd5336f7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:46 +0000
Subject: [PATCH 15/24] fix: linear regression honours fit_intercept with the
 torch solvers

---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..d1253f2 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -181,7 +181,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(self.rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -241,4 +241,6 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         # Input validation
         X = check_array(X)
 
+        if self.intercept_ is None:
+            return X @ self.coef_
         return self.intercept_ + X @ self.coef_
-- 
2.43.0


From 5b0ae4fd904f620143da8358bbcbfeac07fdf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:46 +0000
Subject: [PATCH 16/24] fix: newsvendor hands its l2 penalty to the robust loss

---
 skwdro/operations_research/_newsvendor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..be67d6d 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -169,6 +169,7 @@ class NewsVendor(BaseEstimator):
                 learning_rate=self.learning_rate,
                 n_iter=self.n_iter,
                 adapt="prodigy" if self.learning_rate is None else None,
+                l2reg=self.l2_reg,
             )
             # Solve dual problem
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
-- 
2.43.0


From 035f5438ea119c491e0d787366e180eab8111b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:46 +0000
Subject: [PATCH 17/24] fix: portfolio pre and post sampling names were swapped

---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..17a97d6 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -223,7 +223,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From a4c406b6456e7f71585411bd48b7bcbf5b36b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:46 +0000
Subject: [PATCH 18/24] fix: portfolio score is minus the documented loss

---
 skwdro/operations_research/_portfolio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 17a97d6..2f85ea8 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -286,8 +286,10 @@ class Portfolio(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(pt.Tensor(X)).mean()
         elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+            losses = -X @ self.coef_
+            cvar = self.tau_ + np.maximum(losses - self.tau_, 0.) / self.alpha
+            return np.mean(losses + self.eta * cvar)
         else:
             raise (ValueError("Solver not recognized"))
-- 
2.43.0


From d2509e719917e618f86a184a3180c3bbef74eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:07 +0000
Subject: [PATCH 19/24] fix: class probabilities without intercept and with one
 feature

---
 skwdro/linear_models/_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..e526a42 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -311,7 +311,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
+                .squeeze(0)
                 .numpy()
             )
 
@@ -383,7 +383,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
-- 
2.43.0


From 49a49b742f243fd37edd5c3d309d274671ab0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:07 +0000
Subject: [PATCH 20/24] fix: Weber score takes the weights of the points

---
 skwdro/operations_research/_weber.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..7eeacf1 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -174,13 +174,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,) or None
+            The importance weights of the samples. All ones if None.
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y=None):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -188,6 +187,8 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,) or None
+            The importance weights of the samples. All ones if None.
         '''
 
         # Check that X has correct shape
@@ -196,7 +197,11 @@ class Weber(BaseEstimator):
         assert self.is_fitted_  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            weights = np.ones(len(X)) if y is None else np.array(y)
+            return self._wdro_loss.primal_loss.forward(
+                pt.Tensor(X),
+                pt.Tensor(weights.reshape(-1, 1))
+            ).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From a137a13362ae94872b9cfc27c588b784c1e39fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:27 +0000
Subject: [PATCH 21/24] fix: initial parameters are drawn after seeding with
 random_state

---
 skwdro/linear_models/_linear_regression.py   | 2 ++
 skwdro/linear_models/_logistic_regression.py | 2 ++
 skwdro/operations_research/_newsvendor.py    | 2 ++
 skwdro/operations_research/_portfolio.py     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index d1253f2..3f49542 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -179,6 +179,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 self.opt_cond = OptCondTorch(2)
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
                 nn.Linear(d, 1, bias=self.fit_intercept),
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index e526a42..6378c72 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -269,6 +269,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             loss = (
                 BiDiffSoftMarginLoss if _bilat else nn.CrossEntropyLoss
             )(reduction='none')
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self.wdro_loss_ = dualize_primal_loss(
                 loss,
                 nn.Linear(
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index be67d6d..683bdec 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -155,6 +155,8 @@ class NewsVendor(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 2f85ea8..fca3bcb 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -216,6 +216,8 @@ class Portfolio(BaseEstimator):
             if self.opt_cond is None:
                 self.opt_cond = OptCondTorch(2)
 
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
                                 risk_level=self.alpha_),
-- 
2.43.0


From ac3102d85c4c0e6035df442e3b2b50ca62d75a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:27 +0000
Subject: [PATCH 22/24] fix: a stopping rule forgets earlier runs when a new
 one starts

---
 skwdro/solvers/entropic_dual_torch.py | 2 ++
 skwdro/solvers/optim_cond.py          | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 6f76f5e..29d2253 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -97,6 +97,8 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
     optim_ = optim_presample if loss.presample else optim_postsample
 
     opt_cond: OptCondTorch = opt
+    # Start the run without memories of a previous one.
+    opt_cond.reset()
 
     losses = optim_(optimizer, xi, xi_labels, loss, opt_cond)
     theta = detach_tensor(loss.theta)
diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index 80447e2..6e404cf 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -109,6 +109,13 @@ class OptCondTorch:
 
         self.verbose = verbose
 
+        self.reset()
+
+    def reset(self) -> None:
+        """
+        Forget everything recorded by the previous calls, so that the next one
+        starts a new run.
+        """
         self.l_mem: Optional[pt.Tensor] = None
         self.t_mem: Optional[pt.Tensor] = None
         self.l_0: Optional[pt.Tensor] = None
-- 
2.43.0


From a637aec33c0307450ba6b5603927bef75bccf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:06 +0000
Subject: [PATCH 23/24] fix: dedicated newsvendor solver finds the robust
 decision

---
 skwdro/solvers/specific_solvers.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/skwdro/solvers/specific_solvers.py b/skwdro/solvers/specific_solvers.py
index c4db7fc..8f5968b 100644
--- a/skwdro/solvers/specific_solvers.py
+++ b/skwdro/solvers/specific_solvers.py
@@ -10,22 +10,14 @@ def WDRONewsvendorSpecificSolver(k=5., u=7., rho=1.0, samples=None):
     assert samples is not None
     z = np.sort(samples, axis=0)
     n = z.shape[0]
-    a = np.array([sum(z[:i, 0]) for i in range(n - 1)])
-    b = np.array([n * rho - z[i + 1, 0] for i in range(n - 1)])
-    c = np.array([n * rho] * (n - 1))
+    mass = np.cumsum(z[:, 0])
 
-    lower_bound = b < a
-    upper_bound = a <= c
+    # The budget allows to send the whole demand to zero
+    if mass[-1] <= n * rho:
+        return 0.0, 0.
 
-    if not lower_bound.any():
-        lambda_star = u
-        return SAANewsvendorSpecificSolver2(k=k, u=u, samples=samples)
-    elif not upper_bound.any():
-        lambda_star = 0
-        return 0, lambda_star
-    else:
-        condition = [upper_bound[i] and lower_bound[i] for i in range(n - 1)]
-        i_star = condition.index(True) + 1
+    # First sample that the budget does not allow to send to zero
+    i_star = np.argmax(mass > n * rho)
 
     s = np.minimum(z / z[i_star, 0], np.ones((n, 1)))
 
-- 
2.43.0


From 9d9a7a29cdda316c79636e4c999aa0c37b1de4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:44:09 +0000
Subject: [PATCH 24/24] fix: starting guess and importance sampling work with
 the built-in losses

---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index 86bb070..6310ae9 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -121,7 +121,7 @@ class _SampleDisplacer(_SampledDualLoss):
                 # give as inputs xi and xi_labels
                 (data.unsqueeze(0), maybe_unsqueeze(target, dim=0),)
             )
-            return loss.squeeze(0)
+            return loss.squeeze()
 
         grad_func = grad(
             # diff the loss
-- 
2.43.0

