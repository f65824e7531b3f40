From 4e78fdd751e5356e0faa425acf4914928c335798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 01/30] fix: horseshoe shrinkage conditionals pass rates where
 exponential draws take scales

srng.exponential takes a scale; the conditionals of the auxiliary and local
shrinkage parameters are exponential with the given *rates*.
---
 aemcmc/gibbs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 57743eb..7f60c9d 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -241,11 +241,13 @@ def horseshoe_posterior(
     lmbda2_inv = at.reciprocal(lambda2)
     tau2_inv = at.reciprocal(tau2)
 
-    upsilon_inv = srng.exponential(1 + lmbda2_inv)
-    zeta_inv = srng.exponential(1 + tau2_inv)
+    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))
+    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))
 
     beta2 = beta**2
-    lambda2_inv_new = srng.exponential(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    lambda2_inv_new = srng.exponential(
+        at.reciprocal(upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2)
+    )
     tau2_inv_new = srng.gamma(
         0.5 * (beta.shape[0] + 1),
         zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2,
-- 
2.43.0


From 6b664b530454f6978aa8d02d024bb899b441704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 02/30] fix: regression posterior adds the prior standard
 deviation's inverse, not the precision

lmbdatau_inv holds inverse prior standard deviations; the posterior precision
of the coefficients needs their squares in both the over- and the
underdetermined branch.
---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 7f60c9d..78ba659 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -45,7 +45,7 @@ def normal_regression_overdetermined_posterior(
     indices = at.arange(Q.shape[1])
     Q = at.subtensor.set_subtensor(
         Q[indices, indices],
-        at.diag(Q) + lmbdatau_inv,
+        at.diag(Q) + at.square(lmbdatau_inv),
     )
     return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)
 
@@ -64,7 +64,7 @@ def normal_regression_underdetermined_posterior(
     See `update_beta` for a description of the parameters and return value.
 
     """
-    return multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)
+    return multivariate_normal_cong2017(srng, at.square(lmbdatau_inv), omega, X, z)
 
 
 def normal_regression_posterior(
-- 
2.43.0


From d392ea21ac591539387e178aef33d584b99332f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 03/30] fix: gamma-Poisson posterior treats the matched prior
 scale as a rate

The matched prior parameter is the gamma's scale; the posterior rate is its
reciprocal plus one.
---
 aemcmc/conjugates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 2c2617f..1b83416 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -52,7 +52,11 @@ def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_e
 
     # Posterior distribution for p
     new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)
-    new_beta_et = etuple(etuplize(at.add), beta_lv, 1)
+    # `beta_lv` is the prior's *scale* (i.e. the inverse of its rate), while the
+    # posterior constructor takes a rate
+    new_beta_et = etuple(
+        etuplize(at.add), etuple(etuplize(at.reciprocal), beta_lv), 1
+    )
     z_posterior_et = etuple(
         partial(srng.gen, at.random.gamma),
         new_alpha_et,
-- 
2.43.0


From 227a6bb150599e40b6106d11223fff3bf27586e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 04/30] fix: conjugate posteriors are only used when
 observations and latents pair up element-wise

A latent that is broadcasted across observations got a posterior draw per
observation; such latents now get a NUTS step.
---
 aemcmc/conjugates.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/aemcmc/conjugates.py b/aemcmc/conjugates.py
index 1b83416..a14baf0 100644
--- a/aemcmc/conjugates.py
+++ b/aemcmc/conjugates.py
@@ -16,6 +16,16 @@ if TYPE_CHECKING:
     from aesara.tensor.random.utils import RandomStream
 
 
+def is_elementwise(observed_rv, latent_rv) -> bool:
+    """Determine whether each observation has its own element of a latent variable.
+
+    The closed-form posteriors below are computed element-wise, so they only
+    apply when the latent variable isn't broadcasted across observations.
+
+    """
+    return observed_rv.type.broadcastable == latent_rv.type.broadcastable
+
+
 def gamma_poisson_conjugateo(srng: "RandomStream", observed_rv_expr, posterior_expr):
     r"""Relation for the conjugate posterior of a gamma prior with a Poisson observation model.
 
@@ -86,6 +96,10 @@ def local_gamma_poisson_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     gamma_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise(rv_var, gamma_rv):
+        return None
+
     gamma_posterior = eval_if_etuple(res)
 
     return [(gamma_rv, gamma_posterior, None)]
@@ -160,6 +174,10 @@ def local_beta_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise(rv_var, beta_rv):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
@@ -237,6 +255,10 @@ def local_beta_negative_binomial_posterior(fgraph, node, srng):
         return None  # pragma: no cover
 
     beta_rv = rv_et[-1].evaled_obj
+
+    if not is_elementwise(rv_var, beta_rv):
+        return None
+
     beta_posterior = eval_if_etuple(res)
 
     return [(beta_rv, beta_posterior, None)]
-- 
2.43.0


From 93dbd714aae1c7c4c88f182a0cf8ee229bd9e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 05/30] fix: sampling steps accept the arguments OpFromGraph
 uses to rebuild them

NUTS takes gradients through graphs that contain other sampling steps; the
restricted constructor made that fail with a TypeError.
---
 aemcmc/types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aemcmc/types.py b/aemcmc/types.py
index 67a05d6..64491c6 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -16,8 +16,14 @@ class SamplingStep(OpFromGraph):
 
     """
 
-    def __init__(self, inputs: List[TensorVariable], outputs: List[TensorVariable]):
-        super().__init__(inputs, outputs, inline=True)
+    def __init__(
+        self,
+        inputs: List[TensorVariable],
+        outputs: List[TensorVariable],
+        inline: bool = True,
+        **kwargs,
+    ):
+        super().__init__(inputs, outputs, inline=inline, **kwargs)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From b7d6997c0d3cccfd5e8185454fe5d963d3590750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 06/30] fix: dispersion parameters that are plain inputs do not
 abort the negative-binomial regression finder

---
 aemcmc/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 78ba659..0f08a89 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -328,6 +328,9 @@ gamma_pattern = etuple(etuplize(at.random.gamma), var(), var(), var(), a_lv, b_l
 
 
 def gamma_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariable]:
+    if graph.owner is None:
+        raise ValueError("Not a gamma prior.")
+
     graph_et = etuplize(graph)
     s = unify(graph_et, gamma_pattern)
     if s is False:
-- 
2.43.0


From e746f3c851474d8273cc522750b3b65bf0cdb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 07/30] fix: sampler finders only register steps for variables
 that nothing else depends on

---
 aemcmc/rewriting.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 73ab76e..b65d3be 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -15,6 +15,7 @@ from aesara.tensor.elemwise import DimShuffle, Elemwise
 from aesara.tensor.random.op import RandomVariable
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.rewriting.shape import ShapeFeature
+from aesara.tensor.shape import Shape, Shape_i
 from aesara.tensor.var import TensorVariable
 from cons.core import _car
 from unification.core import _unify
@@ -124,6 +125,35 @@ class SamplerTracker(Feature):
         fgraph.sampler_mappings = self
 
 
+def only_influences(fgraph: FunctionGraph, rv: Variable, node: Apply) -> bool:
+    """Determine whether `node` is the only place in which the value of `rv` is used.
+
+    The posterior of `rv` given its parameters and `node` is only its full
+    conditional when nothing else in the model depends on `rv`, and when it
+    enters `node` once.
+
+    """
+    while True:
+        clients = [
+            client
+            for client, _ in fgraph.clients[rv]
+            if client != "output" and not isinstance(client.op, (Shape, Shape_i))
+        ]
+
+        if len(clients) != 1:
+            return False
+
+        (client,) = clients
+
+        if client is node:
+            return True
+
+        if isinstance(client.op, RandomVariable) or len(client.outputs) != 1:
+            return False
+
+        rv = client.outputs[0]
+
+
 def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
     """Construct a `NodeRewriter` that identifies sample steps.
 
@@ -164,6 +194,9 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
                 return None  # pragma: no cover
 
             for rv, posterior_rv, updates in rvs_and_posteriors:
+                if rv not in fgraph.clients or not only_influences(fgraph, rv, node):
+                    continue
+
                 sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                     (f.__name__, posterior_rv, updates)
                 )
-- 
2.43.0


From 0e8df8969e0abc81df833639aa63a7f4952b2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 08/30] fix: regression finders require the negated linear
 predictor and a zero-mean normal prior

---
 aemcmc/gibbs.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 0f08a89..b5afb3e 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -2,11 +2,13 @@ from typing import List, Mapping, Optional, Tuple
 
 import aesara
 import aesara.tensor as at
-from aesara.graph.basic import Variable
+from aesara.graph.basic import Constant, Variable
 from aesara.graph.rewriting.basic import in2out
 from aesara.graph.rewriting.db import LocalGroupDB
 from aesara.graph.rewriting.unify import eval_if_etuple
 from aesara.ifelse import ifelse
+from aesara.tensor.basic import get_scalar_constant_value
+from aesara.tensor.exceptions import NotScalarConstantError
 from aesara.tensor.math import Dot
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.basic import BernoulliRV, NegBinomialRV, NormalRV
@@ -131,6 +133,14 @@ def normal_regression_posterior(
     return beta_posterior
 
 
+def is_constant(x: Variable, value: float) -> bool:
+    """Determine whether every element of `x` is known to be equal to `value`."""
+    try:
+        return bool(get_scalar_constant_value(x) == value)
+    except NotScalarConstantError:
+        return isinstance(x, Constant) and bool((x.data == value).all())
+
+
 halfcauchy_1_lv, halfcauchy_2_lv = var(), var()
 zero_lv = var()
 horseshoe_pattern = etuple(
@@ -313,6 +323,16 @@ def normal_horseshoe_finder(fgraph, node, srng):
 gibbs_db.register("normal_horseshoe", normal_horseshoe_finder, "basic")
 
 
+def is_centered_normal(rv: Variable) -> bool:
+    """Determine whether `rv` is a vector of independent, zero-mean normals."""
+    return (
+        rv.owner is not None
+        and isinstance(rv.owner.op, NormalRV)
+        and rv.type.ndim == 1
+        and is_constant(rv.owner.inputs[3], 0)
+    )
+
+
 X_lv = var()
 beta_lv = var()
 neg_one_lv = var()
@@ -356,7 +376,7 @@ def nbinom_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a negative binomial regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a negative binomial regression. The argument to "
             + "the sigmoid must be minus the dot product."
@@ -366,6 +386,11 @@ def nbinom_sigmoid_dot_match(
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    if graph.type.ndim != 1 or X.type.ndim != 2 or not is_centered_normal(beta_rv):
+        raise ValueError(
+            "Not a negative binomial regression with a zero-mean normal prior."
+        )
+
     return X, h, beta_rv
 
 
@@ -672,7 +697,7 @@ def bern_sigmoid_dot_match(
     if s is False:
         raise ValueError("Not a Bernoulli regression.")
 
-    if all(s[neg_one_lv].data != -1):
+    if not is_constant(eval_if_etuple(s[neg_one_lv]), -1):
         raise ValueError(
             "Not a Bernoulli regression. The argument to the sigmoid "
             + "must be minus the dot product."
@@ -681,6 +706,9 @@ def bern_sigmoid_dot_match(
     beta_rv = eval_if_etuple(s[beta_lv])
     X = eval_if_etuple(s[X_lv])
 
+    if graph.type.ndim != 1 or X.type.ndim != 2 or not is_centered_normal(beta_rv):
+        raise ValueError("Not a Bernoulli regression with a zero-mean normal prior.")
+
     return X, beta_rv
 
 
-- 
2.43.0


From bcad3f0f9b69b4b918e9078fcd0182c78b336a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 09/30] fix: regression updates broadcast shared prior standard
 deviations to all coefficients

---
 aemcmc/gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index b5afb3e..d60be5e 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -633,7 +633,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
+    beta_std = at.broadcast_to(beta_rv.owner.inputs[4], beta_rv.shape)
     beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)
 
     # Build the `Op` corresponding to the sampling step
@@ -784,7 +784,7 @@ def bern_logistic_finder(fgraph, node, srng):
     except ValueError:  # pragma: no cover
         return None
 
-    beta_std = beta_rv.owner.inputs[4]
+    beta_std = at.broadcast_to(beta_rv.owner.inputs[4], beta_rv.shape)
     beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
 
     # Build the `Op` corresponding to the sampling step
-- 
2.43.0


From dcdc7efeacfdf1e33edcc1c027a34bdea854ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 10/30] fix: the horseshoe finder requires zero-mean
 coefficients and standard half-Cauchy shrinkage priors

---
 aemcmc/gibbs.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index d60be5e..ce7b0b6 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -191,6 +191,20 @@ def horseshoe_match(graph: TensorVariable) -> Tuple[TensorVariable, TensorVariab
             + "in your model must be one-dimensional."
         )
 
+    if (
+        graph.type.ndim != 1
+        or lmbda_rv.type.broadcastable != graph.type.broadcastable
+        or not is_constant(eval_if_etuple(s[zero_lv]), 0)
+        or not all(
+            is_constant(rv.owner.inputs[3], 0) and is_constant(rv.owner.inputs[4], 1)
+            for rv in (lmbda_rv, tau_rv)
+        )
+    ):
+        raise ValueError(
+            "Not a horseshoe prior. The coefficients must have zero mean and the "
+            + "shrinkage parameters standard half-Cauchy priors."
+        )
+
     return (lmbda_rv, tau_rv)
 
 
-- 
2.43.0


From df88a7ee0c80385a057177240de48c8e299d1615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 11/30] fix: accept symbolic transition matrices in ffbs_step

(N,) + Gammas.shape[-2:] is an element-wise addition when Gammas is a
TensorVariable, so only NumPy transition matrices were accepted.
---
 aemcmc/ffbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aemcmc/ffbs.py b/aemcmc/ffbs.py
index 6c33bf9..9d5a2b5 100644
--- a/aemcmc/ffbs.py
+++ b/aemcmc/ffbs.py
@@ -64,6 +64,7 @@ def ffbs_step(
     """
 
     gamma_0 = at.as_tensor(gamma_0)
+    Gammas = at.as_tensor(Gammas)
     log_lik = at.as_tensor(log_lik)
 
     # Number of observations
@@ -78,7 +79,7 @@ def ffbs_step(
 
     # Make sure we have a transition matrix for each element in a state
     # sequence
-    Gammas = at.broadcast_to(Gammas, (N,) + Gammas.shape[-2:])
+    Gammas = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))
 
     def forward_step(log_lik_T_n, Gamma_n, alpha_nm1):
         log_lik_n = log_lik_T_n.T
-- 
2.43.0


From 1fc3209eca0ec1c0d2bd5ff54702c53fa7abf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 12/30] fix: the Bernoulli regression update has the sign of
 the matched linear predictor

bern_sigmoid_dot_match requires sigmoid(-(X @ beta)), but
bern_normal_posterior documents and samples sigmoid(X @ beta), so the sampler
drew coefficients of the opposite sign.
---
 aemcmc/gibbs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index ce7b0b6..2c2e69a 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -799,7 +799,9 @@ def bern_logistic_finder(fgraph, node, srng):
         return None
 
     beta_std = at.broadcast_to(beta_rv.owner.inputs[4], beta_rv.shape)
-    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, X, y)
+    # The matched success probability is the sigmoid of *minus* `X @ beta`,
+    # whereas `bern_normal_posterior` is for the sigmoid of its linear predictor
+    beta_posterior = bern_normal_posterior(srng, beta_rv, beta_std, -X, y)
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-- 
2.43.0


From 62c7a9a4a06dadbfde54a997e0e0b35121c6ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 13/30] fix: expanding subsumed element-wise operations keeps
 the model's random variables

clone_replace also clones the replacement graphs, so the random variables below a
SubsumingElemwise became new, independent variables that no sampler step and no
value could be matched with.
---
 aemcmc/rewriting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index b65d3be..244bae3 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -5,7 +5,7 @@ from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tupl
 from aeppl.rewriting import MeasurableConversionTracker
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
-from aesara.graph.basic import Apply, Variable, clone_replace, io_toposort
+from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
 from aesara.graph.op import Op
@@ -418,11 +418,17 @@ def inline_SubsumingElemwise(fgraph, node):
     if not op.is_inline:
         return False  # pragma: no cover
 
-    res = clone_replace(
-        op.inner_outputs, {u: v for u, v in zip(op.inner_inputs, node.inputs)}
+    # The inner-graph is cloned, but the node's inputs must be used as they are:
+    # clones of the random variables in them would be new, independent variables
+    memo = clone_get_equiv(
+        [],
+        op.inner_outputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo={u: v for u, v in zip(op.inner_inputs, node.inputs)},
     )
 
-    return res
+    return [memo[out] for out in op.inner_outputs]
 
 
 expand_subsumptions = in2out(inline_SubsumingElemwise)
-- 
2.43.0


From 13fc67cc5972fcd4ca0e9f38293b32a2dfc2d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 14/30] fix: sampler steps no longer rewrite the model that
 NUTS samples from

The step graphs share nodes with the model graph and are modified in place, which
replaced variables by their initial values in the NUTS target.
---
 aemcmc/basic.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 701fc3d..0486958 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,6 +1,6 @@
 from typing import Dict, Tuple
 
-from aesara.graph.basic import Apply, Variable
+from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
 from aesara.tensor.random.utils import RandomStream
 from aesara.tensor.var import TensorVariable
@@ -50,6 +50,12 @@ def construct_sampler(
     # Replace occurrences of observed variables with their observed values
     posterior_sample_steps.update(obs_rvs_to_values)
 
+    # The sampler steps share nodes with the model graph, and the in-place
+    # replacements below would change the model: keep an unchanged copy of it
+    model_memo = clone_get_equiv(
+        [], fgraph.outputs, copy_inputs=False, copy_orphans=False
+    )
+
     # TODO FIXME: Get/extract `Scan`-generated updates
     posterior_updates: Dict[Variable, Variable] = {}
 
@@ -104,18 +110,21 @@ def construct_sampler(
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
         to_sample_rvs = {
-            rv: posterior_sample_steps[rv] for rv in list(rvs_without_samplers)
+            model_memo[rv]: posterior_sample_steps[rv]
+            for rv in list(rvs_without_samplers)
         }
         realized_values = {
-            rv: vv
+            model_memo[rv]: vv
             for rv, vv in posterior_sample_steps.items()
-            if rv not in to_sample_rvs
+            if rv not in rvs_without_samplers
         }
         (nuts_sample_steps, updates, nuts_parameters) = nuts.construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(nuts_sample_steps)
+        posterior_sample_steps.update(
+            {rv: nuts_sample_steps[model_memo[rv]] for rv in rvs_without_samplers}
+        )
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From 26098c683eda52448f61f8ee86843c6f2ab6c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 15/30] fix: the order of the NUTS variables does not depend on
 memory addresses

The variables without a specialised step were iterated in set order, i.e. in the
order of their addresses, so equal models got differently ordered samplers.
---
 aemcmc/basic.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 0486958..4b2b708 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -1,4 +1,4 @@
-from typing import Dict, Tuple
+from typing import Dict, List, Tuple
 
 from aesara.graph.basic import Apply, Variable, clone_get_equiv
 from aesara.graph.fg import FunctionGraph
@@ -60,7 +60,7 @@ def construct_sampler(
     posterior_updates: Dict[Variable, Variable] = {}
 
     parameters: Dict[Apply, Tuple[TensorVariable]] = {}
-    rvs_without_samplers = set()
+    rvs_without_samplers: List[TensorVariable] = []
 
     for rv in fgraph.outputs:
         if rv in obs_rvs_to_values:
@@ -69,7 +69,7 @@ def construct_sampler(
         rv_steps = discovered_samplers.get(rv)
 
         if not rv_steps:
-            rvs_without_samplers.add(rv)
+            rvs_without_samplers.append(rv)
             continue
 
         # TODO FIXME: Just choosing one for now, but we should consider them all.
@@ -110,8 +110,7 @@ def construct_sampler(
     # Use the NUTS sampler for the remaining variables
     if rvs_without_samplers:
         to_sample_rvs = {
-            model_memo[rv]: posterior_sample_steps[rv]
-            for rv in list(rvs_without_samplers)
+            model_memo[rv]: posterior_sample_steps[rv] for rv in rvs_without_samplers
         }
         realized_values = {
             model_memo[rv]: vv
-- 
2.43.0


From 8c957608d3de836f4a50ef0749cef8186d1d020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 16/30] fix: building a NUTS step leaves the model graph it is
 given unchanged

aeppl's joint_logprob modifies the graphs of its arguments in place.
---
 aemcmc/nuts.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 90a7b82..66d2e4a 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -12,7 +12,7 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, graph_inputs
+from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -94,10 +94,19 @@ def step(
     # of the realized variables. The placeholder nodes are defined in the
     # transformed space and will be replaced by their actual value when building
     # the NUTS kernel.
+    # `joint_logprob` modifies the graph it is given, hence the copy.
+    memo = clone_get_equiv(
+        [],
+        list(to_sample_rvs) + list(realized_rvs_to_values),
+        copy_inputs=False,
+        copy_orphans=False,
+    )
     logprob, placeholder_values = joint_logprob(
-        *to_sample_rvs.keys(),
-        realized=realized_rvs_to_values,
-        extra_rewrites=TransformValuesRewrite(transforms),
+        *(memo[rv] for rv in to_sample_rvs),
+        realized={memo[rv]: vv for rv, vv in realized_rvs_to_values.items()},
+        extra_rewrites=TransformValuesRewrite(
+            {memo[rv]: transform for rv, transform in transforms.items()}
+        ),
     )
 
     # Algorithms in `AeHMC` work with flat arrays so we need to ravel parameter
-- 
2.43.0


From 3683cafabd654143d65331d4bb6a6fa8af564437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 17/30] fix: NUTS transforms use the values of the variables
 the bounds depend on

The bounds of e.g. uniform(0, sigma) were taken from the model graph, i.e. from a
fresh draw of sigma instead of its current and its updated value.
---
 aemcmc/nuts.py | 55 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 66d2e4a..145ca2a 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -12,7 +12,7 @@ from aeppl.transforms import (
 )
 from aesara import config
 from aesara.compile.sharedvalue import SharedVariable
-from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs
+from aesara.graph.basic import Apply, clone_get_equiv, graph_inputs, io_toposort
 from aesara.graph.type import Constant
 from aesara.tensor.random import RandomStream
 from aesara.tensor.random.op import RandomVariable
@@ -85,8 +85,9 @@ def step(
     # when the support of each random variable's distribution is unconstrained. Get
     # the default transform that corresponds to each random variable.
     transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
+    current_values = {**realized_rvs_to_values, **to_sample_rvs}
     transformed_values = [
-        transform_forward(rv, vv, transforms[rv])
+        transform_forward(rv, vv, transforms[rv], current_values)
         for rv, vv in zip(to_sample_rvs, initial_values)
     ]
 
@@ -142,10 +143,20 @@ def step(
     # values back to the original space.
     (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
     transformed_params = rp_map.unravel_params(new_q)
-    results = {
-        rv: transform_backward(rv, transformed_params[pv], transforms[rv])
-        for rv, pv in zip(to_sample_rvs, placeholder_values)
-    }
+    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
+    new_values = dict(realized_rvs_to_values)
+    # A transform can depend on variables that come before in the graph
+    for node in io_toposort([], list(to_sample_rvs)):
+        for rv in node.outputs:
+            if rv in rvs_to_placeholders:
+                new_values[rv] = transform_backward(
+                    rv,
+                    transformed_params[rvs_to_placeholders[rv]],
+                    transforms[rv],
+                    new_values,
+                )
+
+    results = {rv: new_values[rv] for rv in to_sample_rvs}
 
     return (
         results,
@@ -192,10 +203,29 @@ def get_transform(rv: TensorVariable):
         return None
 
 
-def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_inputs(
+    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
+):
+    """Get the inputs of a random variable in terms of the values of the others."""
+    memo = clone_get_equiv(
+        list(rvs_to_values),
+        rv.owner.inputs,
+        copy_inputs=False,
+        copy_orphans=False,
+        memo=dict(rvs_to_values),
+    )
+    return [memo[inp] for inp in rv.owner.inputs]
+
+
+def transform_forward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Push variables to the transformed space."""
     if transform:
-        res = transform.forward(vv, *rv.owner.inputs)
+        res = transform.forward(vv, *transform_inputs(rv, rvs_to_values))
         if vv.name:
             res.name = f"{vv.name}_trans"
         return res
@@ -203,10 +233,15 @@ def transform_forward(rv: TensorVariable, vv: TensorVariable, transform: RVTrans
         return vv
 
 
-def transform_backward(rv: TensorVariable, vv: TensorVariable, transform: RVTransform):
+def transform_backward(
+    rv: TensorVariable,
+    vv: TensorVariable,
+    transform: RVTransform,
+    rvs_to_values: Dict[TensorVariable, TensorVariable],
+):
     """Pull variables back from the transformed space."""
     if transform:
-        res = transform.backward(vv, *rv.owner.inputs)
+        res = transform.backward(vv, *transform_inputs(rv, rvs_to_values))
         return res
     else:
         return vv
-- 
2.43.0


From a64d9b26d538cbe929aad0d5746c319e18287304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 18/30] fix: sums and products with constants keep them in the
 IR

---
 aemcmc/rewriting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 244bae3..64583c5 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -3,6 +3,7 @@ from functools import wraps
 from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tuple, Union
 
 from aeppl.rewriting import MeasurableConversionTracker
+from aesara import scalar as aes
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
 from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
@@ -393,6 +394,13 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
     new_outputs = node.op.make_node(*subsumed_inputs).outputs
 
     used_inputs = remove_constants(new_inputs)
+
+    if len(used_inputs) < len(new_inputs) and node.op.scalar_op in (aes.add, aes.mul):
+        # The constants aren't inputs of the new node, so a sum or product
+        # would look like one without them (e.g. `mul(2, x)` like `mul(x)`,
+        # which canonicalization replaces with `x`)
+        return None
+
     new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
 
     new_out = new_op(*used_inputs)
-- 
2.43.0


From b17b6f50776ff910638a016f5e43470941880d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 19/30] fix: steps that build on the samples of a variable
 without that step are not used

---
 aemcmc/basic.py     |  2 +-
 aemcmc/rewriting.py | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 4b2b708..1042e9a 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -37,7 +37,7 @@ def construct_sampler(
         obs_rvs_to_values
     )
 
-    fgraph.attach_feature(SamplerTracker(srng))
+    fgraph.attach_feature(SamplerTracker(srng, obs_rvs_to_values))
 
     _ = sampler_rewrites_db.query("+basic").rewrite(fgraph)
 
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 64583c5..11bbf73 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -106,8 +106,10 @@ def construct_ir_fgraph(
 class SamplerTracker(Feature):
     """A `Feature` that tracks potential sampler steps in a graph."""
 
-    def __init__(self, srng: RandomStream):
+    def __init__(self, srng: RandomStream, observed_rvs: Iterable[Variable] = ()):
         self.srng: RandomStream = srng
+        # Variables with known values, which need no sampler steps
+        self.observed_rvs: Set[Variable] = set(observed_rvs)
         # Maps variables to a list of tuples that each provide a description of
         # the posterior step, the posterior step's graph/output variable, and
         # any updates generated for the posterior step
@@ -195,8 +197,13 @@ def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):
                 return None  # pragma: no cover
 
             for rv, posterior_rv, updates in rvs_and_posteriors:
-                if rv not in fgraph.clients or not only_influences(fgraph, rv, node):
-                    continue
+                if (
+                    rv in sampler_mappings.observed_rvs
+                    or rv not in fgraph.clients
+                    or not only_influences(fgraph, rv, node)
+                ):
+                    # The posteriors after this one build on its samples
+                    break
 
                 sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                     (f.__name__, posterior_rv, updates)
-- 
2.43.0


From f29387097a84d1d6c5042ad977d2e641807f7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 20/30] fix: the dispersion update is used for a scalar
 dispersion only

---
 aemcmc/gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 2c2e69a..25242c0 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -663,6 +663,10 @@ def nbinom_logistic_finder(fgraph, node, srng):
     ] = [(beta_rv, beta_posterior, None)]
 
     # TODO: Should this be in a separate rewriter?
+    if h.type.ndim > 0:
+        # `nbinom_dispersion_posterior` is for a single dispersion parameter
+        return res
+
     try:
         a, b = gamma_match(h)
     except ValueError:  # pragma: no cover
-- 
2.43.0


From 79190e3cda8e1baf53dd006335d7f22ec0f338c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 21/30] fix: NUTS transforms use plain inputs that bounds
 consist of as they are

transform_inputs cloned inputs without owners, so that models with a bound
given by a plain input variable could not be compiled.
---
 aemcmc/nuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index 145ca2a..ef2a6d2 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -209,12 +209,13 @@ def transform_inputs(
     """Get the inputs of a random variable in terms of the values of the others."""
     memo = clone_get_equiv(
         list(rvs_to_values),
-        rv.owner.inputs,
+        # Outputs without owners would be cloned, too
+        [inp for inp in rv.owner.inputs if inp.owner],
         copy_inputs=False,
         copy_orphans=False,
         memo=dict(rvs_to_values),
     )
-    return [memo[inp] for inp in rv.owner.inputs]
+    return [memo.get(inp, inp) for inp in rv.owner.inputs]
 
 
 def transform_forward(
-- 
2.43.0


From 383c238476526739026f7ae95d8f5d05355d7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 22/30] fix: update the generators of the dispersion step with
 their own states

The kernel's updates were paired with the op's shared inputs by position, but
the inputs come in another order: the generator of the CRT draws was given the
state of the generator of the gamma draw, so later CRT and gamma draws used the
same random numbers.
---
 aemcmc/gibbs.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 25242c0..7c2744c 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -677,21 +677,18 @@ def nbinom_logistic_finder(fgraph, node, srng):
     h_posterior, updates = nbinom_dispersion_posterior(srng, h, p, a, b, y)
 
     # Build the `Op` corresponding to the sampling step
-    update_outputs = [h_posterior.owner.inputs[0].default_update]
-    update_outputs.extend(updates.values())
+    h_rng = h_posterior.owner.inputs[0]
+    rng_updates = {h_rng: h_rng.default_update, **updates}
 
-    outputs = [h_posterior] + update_outputs
+    outputs = [h_posterior, *rng_updates.values()]
     inputs = remove_constants([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
     h_posterior.name = f"{h.name or 'h'}_posterior"
 
-    updates_offset = len(inputs)
-    updates = {
-        h_posterior.owner.inputs[updates_offset]: h_posterior.owner.outputs[1],
-        h_posterior.owner.inputs[updates_offset + 1]: h_posterior.owner.outputs[2],
-    }
+    # Every generator is updated with its own new state
+    updates = dict(zip(rng_updates, h_posterior.owner.outputs[1:]))
 
     res.append((h, h_posterior, updates))
 
-- 
2.43.0


From 35fb89b17c86f3ee40e691fc274d716d0b2bb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 23/30] fix: update the generators of the NUTS step with their
 own states

The updates were paired with the op's shared inputs by position, but these
start with generators that have no explicit update, so generators got each
other's states or none.  Steps of other variables are now inputs of the NUTS
op: inside its graph their updates were lost when only they were computed.
---
 aemcmc/nuts.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/aemcmc/nuts.py b/aemcmc/nuts.py
index ef2a6d2..2cf64f8 100644
--- a/aemcmc/nuts.py
+++ b/aemcmc/nuts.py
@@ -170,6 +170,17 @@ def construct_sampler(
     to_sample_rvs: Dict[RandomVariable, TensorVariable],
     realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
 ) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
+    # The realized values can be the outputs of other sampling steps; these stay
+    # out of the `Op`'s inner graph, because their updates would be lost there
+    values_to_inputs = {
+        vv: vv.type(name=vv.name)
+        for vv in realized_rvs_to_values.values()
+        if vv.owner is not None
+    }
+    realized_rvs_to_values = {
+        rv: values_to_inputs.get(vv, vv) for rv, vv in realized_rvs_to_values.items()
+    }
+
     results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)
 
     # Build an `Op` that represents the NUTS sampling step
@@ -182,14 +193,13 @@ def construct_sampler(
     ]
     nuts_op = NUTSKernel(inputs, outputs)
 
-    posterior = nuts_op(*inputs)
+    inputs_to_values = {inp: vv for vv, inp in values_to_inputs.items()}
+    posterior = nuts_op(*(inputs_to_values.get(inp, inp) for inp in inputs))
     results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}
 
-    updates_input = posterior[0].owner.inputs[len(inputs) :]
-    updates_output = posterior[len(results) :]
-    updates = {
-        updates_input[i]: update_out for i, update_out in enumerate(updates_output)
-    }
+    # Every generator is updated with its own new state; those with a default
+    # update are inputs of the `Op`, too, but they are not in `updates`.
+    updates = dict(zip(updates, posterior[len(results) :]))
 
     return results, updates, {nuts_op: parameters}
 
-- 
2.43.0


From 23b11834afb6f327fd5ead3de96269db342c5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 24/30] fix: non-centered variables have independent noise for
 every element

---
 aemcmc/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 106d586..112b9ef 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -58,8 +58,10 @@ def location_scale_transform(in_expr, out_expr):
             sd_lv,
             etuple(
                 distribution_lv,
-                0,
-                1,
+                # These have the shapes of the parameters they stand for, so
+                # that every element gets its own noise when there's no size
+                etuple(at.zeros_like, mu_lv),
+                etuple(at.ones_like, sd_lv),
                 rng=rng_lv,
                 size=size_lv,
                 dtype=type_idx_lv,
-- 
2.43.0


From 819fd766a79e6ae919d1c00e1f98df95600d76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 25/30] fix: inverse gammas with a vector of ones as shape
 aren't reciprocals of scalar exponentials

---
 aemcmc/transforms.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/aemcmc/transforms.py b/aemcmc/transforms.py
index 112b9ef..d12d5c1 100644
--- a/aemcmc/transforms.py
+++ b/aemcmc/transforms.py
@@ -2,7 +2,7 @@ import aesara.tensor as at
 from etuples import etuple, etuplize
 from kanren import eq, lall
 from kanren.facts import Relation, fact
-from unification import var
+from unification import reify, var
 
 location_scale_family = Relation("location-scale-family")
 fact(location_scale_family, at.random.cauchy)
@@ -76,6 +76,16 @@ def location_scale_transform(in_expr, out_expr):
     )
 
 
+def scalaro(x):
+    """Produce a goal that fails when `x` is a term with dimensions."""
+
+    def scalaro_goal(S):
+        if getattr(reify(x, S), "ndim", 0) == 0:
+            yield S
+
+    return scalaro_goal
+
+
 def invgamma_exponential(invgamma_expr, invexponential_expr):
     r"""Produce a goal that represents the relation between the inverse gamma distribution
     and the inverse of an exponential distribution.
@@ -101,11 +111,11 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
         exponential distribution.
 
     """
-    c_lv = var()
+    one_lv, c_lv = var(), var()
     rng_lv, size_lv, dtype_lv = var(), var(), var()
 
     invgamma_et = etuple(
-        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, at.as_tensor(1.0), c_lv
+        etuplize(at.random.invgamma), rng_lv, size_lv, dtype_lv, one_lv, c_lv
     )
 
     exponential_et = etuple(
@@ -118,5 +128,10 @@ def invgamma_exponential(invgamma_expr, invexponential_expr):
     invexponential_et = etuple(at.true_divide, at.as_tensor(1.0), exponential_et)
 
     return lall(
-        eq(invgamma_expr, invgamma_et), eq(invexponential_expr, invexponential_et)
+        eq(invgamma_expr, invgamma_et),
+        # A constant also unifies with a vector of the same values, which would
+        # give the inverse gamma a shape that the exponential doesn't have
+        scalaro(one_lv),
+        eq(one_lv, at.as_tensor(1.0)),
+        eq(invexponential_expr, invexponential_et),
     )
-- 
2.43.0


From 81ec197491cf27efc8df995da6e033463b8ce8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 26/30] fix: updates are found when random variables share a
 chain of random states

---
 aemcmc/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index de295ec..db1184f 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -107,7 +107,10 @@ def get_rv_updates(
     rv_updates = {}
 
     for var in ancestors(rvs):
-        if not isinstance(var, SharedVariable) and not isinstance(var.type, RandomType):
+        if not isinstance(var, SharedVariable):
+            if isinstance(var.type, RandomType) and var.owner is None:
+                raise ValueError(f"There is no update for the non-shared {var}")
+
             continue
 
         # TODO: Consider making sure the updates correspond to "in-place"
-- 
2.43.0


From 6e2fe09da5976d44323864a17f90cd3b3b3ead5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 27/30] fix: prior replicates use different random states for
 variables drawn in loops

---
 aemcmc/utils.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index db1184f..f7f8521 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -3,6 +3,7 @@ from typing import TYPE_CHECKING, Dict, Optional, Tuple
 
 from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Constant, Variable, ancestors
+from aesara.scan.op import Scan
 from aesara.tensor import as_tensor_variable
 from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
@@ -106,7 +107,20 @@ def get_rv_updates(
     srng_updates = dict(srng.state_updates)
     rv_updates = {}
 
+    loop_updates = {}
+
     for var in ancestors(rvs):
+        if var.owner and isinstance(var.owner.op, Scan):
+            # The default updates of the shared variables used in a loop are
+            # the ones of a single iteration
+            node = var.owner
+            loop_updates.update(
+                zip(
+                    node.op.outer_shared(node.inputs),
+                    node.op.outer_shared_outs(node.outputs),
+                )
+            )
+
         if not isinstance(var, SharedVariable):
             if isinstance(var.type, RandomType) and var.owner is None:
                 raise ValueError(f"There is no update for the non-shared {var}")
@@ -129,4 +143,10 @@ def get_rv_updates(
         elif srng_update:
             rv_updates[var] = srng_update
 
+    rv_updates.update(
+        (var, update)
+        for var, update in loop_updates.items()
+        if isinstance(var, SharedVariable)
+    )
+
     return rv_updates
-- 
2.43.0


From 7296f06272f1a14a390ccc6e4664c5753e58c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 28/30] fix: draw Polya-Gamma variates for broadcast and
 strided parameters

---
 aemcmc/dists.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aemcmc/dists.py b/aemcmc/dists.py
index ecf5386..c252ff1 100644
--- a/aemcmc/dists.py
+++ b/aemcmc/dists.py
@@ -21,6 +21,10 @@ class PolyaGammaRV(RandomVariable):
     @classmethod
     def rng_fn(cls, rng, h, z, size=None):
         bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
+        if size is None:
+            # Without a size, `random_polyagamma` ignores the strides of its
+            # arguments and doesn't broadcast an `h` of length one
+            size = np.broadcast_shapes(np.shape(h), np.shape(z))
         return random_polyagamma(h, z, size=size, random_state=bg).astype(
             aesara.config.floatX
         )
-- 
2.43.0


From 1c8ba152421c56592772b1669d6f87c27a7e1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 29/30] fix: list the NUTS steps where they are in the scan

---
 aemcmc/basic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aemcmc/basic.py b/aemcmc/basic.py
index 1042e9a..105e145 100644
--- a/aemcmc/basic.py
+++ b/aemcmc/basic.py
@@ -121,9 +121,10 @@ def construct_sampler(
             srng, to_sample_rvs, realized_values
         )
 
-        posterior_sample_steps.update(
-            {rv: nuts_sample_steps[model_memo[rv]] for rv in rvs_without_samplers}
-        )
+        # These steps follow the steps found above, so they come last in the scan
+        for rv in rvs_without_samplers:
+            del posterior_sample_steps[rv]
+            posterior_sample_steps[rv] = nuts_sample_steps[model_memo[rv]]
         posterior_updates.update(updates)
         parameters.update(nuts_parameters)
 
-- 
2.43.0


From 40dd8744426e107f2cd967609cb96d43a31d5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 30/30] fix: construct samplers for models whose data are
 shared variables

Shared variables can't be explicit inputs of an OpFromGraph; the Gibbs kernels
and SubsumingElemwise failed on them, or took them as inputs and replaced their
default updates.
---
 aemcmc/gibbs.py     | 10 +++++-----
 aemcmc/rewriting.py | 16 +++++++++++++++-
 aemcmc/types.py     | 20 ++++++++++++++++++--
 aemcmc/utils.py     |  7 +++++++
 4 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/aemcmc/gibbs.py b/aemcmc/gibbs.py
index 7c2744c..0de2ac6 100644
--- a/aemcmc/gibbs.py
+++ b/aemcmc/gibbs.py
@@ -23,7 +23,7 @@ from aemcmc.dists import (
 )
 from aemcmc.rewriting import sampler_finder, sampler_finder_db
 from aemcmc.types import SamplingStep
-from aemcmc.utils import remove_constants
+from aemcmc.utils import get_explicit_inputs
 
 gibbs_db = LocalGroupDB(apply_all_rewrites=True)
 gibbs_db.name = "gibbs_db"
@@ -324,7 +324,7 @@ def normal_horseshoe_finder(fgraph, node, srng):
 
     # Build an `Op` for the sampling kernel
     outputs = [lambda_posterior, tau_posterior]
-    inputs = remove_constants([rv_var, lambda2, tau2])
+    inputs = get_explicit_inputs([rv_var, lambda2, tau2])
     gibbs = HorseshoeGibbsKernel(inputs, outputs)
 
     lambda_posterior, tau_posterior = gibbs(*inputs)
@@ -652,7 +652,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, h, y])
+    inputs = get_explicit_inputs([beta_rv, beta_std, X, h, y])
     gibbs = NBRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior = gibbs(*inputs)
@@ -681,7 +681,7 @@ def nbinom_logistic_finder(fgraph, node, srng):
     rng_updates = {h_rng: h_rng.default_update, **updates}
 
     outputs = [h_posterior, *rng_updates.values()]
-    inputs = remove_constants([h, p, a, b, y])
+    inputs = get_explicit_inputs([h, p, a, b, y])
     gibbs = DispersionGibbsKernel(inputs, outputs)
 
     h_posterior = gibbs(*inputs)
@@ -806,7 +806,7 @@ def bern_logistic_finder(fgraph, node, srng):
 
     # Build the `Op` corresponding to the sampling step
     outputs = [beta_posterior]
-    inputs = remove_constants([beta_rv, beta_std, X, y])
+    inputs = get_explicit_inputs([beta_rv, beta_std, X, y])
     gibbs = BernoulliRegressionGibbsKernel(inputs, outputs)
 
     beta_posterior: TensorVariable = gibbs(*inputs)  # type: ignore
diff --git a/aemcmc/rewriting.py b/aemcmc/rewriting.py
index 11bbf73..547fb16 100644
--- a/aemcmc/rewriting.py
+++ b/aemcmc/rewriting.py
@@ -6,6 +6,7 @@ from aeppl.rewriting import MeasurableConversionTracker
 from aesara import scalar as aes
 from aesara.compile.builders import OpFromGraph
 from aesara.compile.mode import optdb
+from aesara.compile.sharedvalue import SharedVariable
 from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
 from aesara.graph.features import AlreadyThere, Feature
 from aesara.graph.fg import FunctionGraph
@@ -408,7 +409,20 @@ def local_elemwise_dimshuffle_subsume(fgraph, node):
         # which canonicalization replaces with `x`)
         return None
 
-    new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)
+    # Shared variables can't be inputs of the inner-graph
+    memo = {
+        inp: inp.type() if isinstance(inp, SharedVariable) else inp
+        for inp in used_inputs
+    }
+    clone_get_equiv(
+        used_inputs, new_outputs, copy_inputs=False, copy_orphans=False, memo=memo
+    )
+
+    new_op = SubsumingElemwise(
+        [memo[inp] for inp in used_inputs],
+        [memo[out] for out in new_outputs],
+        inline=True,
+    )
 
     new_out = new_op(*used_inputs)
 
diff --git a/aemcmc/types.py b/aemcmc/types.py
index 64491c6..5313113 100644
--- a/aemcmc/types.py
+++ b/aemcmc/types.py
@@ -3,7 +3,9 @@ from dataclasses import dataclass, field
 from typing import Dict, List, Optional, Tuple
 
 from aesara.compile.builders import OpFromGraph
-from aesara.graph.basic import Variable
+from aesara.compile.sharedvalue import SharedVariable
+from aesara.graph.basic import Variable, graph_inputs
+from aesara.tensor.random.type import RandomType
 from aesara.tensor.var import TensorVariable
 
 
@@ -23,7 +25,21 @@ class SamplingStep(OpFromGraph):
         inline: bool = True,
         **kwargs,
     ):
-        super().__init__(inputs, outputs, inline=inline, **kwargs)
+        # `OpFromGraph` replaces the default updates of the shared variables it
+        # finds, which is only meant for the ones it updates (i.e. generators)
+        default_updates = {
+            var: var.default_update
+            for var in graph_inputs(outputs)
+            if isinstance(var, SharedVariable) and not isinstance(var.type, RandomType)
+        }
+        for var in default_updates:
+            var.default_update = None
+
+        try:
+            super().__init__(inputs, outputs, inline=inline, **kwargs)
+        finally:
+            for var, update in default_updates.items():
+                var.default_update = update
 
 
 @dataclass(frozen=True)
diff --git a/aemcmc/utils.py b/aemcmc/utils.py
index f7f8521..aea41e6 100644
--- a/aemcmc/utils.py
+++ b/aemcmc/utils.py
@@ -81,6 +81,13 @@ def remove_constants(inputs):
     return res
 
 
+def get_explicit_inputs(inputs):
+    """Get the inputs that an inner-graph doesn't find by itself."""
+    return [
+        inp for inp in remove_constants(inputs) if not isinstance(inp, SharedVariable)
+    ]
+
+
 def get_rv_updates(
     srng: "RandomStream", *rvs: TensorVariable
 ) -> Dict[SharedVariable, "Variable"]:
-- 
2.43.0

