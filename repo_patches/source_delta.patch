From 5b72a893105fbd18ea316de8e2f21992f760d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 01/20] fix: inline jit bodies instead of applying jit to each
 coefficient

Applying a nonlinear (or affine) jit-compiled function separately to each
Taylor coefficient produces invalid bounds.
---
 autobound/jax/jax_bound.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..e9fa036 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -103,6 +103,10 @@ def taylor_bounds(
 
     closed_jaxpr = jaxpr_factory(x0)
     jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+    if _has_jit_eqn(jaxpr):
+      closed_jaxpr = jax.make_jaxpr(
+          lambda x: _eval_with_jit_inlined(jaxpr, closed_jaxpr.consts, x))(x0)
+      jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
 
     x0 = jnp.asarray(x0)
     if x0.ndim == 0:
@@ -299,7 +303,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -312,6 +315,31 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   return jaxpr
 
 
+def _has_jit_eqn(jaxpr: jex.core.Jaxpr) -> bool:
+  return any(eqn.primitive == jex.core.primitives.jit_p for eqn in jaxpr.eqns)
+
+
+def _eval_with_jit_inlined(jaxpr: jex.core.Jaxpr, consts, *args):
+  """Evaluates a Jaxpr, tracing through the bodies of any `jit` equations."""
+  env = dict(zip(jaxpr.constvars, consts))
+  env.update(zip(jaxpr.invars, args))
+  def read(v):
+    return v.val if isinstance(v, jex.core.Literal) else env[v]
+  for eqn in jaxpr.eqns:
+    invals = [read(v) for v in eqn.invars]
+    if eqn.primitive == jex.core.primitives.jit_p:
+      body = eqn.params['jaxpr']
+      outvals = _eval_with_jit_inlined(
+          _rewrite_jaxpr(body.jaxpr), body.consts, *invals)
+    else:
+      subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+      outvals = eqn.primitive.bind(*subfuns, *invals, **bind_params)
+      if not eqn.primitive.multiple_results:
+        outvals = [outvals]
+    env.update(zip(eqn.outvars, outvals))
+  return [read(v) for v in jaxpr.outvars]
+
+
 @dataclasses.dataclass
 class _IntermediateEnclosure:
   """An enclosure for some intermediate variable in a Jaxpr."""
-- 
2.43.0


From b84868a59ae3dda5e0c1e0139b275996446384a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 02/20] fix: don't count dot_general batch dims as contracting
 dims

The axis permutation was wrong for dot_general with batch dimensions when x
is a vector, giving invalid bounds.
---
 autobound/jax/jax_bound.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index e9fa036..d0701b6 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -425,9 +425,9 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    # dimension_numbers is ((lhs_contracting_dims, rhs_contracting_dims),
+    #                       (lhs_batch_dims, rhs_batch_dims)).
+    a_contracting_dims = set(params['dimension_numbers'][0][0])
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-- 
2.43.0


From 00799fd25565ca6f9c788307f634182c4cd0364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 03/20] fix: keep truncated terms in compose_enclosures

When the elementwise enclosure has degree greater than max_degree, the terms
above max_degree are folded into coefficient max_degree and were dropped.
---
 autobound/enclosure_arithmetic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..a39caa7 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -242,14 +242,15 @@ class TaylorEnclosureArithmetic:
       else:
         poly = self.power(arg_diff_enclosure, p)
         term = tuple(
-            # The special-casing when i < p ensures that the TaylorEnclosure
+            # The special-casing when i < p (and the ith coefficient was not
+            # produced by truncation to max_degree) ensures that the TaylorEnclosure
             # returned by this function will not contain trivial intervals
             # the form (x, x).
             #
             # The issue is that the first p elements of 'poly' are guaranteed
             # to be 0, but the expression below can express this as the interval
             # (0, 0).
-            0 if i < p else interval_left_broadcasting_multiply(coefficient, t)
+            0 if i < min(p, self.max_degree) else interval_left_broadcasting_multiply(coefficient, t)
             for i, t in enumerate(poly)
         )
       output = self.add(output, term)
-- 
2.43.0


From 18cc2ade68008f349897e6f868d8abc3660715a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 04/20] fix: allow integer-valued float exponents in
 TaylorEnclosureArithmetic.power

x**2. raised TypeError in range().
---
 autobound/enclosure_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index a39caa7..a34982d 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -333,7 +333,7 @@ class TaylorEnclosureArithmetic:
       multiplicative_identity = self.np_like.ones_like(a0)
       result = polynomials.integer_power(  # pytype: disable=wrong-arg-types
           a,
-          p,
+          int(p),
           self.set_arithmetic.add,
           self.np_like.asarray(0),
           multiplicative_identity,
-- 
2.43.0


From cb10872347dc289ecf9105d2d14858706d03838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 05/20] fix: align batch dimensions in compose_enclosures

If an enclosure coefficient has fewer batch dimensions than the elementwise
enclosure (e.g. after adding a scalar to an array), x dimensions were
multiplied by batch dimensions, giving invalid bounds.
---
 autobound/enclosure_arithmetic.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index a34982d..d37ba3c 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -230,9 +230,13 @@ class TaylorEnclosureArithmetic:
     arg_diff_enclosure = (0,) + arg_enclosure[1:]
     output = TaylorEnclosure((self.np_like.array(0),))
 
-    def interval_left_broadcasting_multiply(a, b):
-      bilinear = functools.partial(_left_broadcasting_multiply,
-                                   np_like=self.np_like)
+    x_ndim = self.np_like.ndim(self.trust_region[0])
+
+    def interval_batched_multiply(a, b, i):
+      # Multiplies a, which has no x dimensions, by coefficient i of an
+      # enclosure.  Batch dimensions are broadcast separately from x dimensions.
+      bilinear = functools.partial(_pairwise_batched_multiply,
+                                   p=0, q=i*x_ndim, np_like=self.np_like)
       return self.set_arithmetic.arbitrary_bilinear(a, b, bilinear,
                                                     assume_product=True)
 
@@ -242,15 +246,16 @@ class TaylorEnclosureArithmetic:
       else:
         poly = self.power(arg_diff_enclosure, p)
         term = tuple(
-            # The special-casing when i < p (and the ith coefficient was not
-            # produced by truncation to max_degree) ensures that the TaylorEnclosure
+            # The special-casing when i < p ensures that the TaylorEnclosure
             # returned by this function will not contain trivial intervals
-            # the form (x, x).
+            # the form (x, x).  It does not apply when i == self.max_degree,
+            # because that coefficient also encloses higher-degree terms.
             #
             # The issue is that the first p elements of 'poly' are guaranteed
             # to be 0, but the expression below can express this as the interval
             # (0, 0).
-            0 if i < min(p, self.max_degree) else interval_left_broadcasting_multiply(coefficient, t)
+            0 if i < min(p, self.max_degree)
+            else interval_batched_multiply(coefficient, t, i)
             for i, t in enumerate(poly)
         )
       output = self.add(output, term)
-- 
2.43.0


From 1e048844ef5293066215f7b3a9ca118d769f7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/20] fix: pow_enclosure for integer powers when the trust
 region straddles zero

When exponent - degree is even and positive the remainder ratio is not
monotone over a trust region that contains zero, and the returned interval
was too narrow.
---
 autobound/primitive_enclosures.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..55bbba1 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -166,10 +166,14 @@ def pow_enclosure(exponent: float,
       endpoint_if_possibly_zero = -np_like.inf if i == 0 else np_like.inf
     else:
       endpoint_if_always_negative = enc_neg[-1][i]
+      endpoints = [endpoint_if_always_positive, endpoint_if_always_negative]
+      if enc_pos is not enc_neg:
+        # The (degree)th derivative is c * x**(exponent - degree), where c > 0
+        # and exponent - degree is even.  It is not monotone over the trust
+        # region, and its minimum value is 0.
+        endpoints.append(np_like.zeros_like(endpoint_if_always_positive))
       endpoint_if_possibly_zero = functools.reduce(
-          np_like.minimum if i == 0 else np_like.maximum,
-          [endpoint_if_always_positive, endpoint_if_always_negative]
-      )
+          np_like.minimum if i == 0 else np_like.maximum, endpoints)
     return np_like.where(
         a >= 0,
         endpoint_if_always_positive,
-- 
2.43.0


From 6faa98ab2c71c74cdc6b4aa614dff9a0738db660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 07/20] fix: reject non-linear (float to integer)
 convert_element_type

Truncation was applied separately to each Taylor coefficient, giving invalid
bounds.
---
 autobound/jax/jax_bound.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index d0701b6..b9ea864 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -471,6 +471,13 @@ def _intersect_intervals(
 
 def _pass_thru_pushforward_fun(primitive):
   def fun(intermediate, **params):
+    if primitive == jax.lax.convert_element_type_p:
+      c = intermediate.enclosure[-1]
+      dtype = jnp.result_type(c[0] if isinstance(c, tuple) else c)
+      if (jnp.issubdtype(dtype, jnp.inexact) and
+          not jnp.issubdtype(params['new_dtype'], jnp.inexact)):
+        # Rounding to an integer is not linear.
+        raise NotImplementedError((primitive, dtype, params['new_dtype']))
     return enclosure_arithmetic.map_over_enclosure(
         intermediate.enclosure,
         functools.partial(primitive.bind, **params)
-- 
2.43.0


From ed925873876cec8df2f30236b990cdae96845ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 08/20] fix: broadcast_in_dim for vector x

broadcast_dimensions did not account for the x dimensions of coefficients, and
interval coefficients were not handled.
---
 autobound/jax/jax_bound.py | 48 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index b9ea864..98d3cbb 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -357,26 +357,31 @@ class _IntermediateEnclosure:
       return self.enclosure[0]  # pytype: disable=bad-return-type
 
 
-def _broadcast_in_dim_pushforward_fun(intermediate, shape,
-                                      broadcast_dimensions,
-                                      **unused_kwargs):
-  """Enclosure-generating function for jax.lax.broadcast_in_dim."""
-  enclosure = intermediate.enclosure
-  x0 = enclosure[0]
-  if isinstance(x0, tuple):
-    x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
-  def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
-  def broadcast_ndarray_or_interval(a, i):
-    if isinstance(a, tuple):
-      return tuple(broadcast_ndarray(x, i) for x in a)
-    else:
-      return broadcast_ndarray(a, i)
-  return tuple(
-      broadcast_ndarray_or_interval(coeff, i)
-      for i, coeff in enumerate(enclosure)
-  )
+def _broadcast_in_dim_pushforward_fun(arithmetic):
+  """Returns function that implements broadcast_in_dim on enclosures."""
+  x_shape = arithmetic.set_arithmetic.shape(arithmetic.trust_region)
+  def fun(intermediate, shape, broadcast_dimensions, **unused_kwargs):
+    enclosure = intermediate.enclosure
+    operand_shape = arithmetic.set_arithmetic.shape(enclosure[0])
+    def broadcast_ndarray(a, i):
+      # The x dimensions of coefficient i come after the operand's dimensions,
+      # and must not be broadcast along with them.
+      x_dims = i*x_shape
+      a = jnp.broadcast_to(a, operand_shape + x_dims)
+      return jax.lax.broadcast_in_dim(
+          a, shape + x_dims,
+          broadcast_dimensions + tuple(
+              range(len(shape), len(shape) + len(x_dims))))
+    def broadcast_ndarray_or_interval(a, i):
+      if isinstance(a, tuple):
+        return tuple(broadcast_ndarray(x, i) for x in a)
+      else:
+        return broadcast_ndarray(a, i)
+    return tuple(
+        broadcast_ndarray_or_interval(coeff, i)
+        for i, coeff in enumerate(enclosure)
+    )
+  return fun
 
 
 def _constant_intermediate_enclosure(val: types.NDArray):
@@ -525,7 +530,8 @@ def _pushforward_funs(
       jax.lax.dot_general_p: _dot_general_pushforward_fun(arithmetic),
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
-      jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun,
+      jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun(
+          arithmetic),
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-- 
2.43.0


From 1a4c6495f967945579a5c6fe68e80f7d2e07c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 09/20] fix: give every coefficient the full shape of the
 variable it encloses

Coefficients with missing batch dimensions (e.g. after adding a scalar to an
array) could be combined along the wrong axis, e.g. by a dot_general with batch
dimensions and no contracting dimensions, giving invalid bounds.
---
 autobound/jax/jax_bound.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 98d3cbb..9c7fb5e 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -206,7 +206,10 @@ def taylor_bounds(
         assert isinstance(intermediate.enclosure, tuple), (
             eqn.primitive, intermediate)
         _validate_taylor_enclosure(intermediate.enclosure, x0.shape)
-        var_to_intermediate[var] = intermediate
+        var_to_intermediate[var] = dataclasses.replace(
+            intermediate,
+            enclosure=_broadcast_taylor_enclosure(
+                intermediate.enclosure, var.aval.shape, x0.shape))
 
     assert len(jaxpr.outvars) == 1
     output_intermediate = get_intermediate(jaxpr.outvars[0])
@@ -384,6 +387,20 @@ def _broadcast_in_dim_pushforward_fun(arithmetic):
   return fun
 
 
+def _broadcast_taylor_enclosure(
+    a: types.TaylorEnclosure, shape, x_shape) -> types.TaylorEnclosure:
+  """Broadcasts each coefficient to the shape of the enclosed variable."""
+  # Coefficients can have fewer batch dimensions than the variable they
+  # describe, e.g. after adding a scalar to an array.  We must not let
+  # primitives confuse x dimensions with the missing batch dimensions.
+  def broadcast(c, i):
+    return jnp.broadcast_to(c, shape + i*x_shape)
+  return types.TaylorEnclosure(tuple(
+      tuple(broadcast(x, i) for x in c) if isinstance(c, tuple)
+      else broadcast(c, i)
+      for i, c in enumerate(a)))
+
+
 def _constant_intermediate_enclosure(val: types.NDArray):
   return _IntermediateEnclosure(enclosure=types.TaylorEnclosure((val,)),
                                 trust_region=(val, val))
-- 
2.43.0


From 05ae912e18159f9bc2e838679e6925445e256a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 10/20] fix: add missing local extrema of the 4th and 5th
 derivatives of swish

swish''''  also has local minima at about +-5.4 (and the 5th derivative local
extrema at about +-6.36), so e.g. the degree 4 enclosure of swish at x0=6 over
[2, 20] was not valid.
---
 autobound/elementwise_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..3d8c2f6 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -349,8 +349,11 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData((-6.3619922836816905, -0.7177419231466055,
+                      2.5062894864026024),
+                     (-2.506289486402605, 0.7177419231466035,
+                      6.3619922836816905)),
 }
-- 
2.43.0


From 35e6cc9c5129433f9c1fe4365c8e60ac2d31c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 11/20] fix: get_range when an interval contains a local but
 not the global extremum

maximum_value returned the largest local maximum contained in the interval
even if the function is larger at an end point, e.g. the range of the third
derivative of swish over [-.5, 4.5]. Enclosures of swish (degrees 3, 4),
sigmoid (degree 4) and softplus (degree 5) were not valid.
---
 autobound/elementwise_functions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 3d8c2f6..951cd1f 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -208,12 +208,14 @@ def maximum_value(f,
   """Returns maximum value of `f` over `[x_min, x_max]`."""
   if not local_maxima:
     return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
+  # Note: a local maximum inside the interval is not necessarily the maximum
+  # over the interval, because the interval might cut off a larger one.
+  x = local_maxima[0]
+  other_value = maximum_value(f, x_min, x_max, local_maxima[1:], np_like)
   return np_like.where(
       np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+      np_like.maximum(f(x), other_value),
+      other_value)
 
 
 def minimum_value(f,
@@ -224,12 +226,14 @@ def minimum_value(f,
   """Returns minimum value of `f` over `[x_min, x_max]`."""
   if not local_minima:
     return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
+  # Note: a local minimum inside the interval is not necessarily the minimum
+  # over the interval, because the interval might cut off a smaller one.
+  x = local_minima[0]
+  other_value = minimum_value(f, x_min, x_max, local_minima[1:], np_like)
   return np_like.where(
       np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+      np_like.minimum(f(x), other_value),
+      other_value)
 
 
 def _get_range(f,
-- 
2.43.0


From 433b22c557a81e630eb943cf7628d9ec40cf6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 12/20] fix: negative powers over a trust region that ends at
 zero

---
 autobound/primitive_enclosures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 55bbba1..9ccc81e 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -178,7 +178,9 @@ def pow_enclosure(exponent: float,
         a >= 0,
         endpoint_if_always_positive,
         np_like.where(
-            b <= 0,
+            # A negative power has a pole at 0, and its value there is that of
+            # the limit from above.
+            b < 0 if exponent < 0 else b <= 0,
             endpoint_if_always_negative,
             endpoint_if_possibly_zero
         )
-- 
2.43.0


From d0da828143c654ee6ba13d23995ff4d5b01a28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 13/20] fix: compare the types of literals (Literal has no
 dtype or shape attribute)

---
 autobound/jax/jaxpr_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..ba17bef 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -246,7 +246,7 @@ def _equiv_literals(l0: jex.core.Literal,
   if l0.val != l1.val:
     return False
   for name in ['dtype'] if ignore_shape else ['dtype', 'shape']:
-    if getattr(l0, name, None) != getattr(l1, name, None):
+    if getattr(l0.aval, name, None) != getattr(l1.aval, name, None):
       return False
   return True
 
-- 
2.43.0


From af093a8853c6ee3f5052410d4a9f7220f0e5fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 14/20] fix: compare the constants of closed Jaxprs in equation
 parameters

---
 autobound/jax/jaxpr_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index ba17bef..66cb916 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -21,6 +21,7 @@ from typing import Any, Union
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -220,11 +221,12 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
+      if not all(c0 is c1 or np.array_equal(c0, c1)
+                 for c0, c1 in zip(v0.consts, v1.consts)):
+        return False
     elif isinstance(v0, jex.core.Jaxpr):
       if not _same_jaxpr_up_to_variable_renaming(v0, v1, ignore_shape=True):
         return False
-- 
2.43.0


From 397d2074542a7f173802270def4479f1ff90c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 15/20] fix: graph_editor.replace keeps an occurrence whose
 interior variables are used elsewhere

---
 autobound/graph_editor.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..a90b1c4 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -105,6 +105,23 @@ def match(
   return vertex_map
 
 
+def _defined_variables(
+    operations: Sequence[Operation]) -> set[IntermediateVariable]:
+  variables = set()
+  for e in operations:
+    variables.update(e.outputs)
+  return variables
+
+
+def _is_used(
+    variables: set[IntermediateVariable],
+    operations: Sequence[Operation],
+    outputs: Sequence[IntermediateVariable]) -> bool:
+  """Returns whether the operations or outputs use any of the variables."""
+  return (any(v in variables for v in outputs) or
+          any(any(v in variables for v in e.inputs) for e in operations))
+
+
 def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
@@ -114,7 +131,8 @@ def replace(
   """Perform a search/replace on a ComputationGraph.
 
   This method greedily replaces occurences of a given operation sequence
-  `pattern` with an operation sequence `replacement`.
+  `pattern` with an operation sequence `replacement`.  An occurrence is kept if
+  a variable it defines, but the replacement does not, is used elsewhere.
 
   Args:
     pattern: a sequence of `Operations`
@@ -136,8 +154,11 @@ def replace(
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
-    if m is not None:
-      output_operations.extend([e.subs(m) for e in replacement])
+    new_operations = None if m is None else [e.subs(m) for e in replacement]
+    if new_operations is not None and not _is_used(
+        _defined_variables(subgraph) - _defined_variables(new_operations),
+        subject.operations[i+k:], subject.outputs):
+      output_operations.extend(new_operations)
       i += k
     else:
       output_operations.append(subject.operations[i])
-- 
2.43.0


From b937f227715243c931e314b21d52e6910b3836d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 16/20] fix: jaxpr_editor.replace refuses outputs that no
 equation computes instead of returning a broken Jaxpr

---
 autobound/jax/jaxpr_editor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 66cb916..b07a0b2 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -64,6 +64,11 @@ def replace(pattern: jex.core.Jaxpr,
     raise ValueError()
   if pattern.constvars or replacement.constvars:
     raise NotImplementedError()
+  for jaxpr in (pattern, replacement):
+    if any(isinstance(v, jex.core.Literal) or v in jaxpr.invars
+           for v in jaxpr.outvars):
+      # No equation computes this output.
+      raise NotImplementedError()
   pattern_graph = _jaxpr_to_graph(pattern)
   # When creating the replacement graph, offset the variable counts to keep
   # them unique.
-- 
2.43.0


From c0e128992fb6711efab0caed0dc72331d5d865c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 17/20] fix: jaxpr_editor.replace names the replacement's
 variables apart from the subject's, with hashable literals

---
 autobound/jax/jaxpr_editor.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index b07a0b2..c6b7e43 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -16,7 +16,7 @@
 
 import itertools
 import types
-from typing import Any, Union
+from typing import Union
 
 from autobound import graph_editor
 import jax
@@ -70,11 +70,13 @@ def replace(pattern: jex.core.Jaxpr,
       # No equation computes this output.
       raise NotImplementedError()
   pattern_graph = _jaxpr_to_graph(pattern)
+  subject_graph = _jaxpr_to_graph(subject)
   # When creating the replacement graph, offset the variable counts to keep
   # them unique.
   max_count = max(
       v[1] if v[0] else -1  # pytype: disable=unsupported-operands
-      for v in pattern_graph.intermediate_variables()
+      for v in itertools.chain(pattern_graph.intermediate_variables(),
+                               subject_graph.intermediate_variables())
   )
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
@@ -91,7 +93,7 @@ def replace(pattern: jex.core.Jaxpr,
   hypergraph = graph_editor.replace(
       pattern_graph.operations,
       replacement_operations,
-      _jaxpr_to_graph(subject),
+      subject_graph,
       _can_bind,
   )
   return _graph_to_jaxpr(hypergraph)
@@ -115,6 +117,23 @@ class _EqnData:
     return f'_EqnData({self.primitive}, {self.params})'
 
 
+class _LiteralValue:
+  """The value of a jex.core.Literal (which itself may not be hashable)."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return (isinstance(other, _LiteralValue) and
+            np.array_equal(self.val, other.val))
+
+  def __hash__(self):
+    return hash(np.shape(self.val))
+
+  def __repr__(self):
+    return f'_LiteralValue({self.val})'
+
+
 # An intermediate variable is a tuple that either represents a jex.core.Var or
 # a jex.core.Literal.
 _IntermediateVariable = Union[
@@ -122,8 +141,8 @@ _IntermediateVariable = Union[
     # a jex.core.Var, and is of the form (True, count, aval).
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
-    # a jex.core.Literal, and is of the form (False, val, aval).
-    tuple[bool, Any, jax.core.AbstractValue]
+    # a jex.core.Literal, and is of the form (False, _LiteralValue(val), aval).
+    tuple[bool, _LiteralValue, jax.core.AbstractValue]
 ]
 
 
@@ -148,7 +167,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralValue(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -185,8 +204,8 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
         count_to_var[count] = v
       return count_to_var[count]
     else:
-      _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      _, literal_value, aval = vertex
+      return jex.core.Literal(literal_value.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From 43f90086e45d61eb7d97736fb0950574617ca900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 18/20] fix: graph_editor.replace keeps an occurrence whose
 results feed an input of the pattern

---
 autobound/graph_editor.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index a90b1c4..dc4bbb9 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -122,6 +122,17 @@ def _is_used(
           any(any(v in variables for v in e.inputs) for e in operations))
 
 
+def _binds_input_to_output(
+    mapping: Mapping[IntermediateVariable, IntermediateVariable],
+    pattern: Sequence[Operation],
+    subject: Sequence[Operation]) -> bool:
+  """Returns whether an input of the pattern is an output of the subject."""
+  pattern_outputs = _defined_variables(pattern)
+  subject_outputs = _defined_variables(subject)
+  return any(any(u not in pattern_outputs and mapping[u] in subject_outputs
+                 for u in e.inputs) for e in pattern)
+
+
 def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
@@ -132,7 +143,8 @@ def replace(
 
   This method greedily replaces occurences of a given operation sequence
   `pattern` with an operation sequence `replacement`.  An occurrence is kept if
-  a variable it defines, but the replacement does not, is used elsewhere.
+  an input of the pattern is bound to a variable that the occurrence defines, or
+  if a variable it defines, but the replacement does not, is used elsewhere.
 
   Args:
     pattern: a sequence of `Operations`
@@ -154,6 +166,8 @@ def replace(
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
+    if m is not None and _binds_input_to_output(m, pattern, subgraph):
+      m = None
     new_operations = None if m is None else [e.subs(m) for e in replacement]
     if new_operations is not None and not _is_used(
         _defined_variables(subgraph) - _defined_variables(new_operations),
-- 
2.43.0


From ef01e9852702b1f323551de0b0ba9632d96c8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 19/20] fix: pow with a constant exponent is not refused when
 trust regions are propagated

---
 autobound/jax/jax_bound.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 9c7fb5e..7e99a89 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -151,7 +151,10 @@ def taylor_bounds(
           fun0 = primitive_to_enclosure_fun0.get(eqn.primitive)
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
+          # Constants are passed as such, because some primitives require it
+          # (e.g., the exponent of pow).
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
-- 
2.43.0


From 684ac9c33fd1a66f87b5801e6003037ae6f048df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 20/20] fix: an operation with a constant result is not refused
 when trust regions are propagated

---
 autobound/jax/jax_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 7e99a89..f79b484 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -489,8 +489,9 @@ def _elementwise_pushforward_fun(arithmetic, get_enclosure):
 
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
-  if not len(a) == len(b) == 2:
-    raise ValueError()
+  # The bounds on a constant (e.g. x**0) are an array rather than an interval.
+  a = a if isinstance(a, tuple) else (a, a)
+  b = b if isinstance(b, tuple) else (b, b)
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
 
 
-- 
2.43.0

