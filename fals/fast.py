"""Eager jax operations evaluated by numpy instead of being compiled by XLA (about five times as many cases per second).

Only used to search: a failure found this way counts only if it is there again with jax itself (fals/main.py reruns it).
"""
import numpy as np, jax
from jax import lax
from jax._src import core
import jax._src.pjit as pjit

def install():
  real = {}
  busy = [0]
  def orig(p, *a, **k):
    busy[0] += 1
    try: return real[p](*a, **k)
    finally: busy[0] -= 1
  def over(p, f):
    real[p] = p.impl
    def impl(*a, **k):
      try:
        if any(isinstance(x, core.Tracer) for x in a): return orig(p, *a, **k)
        v = [np.asarray(x) for x in a]
        r = f(*v, **k)
        if r is NotImplemented: return orig(p, *a, **k)
        return wrap(r)
      except (TypeError, ValueError, IndexError, AttributeError): return orig(p, *a, **k)
    p.def_impl(impl)
  wrap = np.asarray
  def same(f): return lambda *a, **k: f(*a).astype(a[0].dtype)
  for n, f in dict(add_p=np.add, sub_p=np.subtract, mul_p=np.multiply, max_p=np.maximum, min_p=np.minimum, neg_p=np.negative, exp_p=np.exp, log_p=np.log,
                   abs_p=np.abs, sign_p=np.sign, sqrt_p=np.sqrt, cbrt_p=np.cbrt, log1p_p=np.log1p, tanh_p=np.tanh, pow_p=None, div_p=None).items():
    if f is not None: over(getattr(lax, n), same(lambda *a, f=f: f(*a)))
  def div(a, b):
    return (a / b) if np.issubdtype(a.dtype, np.inexact) else NotImplemented
  over(lax.div_p, lambda a, b, **k: div(a, b))
  over(lax.pow_p, lambda a, b, **k: np.power(a, b) if np.issubdtype(a.dtype, np.inexact) and np.issubdtype(b.dtype, np.inexact) else NotImplemented)
  over(lax.integer_pow_p, lambda a, y, **k: (np.power(a, a.dtype.type(y)) if np.issubdtype(a.dtype, np.inexact) else NotImplemented))
  for n, f in dict(lt_p=np.less, le_p=np.less_equal, gt_p=np.greater, ge_p=np.greater_equal, eq_p=np.equal, ne_p=np.not_equal).items():
    over(getattr(lax, n), lambda a, b, f=f, **k: f(a, b))
  over(lax.and_p, lambda a, b, **k: a & b); over(lax.or_p, lambda a, b, **k: a | b); over(lax.not_p, lambda a, **k: ~a)
  over(lax.is_finite_p, lambda a, **k: np.isfinite(a))
  over(lax.convert_element_type_p, lambda a, new_dtype, **k: a.astype(new_dtype) if not (np.issubdtype(a.dtype, np.inexact) and not np.issubdtype(new_dtype, np.inexact)) else NotImplemented)
  def bid(a, shape, broadcast_dimensions, **k):
    s = [1] * len(shape)
    for i, d in enumerate(broadcast_dimensions): s[d] = a.shape[i]
    return np.broadcast_to(a.reshape(s), shape)
  over(lax.broadcast_in_dim_p, bid)
  over(lax.reshape_p, lambda a, new_sizes, dimensions, **k: a.reshape(new_sizes) if dimensions is None else NotImplemented)
  over(lax.squeeze_p, lambda a, dimensions, **k: np.squeeze(a, tuple(dimensions)))
  over(lax.transpose_p, lambda a, permutation, **k: np.transpose(a, permutation))
  over(lax.reduce_sum_p, lambda a, axes, **k: np.sum(a, axis=tuple(axes)).astype(a.dtype))
  over(lax.reduce_max_p, lambda a, axes, **k: np.max(a, axis=tuple(axes)))
  over(lax.reduce_min_p, lambda a, axes, **k: np.min(a, axis=tuple(axes)))
  over(lax.reduce_and_p, lambda a, axes, **k: np.all(a, axis=tuple(axes))); over(lax.reduce_or_p, lambda a, axes, **k: np.any(a, axis=tuple(axes)))
  over(lax.select_n_p, lambda w, *c, **k: np.where(w, c[1], c[0]) if len(c) == 2 and w.dtype == bool else NotImplemented)
  over(lax.concatenate_p, lambda *a, dimension, **k: np.concatenate(a, dimension))
  def dg(a, b, dimension_numbers, preferred_element_type=None, **k):
    (ca, cb), (ba, bb) = dimension_numbers
    if not np.issubdtype(a.dtype, np.inexact): return NotImplemented
    L = 'abcdefghijklmnopqrstuvwxyz'; it = iter(L)
    sa, sb = [None] * a.ndim, [None] * b.ndim
    out = ''
    for i, j in zip(ba, bb): sa[i] = sb[j] = next(it); out += sa[i]
    for i, j in zip(ca, cb): sa[i] = sb[j] = next(it)
    for i in range(a.ndim):
      if sa[i] is None: sa[i] = next(it); out += sa[i]
    for j in range(b.ndim):
      if sb[j] is None: sb[j] = next(it); out += sb[j]
    r = np.einsum(''.join(sa) + ',' + ''.join(sb) + '->' + out, a, b)
    return r if preferred_element_type is None else r.astype(preferred_element_type)
  over(lax.dot_general_p, dg)
  def jit_impl(*a, jaxpr, **k): return core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, *a)
  pjit.jit_p.def_impl(jit_impl)
  # calls of jitted functions (most of jax.numpy) take this way
  call = pjit._pjit_call_impl_python; fast = pjit._get_fastpath_data; fdo = pjit._need_to_rebuild_with_fdo
  def known(j): return all(q.primitive in real or q.primitive is pjit.jit_p and known(q.params['jaxpr'].jaxpr) for q in j.eqns)
  def run(*a, jaxpr, **k):
    if busy[0] or not known(jaxpr.jaxpr): return call(*a, jaxpr=jaxpr, **k)
    return core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, *a), None, None, []
  pjit._pjit_call_impl_python = run
  pjit._get_fastpath_data = lambda e, *a, **k: None if e is None else fast(e, *a, **k)
  pjit._need_to_rebuild_with_fdo = lambda p: False
