import numpy as np
class Bad(AssertionError): pass
def is_iv(x): return isinstance(x, tuple)
def ends(x): return x if is_iv(x) else (x, x)
def close_le(a, b, scale=1.0, what=''):
  """a <= b up to rounding, elementwise; raises with the inputs otherwise."""
  a, b = np.asarray(a, float), np.asarray(b, float)
  tol = 1e-9 * (1 + scale) + 1e-9 * np.maximum(np.abs(a), np.abs(b))
  bad = ~(a <= b + tol) & ~np.isnan(a) & ~np.isnan(b)
  if np.any(bad): raise Bad(f'{what}: {a} <= {b} fails')
def close(a, b, scale=1.0, what='', rtol=1e-8):
  a, b = np.asarray(a, float), np.asarray(b, float)
  if a.shape != b.shape: raise Bad(f'{what}: shapes {a.shape} and {b.shape}')
  if not np.allclose(a, b, rtol=rtol, atol=rtol * (1 + scale), equal_nan=True): raise Bad(f'{what}: {a} != {b}')
def contains(iv, v, scale=1.0, what=''):
  lo, hi = ends(iv)
  if np.shape(lo) != np.shape(v) and not is_iv(iv): 
    if np.shape(lo) != np.shape(v): raise Bad(f'{what}: shape {np.shape(lo)} for value of shape {np.shape(v)}')
  close_le(lo, v, scale, what + ' (lower end)'); close_le(v, hi, scale, what + ' (upper end)')
def gen(rng): return np.random.default_rng(rng.getrandbits(32))
VALS = [0., 0., 1., -1., 2., -2., .5, -.5, 3., -3.]
def arr(rng, shape, wild=True):
  g = gen(rng)
  a = g.normal(size=shape) * rng.choice([.1, 1., 3.])
  if wild and rng.random() < .6:
    m = g.random(size=shape) < .5
    a = np.where(m, g.choice(VALS, size=shape), a)
  return np.asarray(a, float)
def interval(rng, shape):
  a = arr(rng, shape); w = np.abs(arr(rng, shape))
  if rng.random() < .2: w = w * 0
  return (a, np.asarray(a + w))
def val(rng, shape, kind=None):
  kind = kind or rng.choice(['arr', 'iv', 'iv'])
  return interval(rng, shape) if kind == 'iv' else arr(rng, shape)
def member(rng, v):
  """A member of the set v (ends favoured)."""
  if not is_iv(v): return v
  g = gen(rng)
  t = g.choice([0., 1., .5, g.random()], size=np.shape(v[0]))
  if rng.random() < .3: t = g.random(size=np.shape(v[0]))
  m = np.where(t == 1., v[1], np.where(t == 0., v[0], v[0] + t * (np.asarray(v[1]) - v[0])))
  if rng.random() < .3:
    m = np.where((v[0] <= 0) & (0 <= np.asarray(v[1])) & (g.random(size=np.shape(m)) < .5), 0., m)
  return m
def dress(rng, v):
  """The same kind of value given as whole numbers, plain Python numbers or lists, or as JAX arrays."""
  if rng.random() < .75: return v
  how = rng.choice(['int', 'int', 'list', 'jax'])
  def one(x):
    x = np.asarray(x)
    if how == 'int': return np.round(x).astype(np.int64)
    if how == 'list': return x.tolist()
    import jax; jax.config.update('jax_enable_x64', True)
    return jax.numpy.asarray(x)
  return tuple(map(one, v)) if is_iv(v) else one(v)
def plain(v): return tuple(np.asarray(x, float) for x in v) if is_iv(v) else np.asarray(v, float)
SHAPES = [(), (), (1,), (2,), (3,), (2, 3), (1, 2), (2, 1, 2)]
class Inner:
  """Access to names of a module that are not part of its interface: a case that needs one that is gone, or that takes
  other arguments by now, is skipped."""
  def __init__(self, m): self.__dict__['_m'] = m
  def __getattr__(self, n):
    from .main import Skip
    import functools, inspect
    if not hasattr(self._m, n): raise Skip()
    v = getattr(self._m, n)
    if not inspect.isfunction(v): return v
    @functools.wraps(v)
    def call(*a, **k):
      try: inspect.signature(v).bind(*a, **k)
      except TypeError: raise Skip()
      return v(*a, **k)
    return call
