import numpy as np, itertools
from .main import check, Skip
from .util import *
from autobound.interval_arithmetic import IntervalArithmetic, _ndarray_outer_product, _generalized_diag_ndarray
ia = IntervalArithmetic(np)

def bshapes(rng):
  s = rng.choice(SHAPES)
  r = rng.random()
  if r < .6: return s, s
  if r < .8: return s, ()
  if r < .9: return (), s
  t = tuple(1 if rng.random() < .5 else d for d in s)
  return s, t

BIN = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply}
@check('C02', 'C03')
def elementwise_binary(rng):
  op = rng.choice(sorted(BIN))
  sa, sb = bshapes(rng)
  a, b = dress(rng, val(rng, sa)), dress(rng, val(rng, sb))
  if rng.random() < .1: b = a      # one object, two independent members
  r = getattr(ia, op)(a, b)
  f = BIN[op]; a, b = plain(a), plain(b)
  desc = f'{op}({a!r}, {b!r}) = {r!r}'
  if not is_iv(a) and not is_iv(b):
    if is_iv(r): raise Bad('interval from plain arrays: ' + desc)
    close(r, f(a, b), what=desc); return desc
  for _ in range(4):
    contains(r, f(member(rng, a), member(rng, b)), what=desc)
  pts = np.stack([f(p, q) for p in ends(a) for q in ends(b)])
  # all three operations are monotone in each argument: extremes are at end points
  close(r[0] if is_iv(r) else r, pts.min(0), what='exactness ' + desc); close(r[1] if is_iv(r) else r, pts.max(0), what='exactness ' + desc)
  return desc

@check('C02', 'C03')
def elementwise_unary(rng):
  s = rng.choice(SHAPES)
  a = val(rng, s)
  op = rng.choice(['negative', 'power', 'power', 'power'])
  if op == 'negative':
    a = dress(rng, a); r = ia.negative(a); a = plain(a); f = lambda x: -x; lo, hi = -ends(a)[1], -ends(a)[0]
  else:
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, rng.randint(10, 24)]); p = rng.choice([n, n, float(n)])
    if n <= 6 or np.size(plain(ends(a)[0])) and np.max(np.abs(np.array(ends(a)))) < 5: a = dress(rng, a)
    r = ia.power(a, p); a = plain(a); f = lambda x: np.asarray(x, float)**n
    e0, e1 = f(ends(a)[0]), f(ends(a)[1])
    lo, hi = np.minimum(e0, e1), np.maximum(e0, e1)
    if n > 0 and n % 2 == 0: lo = np.where((ends(a)[0] <= 0) & (ends(a)[1] >= 0), 0., lo)
    op = f'power {p}'
  desc = f'{op}({a!r}) = {r!r}'
  if not is_iv(a) and is_iv(r): raise Bad('interval from a plain array: ' + desc)
  for _ in range(4): contains(r, f(member(rng, a)), what=desc)
  close(ends(r)[0], lo, what='exactness ' + desc); close(ends(r)[1], hi, what='exactness ' + desc)
  return desc

@check('C02')
def power_other_exponents(rng):
  """Negative and fractional exponents: refused, or the values of every member are contained."""
  s = rng.choice(SHAPES)
  a = val(rng, s)
  if not is_iv(a): a = (np.minimum(a, a + 1), np.maximum(a, a + 1))
  p = rng.choice([-1, -2, -3, -1., -2., .5, 1.5, 2.5])
  if p > 0: a = (np.minimum(abs(a[0]), abs(a[1])), np.maximum(abs(a[0]), abs(a[1])))
  try: r = ia.power(a, p)
  except NotImplementedError: return f'power {p}({a!r}) refused'
  for _ in range(4):
    x = np.asarray(member(rng, a), float)
    if p < 0: x = np.where(x == 0, ends(a)[1], x)
    if np.all(x != 0) or p > 0: contains(r, x**p, what=f'power {p}({a!r}) = {r!r}')
  return f'power {p}({a!r}) = {r!r}'

@check('C04')
def bilinear_tensordot(rng):
  na, nb = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3])
  k = rng.randint(0, min(na, nb, 2))
  dims = [rng.choice([1, 2, 3]) for _ in range(6)]
  sa = tuple(dims[:na])
  sb = tuple(sa[na - k:]) + tuple(dims[3:3 + nb - k])
  axes = k
  if k and rng.random() < .4:
    ax_a = list(range(na)); rng.shuffle(ax_a); ax_a = ax_a[:k]
    ax_b = list(range(nb)); rng.shuffle(ax_b); ax_b = ax_b[:k]
    sb_l = [dims[3 + i] for i in range(nb)]
    for i, j in zip(ax_a, ax_b): sb_l[j] = sa[i]
    sb = tuple(sb_l); axes = (ax_a, ax_b)
  a, b = val(rng, sa), val(rng, sb)
  if sa == sb and rng.random() < .2: b = a
  r = ia.tensordot(a, b, axes)
  desc = f'tensordot({a!r}, {b!r}, {axes}) = {r!r}'
  if not is_iv(a) and not is_iv(b) and is_iv(r): raise Bad('interval from arrays ' + desc)
  for _ in range(6): contains(r, np.tensordot(member(rng, a), member(rng, b), axes), what=desc, scale=10)
  if axes == 0 and is_iv(r):
    pts = np.stack([np.tensordot(p, q, 0) for p in ends(a) for q in ends(b)])
    close(r[0], pts.min(0), what='product tightness ' + desc); close(r[1], pts.max(0), what='product tightness ' + desc)
  return desc

@check('C04')
def bilinear_general(rng):
  n, m, l = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2, 3])
  f, sa, sb = rng.choice([(np.matmul, (n, m), (m, l)), (np.matmul, (2, n, m), (2, m, l)), (np.dot, (n,), (n,)), (np.multiply, (n, m), (n, m)),
                          (lambda x, y: np.convolve(x, y), (n,), (l,)), (lambda x, y: np.einsum('bi,bi->b', x, y), (n, l), (n, l))])
  a, b = val(rng, sa), val(rng, sb)
  if sa == sb and rng.random() < .2: b = a
  r = ia.arbitrary_bilinear(a, b, f)
  desc = f'bilinear({a!r}, {b!r}) = {r!r}'
  if not is_iv(a) and not is_iv(b) and is_iv(r): raise Bad('interval from arrays ' + desc)
  for _ in range(6): contains(r, f(member(rng, a), member(rng, b)), what=desc, scale=10)
  return desc

def outer_ref(a, b, bd):
  out = np.zeros(a.shape + b.shape[bd:])
  for i in np.ndindex(*a.shape):
    for j in np.ndindex(*b.shape[bd:]):
      out[i + j] = a[i] * b[i[:bd] + j]
  return out
@check('C04')
def outer_product(rng):
  bd = rng.choice([0, 0, 1, 2])
  batch = tuple(rng.choice([1, 2, 3]) for _ in range(bd))
  sa = batch + tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2])))
  sb = batch + tuple(rng.choice([1, 2]) for _ in range(rng.choice([0, 1, 2])))
  a, b = val(rng, sa), val(rng, sb)
  if sa == sb and rng.random() < .2: b = a
  r = ia.outer_product(a, b, bd)
  desc = f'outer_product({a!r}, {b!r}, {bd}) = {r!r}'
  if not is_iv(a) and not is_iv(b):
    close(r, outer_ref(a, b, bd), what=desc); return desc
  for _ in range(5): contains(r, outer_ref(np.asarray(member(rng, a)), np.asarray(member(rng, b)), bd), what=desc)
  pts = np.stack([outer_ref(np.asarray(p), np.asarray(q), bd) for p in ends(a) for q in ends(b)])
  close(r[0], pts.min(0), what='tightness ' + desc); close(r[1], pts.max(0), what='tightness ' + desc)
  return desc

@check('C04')
def outer_power(rng):
  bd = rng.choice([0, 0, 0, 1])
  s = tuple(rng.choice([1, 2]) for _ in range(bd)) + tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2])))
  n = rng.choice([0, 1, 2, 3, 4]) if len(s) <= 1 else rng.choice([0, 1, 2, 3])
  a = val(rng, s)
  r = ia.outer_power(a, n, bd)
  desc = f'outer_power({a!r}, {n}, {bd}) = {r!r}'
  def ref(x):
    x = np.asarray(x)
    if n == 0: return np.asarray(1.)
    o = x
    for _ in range(n - 1): o = outer_ref(o, x, bd)
    return o
  if not is_iv(a):
    close(np.asarray(r, float), ref(a), what=desc); return desc
  for _ in range(6): contains(r, ref(member(rng, a)), what=desc, scale=20)
  return desc

@check('C16')
def refuses_interval(rng):
  """Invalid exponents and batch ranks are refused."""
  a = val(rng, (2,))
  for f in (lambda: ia.outer_power(a, -rng.randint(1, 3)),
            lambda: ia.outer_product(a, val(rng, (2, 2)), 2),
            lambda: ia.outer_product(val(rng, (2, 2)), a, 2),
            lambda: ia.power(interval(rng, (2,)), -1),
            lambda: ia.power(interval(rng, (2,)), -.5)):
    try: r = f()
    except (ValueError, NotImplementedError): continue
    raise Bad(f'accepted an invalid argument and returned {r!r}')
