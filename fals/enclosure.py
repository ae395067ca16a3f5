"""Run-time contracts of enclosure_arithmetic.py (C07, C08, C09; C16 refusals)."""
import math
import numpy as np
from .main import check, Skip
from .util import *
from autobound import enclosure_arithmetic as EA
from autobound.types import TaylorEnclosure

XS = [(), (), (1,), (2,), (3,), (2,)]
BATCH = [(), (), (2,), (1, 2), (2, 1), (3, 2)]

def outer(z, i):
  r = np.asarray(1.)
  for _ in range(i): r = np.multiply.outer(r, z)
  return r

def bounds(cs, z):
  """Ends of {sum <m_i, z^i> : m_i in c_i} and a magnitude, independent of the code under test."""
  lo = hi = mag = 0.
  for i, c in enumerate(cs):
    l, h = (np.asarray(e, float) for e in ends(c))
    k = i * z.ndim
    p = outer(z, i); pp, pn = np.maximum(p, 0), np.minimum(p, 0)
    if l.shape[l.ndim - k:] != z.shape * i: raise Bad(f'coefficient {i} of shape {l.shape} for a variable of shape {z.shape}')
    with np.errstate(invalid='ignore'):
      lo = lo + np.tensordot(l, pp, k) + np.tensordot(h, pn, k)
      hi = hi + np.tensordot(h, pp, k) + np.tensordot(l, pn, k)
      mag = mag + np.tensordot(np.maximum(np.abs(l), np.abs(h)), np.abs(p), k)
  return lo, hi, mag

def value(rng, cs, z):
  """A value the enclosure allows at z (members chosen afresh at every point)."""
  v = 0.
  for i, c in enumerate(cs):
    v = v + np.tensordot(np.asarray(member(rng, c), float), outer(z, i), i * z.ndim)
  return v

def region(rng, xs, zero=True):
  lo, hi = interval(rng, xs)
  if zero: lo, hi = np.minimum(lo, 0.), np.maximum(hi, 0.)
  if rng.random() < .2: lo = np.where(gen(rng).random(size=xs) < .5, 0. if zero else hi, lo)
  return np.asarray(lo, float), np.asarray(hi, float)

def te(rng, batch, xs, maxlen, low_plain=None, kind=None):
  n = rng.randint(1, maxlen)
  cs = []
  for i in range(n):
    k = 'arr' if low_plain is not None and i < low_plain else (kind or rng.choice([None, 'arr']))
    b = batch if rng.random() < .8 else tuple(1 if rng.random() < .5 else s for s in batch)
    cs.append(val(rng, b + xs * i, k))
  return TaylorEnclosure(tuple(cs))

def points(rng, tr, n=4):
  return [np.asarray(member(rng, tr), float) for _ in range(n)]

def valid(rng, r, fn, tr, D, what):
  if len(r) > D + 1: raise Bad(f'{len(r)} coefficients at degree {D}: {what}')
  for c in r:
    if is_iv(c) and np.any(np.asarray(c[0]) > np.asarray(c[1]) + 1e-9 * (1 + np.abs(c[0]))): raise Bad(f'inverted interval {c}: {what}')
  for z in points(rng, tr):
    v = fn(z)
    lo, hi, mag = bounds(r, z)
    lo, hi = np.asarray(lo), np.asarray(hi)
    if np.broadcast_shapes(lo.shape, np.shape(v)) != lo.shape and np.shape(v) != (): raise Bad(f'shape {lo.shape} for a value of shape {np.shape(v)}: {what}')
    tol = 1e-9 * (1 + np.where(np.isfinite(mag), mag, 0) + np.abs(v))
    bad = (lo > v + tol) | (hi < v - tol)
    if np.any(bad): raise Bad(f'at displacement {z}: value {v} not within [{lo}, {hi}]: {what}')

def pow_(b, n):
  out = 1.
  for _ in range(n): out = out * b
  return out

def contraction(rng):
  """Bilinear maps on the batch axes, as pairwise_batched_bilinear callables (weights >= 0)."""
  def matmul(u, v, p, q):   # batch (n, m) x (m, l)
    t = np.tensordot(np.moveaxis(u, 1, -1), np.moveaxis(v, 0, 0), 1)  # (n, I, l, J)
    return np.moveaxis(t, 1 + p, 1)
  def inner(u, v, p, q):    # batch (n,) x (n,)
    return np.tensordot(np.moveaxis(u, 0, -1), v, 1)
  def outerp(u, v, p, q):   # batch () x (n,)
    t = np.multiply.outer(u, v)
    return np.moveaxis(t, p, 0)
  def times(u, v, p, q):    # batch (2,) x (2,), element by element
    return u.reshape(u.shape + (1,) * q) * v.reshape(v.shape[:v.ndim - q] + (1,) * p + v.shape[v.ndim - q:])
  f, sa, sb, g = rng.choice([(matmul, (2, 3), (3, 2), lambda a, b: a @ b), (inner, (3,), (3,), lambda a, b: np.dot(a, b)),
                             (outerp, (), (2,), lambda a, b: a * b), (times, (2,), (2,), lambda a, b: a * b)])
  def checked(u, v, p, q):
    u, v = np.asarray(u), np.asarray(v)
    if (u.ndim, v.ndim) != (len(sa) + p, len(sb) + q): raise Bad(f'{f.__name__} called with operands of shapes {u.shape}, {v.shape} and p={p}, q={q}')
    return f(u, v, p, q)
  checked.__name__ = f.__name__
  return checked, sa, sb, g

def sizes(rng, xs): return 3 if xs in ((3,),) else 4

@check('C07', weight=4)
def operations(rng):
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  D = rng.choice([0, 1, 1, 2, 2, 3, 4]) if xs == () else rng.choice([0, 1, 2, 3])
  op = rng.choice(['add', 'subtract', 'negative', 'multiply', 'multiply', 'power', 'power', 'power', 'bilinear', 'enclose', 'divide', 'rpower'])
  tr = region(rng, xs, zero=op in ('divide', 'rpower') or rng.random() < .7)
  T = EA.TaylorEnclosureArithmetic(D, tr, np)
  m = sizes(rng, xs)
  a, b = te(rng, batch, xs, m), te(rng, batch, xs, m)
  if rng.random() < .1: b = a      # one enclosure of two different functions
  va = lambda z: value(rng, a, z)
  vb = lambda z: value(rng, b, z)
  what = f'{op} at degree {D} over {tr!r} of {a!r}'
  if op == 'add': r = T.add(a, b); fn = lambda z: va(z) + vb(z); what += f' and {b!r}'
  elif op == 'subtract': r = T.subtract(a, b); fn = lambda z: va(z) - vb(z); what += f' and {b!r}'
  elif op == 'negative': r = T.negative(a); fn = lambda z: -va(z)
  elif op == 'multiply': r = T.multiply(a, b); fn = lambda z: va(z) * vb(z); what += f' and {b!r}'
  elif op == 'power':
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5] if xs == () else [0, 1, 2, 2, 3])
    if len(a) * max(n, 1) * max(1, len(xs) * xs[0] if xs else 1) > 24: raise Skip()
    r = T.power(a, n if rng.random() < .7 else float(n)); fn = lambda z: pow_(va(z), n); what += f' to the {n}'
  elif op == 'enclose':
    r = EA.enclose_enclosure(a, tr, D, np); fn = va
  elif op == 'bilinear':
    f, sa, sb, g = contraction(rng)
    a = TaylorEnclosure(tuple(val(rng, sa + xs * i, rng.choice([None, 'arr'])) for i in range(rng.randint(1, 3))))
    b = TaylorEnclosure(tuple(val(rng, sb + xs * i, rng.choice([None, 'arr'])) for i in range(rng.randint(1, 3))))
    r = T.arbitrary_bilinear(a, b, f); fn = lambda z: g(value(rng, a, z), value(rng, b, z)); what = f'bilinear at {D} over {tr!r}: {a!r}, {b!r}'
  else:
    # denominators / bases: positive over the region
    base = b
    pl = enclosing(b, tr)
    shift = np.asarray(.5 + np.max(np.abs(pl[0])) + np.max(np.abs(pl[1])))
    b = TaylorEnclosure((np.broadcast_to(np.asarray(ends(b[0])[0] + shift), np.shape(pl[0])) * 1.,) + tuple(b[1:]))
    sg = 1.
    if D == 0 and rng.random() < .5: b = TaylorEnclosure(((b[0], b[0] + .5),) + tuple(b[1:]))
    if op == 'divide':
      if rng.random() < .3: sg = -1.; b = T.negative(b) if len(b) <= D + 1 else b; sg = 1.
      r = T.divide(a, b); fn = lambda z: va(z) / value(rng, b, z)
      what = f'divide at degree {D} over {tr!r}: {a!r} by {b!r}'
    else:
      p = rng.choice([.5, -.5, -1, -2, 1.5, 2.5, -3]); 
      r = T.power(b, p); fn = lambda z: value(rng, b, z)**p; what = f'power {p} at degree {D} over {tr!r}: {b!r}'
  valid(rng, r, fn, tr, D, f'{what} = {r!r}')
  return what[:200]

def enclosing(cs, tr):
  """Crude range of an enclosure over the region."""
  lo = hi = 0.
  m = np.maximum(np.abs(tr[0]), np.abs(tr[1]))
  for i, c in enumerate(cs):
    l, h = ends(c)
    if i == 0: lo, hi = lo + l, hi + h; continue
    w = np.tensordot(np.maximum(np.abs(l), np.abs(h)), outer(m, i), i * m.ndim)
    lo, hi = lo - w, hi + w
  return np.asarray(lo), np.asarray(hi)

# ------------------------------------------------------------ C08
def same(u, v):
  return is_iv(u) == is_iv(v) and all(np.shape(p) == np.shape(q) and np.array_equal(p, q) for p, q in zip(u if is_iv(u) else (u,), v if is_iv(v) else (v,)))

@check('C08')
def lower_degree(rng):
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  a = te(rng, batch, xs, 5 if xs == () else 4); D = rng.randint(0, 5); tr = region(rng, xs, rng.random() < .7)
  r = EA.enclose_enclosure(a, tr, D, np)
  d = f'enclose_enclosure({a!r}, {tr!r}, {D}) = {r!r}'
  if len(r) != min(len(a), D + 1): raise Bad(f'{len(r)} coefficients: {d}')
  for i in range(len(r) if len(a) <= D + 1 else D):
    if not same(r[i], a[i]): raise Bad(f'coefficient {i} changed: {d}')
  if len(a) > D + 1:
    tail = a[D:]
    # the last coefficient must absorb all higher terms
    for z in points(rng, tr, 6):
      v = 0.
      for i, c in enumerate(tail):
        k = i * z.ndim
        c = np.asarray(member(rng, c), float)
        v = v + np.tensordot(c, outer(z, i), k)
      contains(r[D], v, 30, d)
  return d

@check('C08', weight=3)
def caps_and_plain(rng):
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  D = rng.choice([0, 1, 2, 3, 4]) if xs == () else rng.choice([0, 1, 2, 3])
  tr = region(rng, xs); T = EA.TaylorEnclosureArithmetic(D, tr, np)
  low = D if rng.random() < .6 else 10
  m = sizes(rng, xs)
  a, b = te(rng, batch, xs, m, low), te(rng, batch, xs, m, low)
  op = rng.choice(['add', 'subtract', 'negative', 'multiply', 'multiply', 'power', 'power', 'bilinear', 'rpower', 'compose', 'compose', 'divide'])
  da, db = len(a) - 1, len(b) - 1
  truncated = None
  if op == 'add': r = T.add(a, b); deg = max(da, db); args = (a, b)
  elif op == 'subtract': r = T.subtract(a, b); deg = max(da, db); args = (a, b)
  elif op == 'negative': r = T.negative(a); deg = da; args = (a,)
  elif op == 'multiply': r = T.multiply(a, b); deg = da + db; args = (a, b)
  elif op == 'power':
    n = rng.choice([0, 1, 2, 2, 3])
    if len(a) * max(n, 1) * (xs[0] if xs else 1) > 24: raise Skip()
    r = T.power(a, n); deg = da * n; args = (a, n)
  elif op == 'bilinear':
    f, sa, sb, g = contraction(rng)
    mk = lambda s: TaylorEnclosure(tuple(val(rng, s + xs * i, 'arr' if i < low else None) for i in range(rng.randint(1, 3))))
    a, b = mk(sa), mk(sb); da, db = len(a) - 1, len(b) - 1
    r = T.arbitrary_bilinear(a, b, f); deg = da + db; args = (a, b, f.__name__)
  elif op == 'compose':
    if is_iv(a[0]): a = TaylorEnclosure((a[0][0],) + a[1:])
    e = tuple(val(rng, batch, 'arr' if i < low else None) for i in range(rng.randint(1, 4)))
    if len(a) * len(e) * (xs[0] if xs else 1) > 30: raise Skip()
    r = T.compose_enclosures(e, a); deg = (len(e) - 1) * da; args = (e, a)
  else:
    pl = enclosing(a, tr); a0 = ends(a[0])[0]
    a = TaylorEnclosure((np.broadcast_to(np.asarray(a0 + .5 + np.max(np.abs(pl[0])) + np.max(np.abs(pl[1]))), np.shape(pl[0])) * 1.,) + a[1:])
    if op == 'divide': r = T.divide(b, a); args = (b, a)
    else: p = rng.choice([.5, -1, -2, 2.5]); r = T.power(a, p); args = (a, p)
    deg = None
  d = f'{op} at degree {D} over {tr!r} of {args!r} = {r!r}'
  if len(r) > D + 1: raise Bad(f'{len(r)} coefficients: {d}')
  for i in range(min(D, len(r))):
    if is_iv(r[i]): raise Bad(f'coefficient {i} became an interval: {d}')
  allplain = not any(is_iv(c) for q in args if isinstance(q, tuple) for c in q)
  if deg is not None and deg <= D and allplain and any(is_iv(c) for c in r): raise Bad(f'an interval without interval inputs or truncation: {d}')
  return d[:200]

# ------------------------------------------------------------ C09
@check('C09', weight=3)
def composition(rng):
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  D = rng.choice([0, 1, 2, 3, 4]) if xs == () else rng.choice([0, 1, 2, 3])
  tr = region(rng, xs); T = EA.TaylorEnclosureArithmetic(D, tr, np)
  a = te(rng, batch, xs, sizes(rng, xs))
  if D > 0 or rng.random() < .5: a = TaylorEnclosure((member(rng, a[0]),) + a[1:])
  eb = batch[rng.randint(0, len(batch)):] if rng.random() < .4 else batch
  n = rng.randint(1, D + 2)
  if len(a) * n * (xs[0] if xs else 1) > 40: raise Skip()
  if is_iv(a[0]): n = 1        # the expansion point is not determined otherwise
  e = tuple(val(rng, eb, rng.choice([None, 'arr'])) for _ in range(n))
  r = T.compose_enclosures(e, a)
  d = f'compose at degree {D} over {tr!r}: {e!r} of {a!r} = {r!r}'
  def fn(z):
    y = value(rng, TaylorEnclosure((np.zeros(()),) + a[1:]), z)
    v = 0.
    for p, c in enumerate(e): v = v + np.asarray(member(rng, c), float) * pow_(y, p)
    return v
  valid(rng, r, fn, tr, D, d)
  return d[:200]

@check('C09', weight=2)
def derived_range(rng):
  """get_elementwise_fun: the expansion point and the derived range handed to the elementwise enclosure."""
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  D = rng.choice([0, 1, 2, 3])
  tr = region(rng, xs); T = EA.TaylorEnclosureArithmetic(D, tr, np)
  a = te(rng, batch, xs, sizes(rng, xs))
  if D > 0: a = TaylorEnclosure((member(rng, a[0]),) + a[1:])
  seen = []
  def get(x0, rg, degree, np_like):
    seen.append((x0, rg, degree))
    return tuple(np.zeros(np.shape(x0)) for _ in range(degree)) + ((np.full(np.shape(x0), -1.), np.full(np.shape(x0), 2.)),)
  given = None
  if rng.random() < .3:
    given = interval(rng, batch) if rng.random() < .7 else arr(rng, batch)
    T.get_elementwise_fun(get)(a, given)
  else: T.get_elementwise_fun(get)(a)
  d = f'at degree {D} over {tr!r}: {a!r} gives {seen!r}'
  if len(seen) != 1: raise Bad(f'{len(seen)} calls {d}')
  x0, rg, degree = seen[0]
  if degree != D or not is_iv(rg): raise Bad(d)
  want = a[0][0] if is_iv(a[0]) else a[0]
  if not np.array_equal(x0, want): raise Bad(f'expanded at {x0}: {d}')
  if given is not None:
    g = ends(given)
    if not (np.array_equal(rg[0], g[0]) and np.array_equal(rg[1], g[1])): raise Bad(f'range {given} not passed on: {d}')
    return d[:200]
  for z in points(rng, tr, 8): contains(rg, value(rng, a, z), 50, d)
  if not is_iv(a[0]): contains(rg, a[0], 50, d)
  return d[:200]

@check('C09')
def elementwise_end_to_end(rng):
  """exp / softplus of an argument enclosure, at points of the region."""
  from autobound import primitive_enclosures as pe
  xs, batch = rng.choice(XS), rng.choice(BATCH)
  D = rng.choice([0, 1, 2, 3]); tr = region(rng, xs)
  T = EA.TaylorEnclosureArithmetic(D, tr, np)
  a = te(rng, batch, xs, 3)
  if D > 0: a = TaylorEnclosure((member(rng, a[0]),) + a[1:])
  pl = enclosing(a, tr)
  if np.max(np.abs(pl)) > 30: raise Skip()
  f, g = rng.choice([(pe.exp_enclosure, np.exp), (pe.softplus_enclosure, lambda y: np.logaddexp(0, y)), (pe.sigmoid_enclosure, lambda y: 1 / (1 + np.exp(-y)))])
  r = T.get_elementwise_fun(f)(a)
  valid(rng, r, lambda z: g(value(rng, a, z)), tr, D, f'{g} at degree {D} over {tr!r} of {a!r} = {r!r}')

@check('C09')
def pairwise_axes(rng):
  p, q = rng.randint(0, 2), rng.randint(0, 2)
  batch = rng.choice(BATCH); bu = batch; bv = batch[rng.randint(0, len(batch)):] if rng.random() < .5 else batch
  if rng.random() < .3: bu, bv = bv, bu
  su, sv = tuple(rng.randint(1, 3) for _ in range(p)), tuple(rng.randint(1, 3) for _ in range(q))
  u, v = arr(rng, bu + su), arr(rng, bv + sv)
  r = Inner(EA)._pairwise_batched_multiply(u, v, p, q, np)
  for I in np.ndindex(*su):
    for J in np.ndindex(*sv):
      close(r[(Ellipsis,) + I + J], u[(Ellipsis,) + I] * v[(Ellipsis,) + J], 5, f'_pairwise_batched_multiply({u!r}, {v!r}, {p}, {q})')

# ------------------------------------------------------------ C16
def refused(f, what, excs=(Exception,)):
  try: r = f()
  except excs: return
  raise Bad(f'{what} was accepted: {r!r}')

@check('C16')
def refuses_enclosure(rng):
  xs = rng.choice([(1,), (2,), (3,)]); tr = region(rng, xs); D = rng.randint(0, 3)
  T = EA.TaylorEnclosureArithmetic(D, tr, np)
  n = rng.randint(1, 3); batch = rng.choice(BATCH)
  good = te(rng, batch, xs, 3); cs = [val(rng, batch + xs * i) for i in range(n + 1)]
  wrong = xs[0] + 1
  k = rng.randint(1, n); bad_shape = list(xs * k); j = rng.randrange(len(bad_shape)); bad_shape[j] = wrong
  mode = rng.choice(['size', 'missing'])
  if mode == 'missing' and batch and tuple((batch + xs * k)[1:])[-k:] == xs * k: mode = 'size'
  cs[k] = val(rng, batch + tuple(bad_shape)) if mode == 'size' else val(rng, xs * (k - 1))
  bad = TaylorEnclosure(tuple(cs))
  which = rng.choice(['l', 'r', 'p', 'd'])
  if which == 'p': refused(lambda: T.power(bad, 2), f'power of {bad!r} for a variable of shape {xs}')
  elif which == 'l': refused(lambda: T.multiply(bad, good), f'product with {bad!r} for a variable of shape {xs}')
  elif which == 'r': refused(lambda: T.multiply(good, bad), f'product with {bad!r} for a variable of shape {xs}')
  else: refused(lambda: T.divide(bad, TaylorEnclosure((np.ones(()),))), f'quotient with {bad!r}')
  refused(lambda: EA.TaylorEnclosureArithmetic(D, (np.zeros(xs), np.zeros((wrong,))), np), 'a trust region with ends of different shapes', (ValueError,))
  refused(lambda: EA.TaylorEnclosureArithmetic(rng.choice([1.5, '2', None, 2.]), tr, np), 'a degree that is not an integer', (ValueError,))
  refused(lambda: T.compose_enclosures((), good), 'an empty elementwise enclosure', (ValueError,))
