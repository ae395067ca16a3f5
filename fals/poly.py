"""Run-time contracts of polynomials.py (C05, C06)."""
import itertools, math
from fractions import Fraction
import numpy as np
from .main import check, Skip
from .util import *
from autobound import polynomials as P

def outer(z, i):
  r = np.asarray(1.)
  for _ in range(i): r = np.multiply.outer(r, z)
  return r
def term(c, z, i):
  z = np.asarray(z, float)
  return np.tensordot(np.asarray(c, float), outer(z, i), i * z.ndim)
def poly_value(cs, z): return sum(term(c, z, i) for i, c in enumerate(cs))

def rand_enclosure(rng, batch, xs, n, kinds=None):
  return tuple(val(rng, batch + xs * i, kinds) for i in range(n))

@check('C05', weight=3)
def evaluate(rng):
  ew = rng.random() < .4
  n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8] if ew else [1, 2, 3, 4])
  if ew:
    s = rng.choice(SHAPES)
    cs = tuple(val(rng, s, rng.choice([None, 'arr'])) for _ in range(n)); z = val(rng, s if rng.random() < .8 else ())
    f = P.eval_elementwise_taylor_enclosure
    value = lambda m, y: sum(np.asarray(c) * np.asarray(y, float)**i for i, c in enumerate(m))
  else:
    xs = rng.choice([(), (1,), (2,), (3,), (2, 2)]); n = min(n, 3) if len(xs) == 2 else n
    batch = rng.choice([(), (), (2,), (1, 2)])
    cs = rand_enclosure(rng, batch, xs, n, rng.choice([None, 'arr'])); z = val(rng, xs)
    f = P.eval_taylor_enclosure; value = poly_value
  if rng.random() < .2: z = tuple(float(x) for x in z) if is_iv(z) and np.shape(z[0]) == () else z
  if rng.random() < .2: cs = tuple(float(c) if not is_iv(c) and np.shape(c) == () else c for c in cs)
  r = f(cs, z, np)
  d = f'{f.__name__}({cs!r}, {z!r}) = {r!r}'
  if not is_iv(z) and not any(is_iv(c) for c in cs):
    if is_iv(r): raise Bad('interval from arrays at a point: ' + d)
    close(r, value(cs, z), 10, d); return d
  for _ in range(6):
    contains(r, value([member(rng, c) for c in cs], member(rng, z)), 30, d)
  return d

@check('C05')
def evaluate_callbacks(rng):
  """eval_polynomial on an abstract algebra: every term exactly once, in the right power."""
  n = rng.randint(0, 7)
  cs = [('c', i) for i in range(n)]
  log = []
  def inner(c, z): return ((c[1], z),)
  def power(z, i):
    log.append(i); return ('z', i)
  r = P.eval_polynomial(cs, 'z', inner, power, lambda a, b: a + b, (), ('one',)) if n or 1 else ()
  want = sorted((i, ('z', i) if i else ('one',)) for i in range(n))
  got = sorted((i, ('one',) if z == ('z', 0) else z) for i, z in r)
  if got != want: raise Bad(f'terms {got}, wanted {want}')

@check('C16')
def unfit_coefficients(rng):
  """A coefficient whose last axes are not those of the power of x it is multiplied with is refused."""
  xs = rng.choice([(2,), (3,), (1,), (2, 2), (2, 3)]); n = rng.choice([2, 3, 4]) if len(xs) == 1 else 2
  batch = rng.choice([(), (), (2,), (3,), (1, 2)]); j = rng.randint(1, n - 1)
  cs = list(rand_enclosure(rng, batch, xs, n, rng.choice([None, 'arr'])))
  want = xs * j
  bad = rng.choice([batch, batch + want[1:], want[1:], (), batch + want[:-1] + (want[-1] + 1,), batch + (want[0] + 1,) + want[1:]])
  if len(bad) >= len(want) and bad[len(bad) - len(want):] == want: raise Skip
  cs[j] = val(rng, bad)
  z = val(rng, xs)
  d = f'eval_taylor_enclosure({tuple(cs)!r}, {z!r})'
  try: r = P.eval_taylor_enclosure(tuple(cs), z, np)
  except (ValueError, IndexError, TypeError, NotImplementedError): return d
  raise Bad(f'{d} = {r!r}, although coefficient {j} does not fit x of shape {xs}')

# ------------------------------------------------------------ C06
def conv(a, b, mul, zero, add):
  out = [zero] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b): out[i + j] = add(out[i + j], mul(x, y))
  return out

def rand_ints(rng, n): return [rng.choice([0, 0, 1, -1, 2, 3, -2, 5, Fraction(1, 2)]) for _ in range(n)]

@check('C06')
def product_numbers(rng):
  a, b = rand_ints(rng, rng.randint(1, 6)), rand_ints(rng, rng.randint(1, 6))
  r = P.arbitrary_bilinear(a, b)
  want = conv(a, b, lambda x, y: x * y, 0, lambda x, y: x + y)
  if list(r) != want: raise Bad(f'arbitrary_bilinear({a}, {b}) = {r}, wanted {want}')
  return f'{a} * {b} = {r}'

@check('C06')
def product_matrices(rng):
  """Non-commutative operation between different shapes."""
  n, m, l = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2, 3])
  a = [arr(rng, (n, m)) for _ in range(rng.randint(1, 4))]; b = [arr(rng, (m, l)) for _ in range(rng.randint(1, 4))]
  if rng.random() < .3:
    m = l = n = rng.choice([2, 3]); a = b = [arr(rng, (n, n)) for _ in range(rng.randint(2, 4))]
  r = P.arbitrary_bilinear(a, b, np.add, np.zeros((n, l)), lambda x, y, i, j: x @ y)
  want = conv(a, b, np.matmul, np.zeros((n, l)), np.add)
  if len(r) != len(want): raise Bad(f'{len(r)} coefficients')
  for k, (x, y) in enumerate(zip(r, want)): close(x, y, 10, f'coefficient {k} of the product of {a} and {b}')

@check('C06')
def product_terms(rng):
  """Abstract algebra: coefficient k is the sum of exactly the terms (i, k-i)."""
  na, nb = rng.randint(1, 7), rng.randint(1, 7)
  a, b = [('a', i) for i in range(na)], [('b', j) for j in range(nb)]
  def t(c0, c1, i, j):
    if c0 != ('a', i) or c1 != ('b', j): raise Bad(f'term_product_coefficient({c0}, {c1}, {i}, {j})')
    return ((i, j),)
  r = P.arbitrary_bilinear(a, b, lambda x, y: x + y, (), t)
  if len(r) != na + nb - 1: raise Bad(f'{len(r)} coefficients for lengths {na}, {nb}')
  for k, c in enumerate(r):
    want = sorted((i, k - i) for i in range(na) if 0 <= k - i < nb)
    if sorted(c) != want: raise Bad(f'coefficient {k}: {sorted(c)}, wanted {want}')

@check('C06')
def power_numbers(rng):
  n, m = rng.choice([(rng.randint(1, 4), rng.randint(0, 6)), (rng.randint(1, 7), rng.randint(0, 3)), (2, rng.randint(0, 12)), (1, rng.randint(0, 12)), (2, rng.randint(20, 90))])
  a = rand_ints(rng, n)
  r = P.integer_power(a, m)
  want = [1]
  for _ in range(m): want = conv(want, a, lambda x, y: x * y, 0, lambda x, y: x + y)
  if list(r) != want: raise Bad(f'integer_power({a}, {m}) = {r}, wanted {want}')
  return f'{a} ** {m} = {r}'

@check('C06', 'C16')
def power_negative(rng):
  a, m = rand_ints(rng, rng.randint(1, 4)), -rng.randint(1, 3)
  try: r = P.integer_power(a, m)
  except (ValueError, NotImplementedError): return f'{a} ** {m} refused'
  raise Bad(f'integer_power({a}, {m}) = {list(r)}, which is no power of a polynomial')

@check('C06')
def power_terms(rng):
  """Free commutative algebra with degrees: monomials are multisets of input indices."""
  n, m = rng.choice([(rng.randint(1, 4), rng.randint(1, 5)), (rng.randint(1, 6), rng.randint(1, 3)), (2, rng.randint(1, 8))])
  # element: (degree, {monomial exponents: integer coefficient})
  def add(x, y):
    if x is None: return y
    if y is None: return x
    if x[0] != y[0]: raise Bad(f'sum of coefficients of degrees {x[0]} and {y[0]}')
    d = dict(x[1])
    for k, v in y[1].items(): d[k] = d.get(k, 0) + v
    return (x[0], d)
  def tpc(x, y, i, j):
    if x[0] != i or y[0] != j: raise Bad(f'term_product_coefficient got powers {i}, {j} for coefficients of degrees {x[0]}, {y[0]}')
    d = {}
    for k, v in x[1].items():
      for l, w in y[1].items():
        q = tuple(p + s for p, s in zip(k, l)); d[q] = d.get(q, 0) + v * w
    return (i + j, d)
  one = (0, {(0,) * n: 1})
  def tpow(c, i, j):
    if c[0] != i: raise Bad(f'term_power_coefficient got power {i} for a coefficient of degree {c[0]}')
    if j < 0: raise Bad('negative exponent')
    r = one
    for _ in range(j): r = tpc(r, c, r[0], i)
    return (i * j, r[1])
  def sp(k, c): return (c[0], {m_: v * k for m_, v in c[1].items()})
  a = [(i, {tuple(int(j == i) for j in range(n)): 1}) for i in range(n)]
  r = P.integer_power(a, m, add, None, one, tpc, tpow, sp)
  if len(r) != (n - 1) * m + 1: raise Bad(f'{len(r)} coefficients for n={n}, m={m}')
  seen = 0
  for k, c in enumerate(r):
    if c is None or c[0] != k: raise Bad(f'coefficient {k} has degree {c and c[0]}')
    for mono, v in c[1].items():
      if sum(mono) != m or sum(i * p for i, p in enumerate(mono)) != k: raise Bad(f'monomial {mono} in coefficient {k}')
      w = math.factorial(m)
      for p in mono: w //= math.factorial(p)
      if v != w: raise Bad(f'multiplicity {v} of monomial {mono}, wanted {w}')
      seen += 1
  if seen != math.comb(n + m - 1, m): raise Bad(f'{seen} monomials of {math.comb(n + m - 1, m)}')

@check('C06')
def partitions(rng):
  k, m = rng.randint(1, 5), rng.randint(0, 5)
  n = rng.randint(0, max(1, k * m) + 1)
  got = list(Inner(P)._iter_partitions(n, m, k))
  want = [p for p in itertools.product(range(m + 1), repeat=k) if sum(p) == m and sum(j * q for j, q in enumerate(p)) == n]
  if sorted(got) != sorted(want): raise Bad(f'_iter_partitions({n}, {m}, {k}) = {got}, wanted {want}')
  return f'_iter_partitions({n}, {m}, {k}): {len(got)}'

@check('C06')
def multinomial(rng):
  ks = tuple(rng.randint(0, 6) for _ in range(rng.randint(1, 6)))
  w = math.factorial(sum(ks))
  for k in ks: w //= math.factorial(k)
  if Inner(P)._multinomial_coefficient(ks) != w: raise Bad(f'_multinomial_coefficient({ks}) = {Inner(P)._multinomial_coefficient(ks)}, wanted {w}')

@check('C06', weight=2)
def power_interval(rng):
  """Interval coefficients: contains the power of every member, also through the enclosure callbacks."""
  import autobound.enclosure_arithmetic as ea
  n, m = rng.choice([(2, 3), (3, 2), (2, 2), (3, 3), (1, 4), (2, 5), (4, 2)])
  from autobound.interval_arithmetic import IntervalArithmetic
  ia = IntervalArithmetic(np)
  a = tuple(val(rng, ()) for _ in range(n))
  r = P.integer_power(a, m, ia.add, np.asarray(0.), np.asarray(1.), lambda x, y, i, j: ia.multiply(x, y), lambda c, i, j: ia.power(c, j), ia.multiply)
  d = f'integer_power({a}, {m}) = {r}'
  if len(r) != (n - 1) * m + 1: raise Bad(d)
  low = next((i for i, c in enumerate(a) if is_iv(c)), n)
  for k, c in enumerate(r):
    if k < low and is_iv(c): raise Bad(f'interval coefficient {k} ' + d)
  for _ in range(5):
    x = [float(member(rng, c)) for c in a]
    want = [1.]
    for _ in range(m): want = conv(want, x, lambda p, q: p * q, 0., lambda p, q: p + q)
    for c, w in zip(r, want): contains(c, np.asarray(w), 100, d)
