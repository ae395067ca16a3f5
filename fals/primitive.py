"""Run-time contracts of the elementwise functions and primitive enclosures.

Oracle for derivatives: Cauchy's integral formula on a circle (independent of the
formulas in the code); for values: numpy."""
import numpy as np, math
from .main import check, Skip
from .util import *
from autobound import primitive_enclosures as pe, elementwise_functions as ef

def sigm(z): return np.where(np.real(z) >= 0, 1 / (1 + np.exp(-np.where(np.real(z) >= 0, z, 0))),
                             np.exp(np.where(np.real(z) < 0, z, 0)) / (1 + np.exp(np.where(np.real(z) < 0, z, 0))))
def softp(z):
  p = np.real(z) >= 0
  return np.where(p, z, 0) + np.log(1 + np.exp(np.where(p, -z, z)))
BASE = {'exp': np.exp, 'log': np.log, 'sigmoid': sigm, 'softplus': softp, 'swish': lambda z: z * sigm(z)}
MAXD = {'abs': 1, 'exp': 6, 'log': 6, 'sigmoid': 4, 'softplus': 5, 'swish': 4}
IDS = {'abs': ef.ABS, 'exp': ef.EXP, 'log': ef.LOG, 'sigmoid': ef.SIGMOID, 'softplus': ef.SOFTPLUS, 'swish': ef.SWISH}
N = 128
TH = np.exp(2j * np.pi * np.arange(N) / N)
def deriv(f, k, x, r):
  """k-th derivative at x (array) by Cauchy's formula with radius r (array)."""
  x = np.asarray(x, float); r = np.broadcast_to(np.asarray(r, float), x.shape)
  v = f(x[..., None] + r[..., None] * TH)
  return np.real((v * TH**-k).mean(-1)) * math.factorial(k) / r**k
def true_deriv(name, k, x):
  if name == 'abs': return np.abs(x) if k == 0 else np.sign(x)
  return deriv(BASE[name], k, x, np.asarray(x) * .5 if name == 'log' else 1.5)
ENC = {'abs': pe.abs_enclosure, 'exp': pe.exp_enclosure, 'log': pe.log_enclosure, 'sigmoid': pe.sigmoid_enclosure,
       'softplus': pe.softplus_enclosure, 'swish': pe.swish_enclosure}

def region(rng, name, g=None):
  """(a, x0, b) with x0 equal to an end point or at a safe distance from it."""
  m = rng.random()
  span = 12 if name in ('sigmoid', 'softplus', 'swish') else 4
  if name == 'log':
    lo = rng.choice([.3, .5, 1., 2.]); x0 = lo * (1 + rng.random()); a = rng.choice([x0, x0 - .2, lo * .7]); b = rng.choice([x0, x0 + .3, x0 * 2])
    if x0 - a < .1 and a != x0: a = x0 - .1
  else:
    c = rng.choice([0., 0., rng.uniform(-span, span), rng.uniform(-3, 3), round(rng.uniform(-6, 6))])
    x0 = c
    a = x0 - rng.choice([0, .25, 1., 2 * rng.random() + .2, span * rng.random() + .2, span / 2])
    b = x0 + rng.choice([0, .25, 1., 2 * rng.random() + .2, span * rng.random() + .2, span / 2])
  return float(a), float(x0), float(b)

def regions(rng, name):
  shape = rng.choice([(), (), (1,), (3,), (2, 2)])
  n = int(np.prod(shape, dtype=int))
  t = [region(rng, name) for _ in range(n)]
  A_, X, B_ = [np.array([q[i] for q in t]).reshape(shape) for i in range(3)]
  return A_, X, B_

def sample(rng, a, b, x0=None):
  g = gen(rng)
  ts = np.concatenate([np.linspace(0, 1, 33), g.random(16)])
  return np.stack([a + t * (b - a) for t in ts] + ([x0] if x0 is not None else []))

def poly_bounds(coefs, z):
  lo = hi = 0.; mag = 0.
  for i, c in enumerate(coefs):
    p = z**i
    l, h = ends(c)
    with np.errstate(invalid='ignore'):
      u, v = np.where(p == 0, 0. if i else l, l * p), np.where(p == 0, 0. if i else h, h * p)
    lo = lo + np.minimum(u, v); hi = hi + np.maximum(u, v)
    mag = mag + np.where(np.isfinite(u), np.abs(u), 0) + np.where(np.isfinite(v), np.abs(v), 0)
  return lo, hi, mag

def amp(a, x0, b, k):
  """Amplification of rounding errors by the remainder ratio."""
  da, db = np.abs(a - x0), np.abs(b - x0)
  m = np.maximum(da, db)
  s = np.where(da == 0, np.where(db == 0, 1, db), np.where(db == 0, da, np.minimum(da, db)))
  return np.maximum(1., (np.where(m == 0, 1, m) / s))**k

def valid_enclosure(rng, coefs, f, a, x0, b, k, desc, scale=1.):
  if len(coefs) != k + 1: raise Bad(f'{len(coefs)} coefficients: {desc}')
  xs = sample(rng, a, b, x0)
  lo, hi, mag = poly_bounds(coefs, xs - x0)
  v = f(xs)
  tol = (1e-13 * amp(a, x0, b, k) + 1e-12) * (mag + np.abs(v).max(0) + np.abs(scale)) 
  if is_iv(coefs[k]):
    l, h = coefs[k]; d = np.max(np.abs(xs - x0), 0)**k
    if np.any((l - h) * d > tol): raise Bad(f'final interval {coefs[k]} is empty: {desc}')
  bad = ~((lo <= v + tol) & (v <= hi + tol))
  if np.any(bad):
    i = tuple(np.argwhere(bad)[0])
    j = i[1:]
    raise Bad(f'{desc}: at x={xs[i]} value {v[i]} not in [{lo[i]}, {hi[i]}]; x0={x0[j]} region=({a[j]}, {b[j]})')

def f64(name):
  return lambda x: np.abs(x) if name == 'abs' else np.real(BASE[name](np.asarray(x, float)))

@check('C10', weight=2)
def primitive_enclosure_valid(rng):
  name = rng.choice(sorted(ENC)); k = rng.randint(0, MAXD[name])
  if name in ('exp', 'log') and rng.random() < .3: k = rng.randint(0, 10)
  a, x0, b = regions(rng, name)
  if name == 'abs' and k == 1:
    x0 = np.where(x0 == 0, np.where(b > 0, b, np.where(a < 0, a, x0)), x0)
    if np.any(x0 == 0): raise Skip
  desc = f'{name}_enclosure(x0={x0!r}, region=({a!r}, {b!r}), degree={k})'
  e = ENC[name](x0, (a, b), k, np)
  valid_enclosure(rng, e, f64(name), a, x0, b, k, desc)
  return desc

def _sig(x):
  t = np.exp(-np.abs(x)); return np.where(x >= 0, 1, t) / (1 + t)
STABLE = {'sigmoid': _sig, 'softplus': lambda x: np.logaddexp(0., x), 'swish': lambda x: x * _sig(x), 'abs': np.abs}
@check('C10')
def primitive_enclosure_far(rng):
  """Regions far from zero, where careless formulas overflow."""
  name = rng.choice(sorted(STABLE)); k = rng.randint(0, min(2, MAXD[name]))
  x0 = np.array(rng.choice([1., -1.]) * rng.choice([0., 30., 200., 800., 5e3]))
  a, b = [np.asarray(x0 + s * rng.choice([0., 1., 100., 1000.])) for s in (-1, 1)]
  if name == 'abs' and k == 1 and x0 == 0: raise Skip
  desc = f'{name}_enclosure(x0={x0!r}, region=({a!r}, {b!r}), degree={k})'
  with np.errstate(all='ignore'): e = ENC[name](x0, (a, b), k, np)
  if not all(np.all(np.isfinite(q)) for c in e for q in ends(c)): raise Bad(f'{desc} = {e!r}, although the function and its derivatives are bounded on the region')
  valid_enclosure(rng, e, STABLE[name], a, x0, b, k, desc)
  return desc

def pow_case(rng, touch=False):
  k = rng.randint(0, 5)
  p = rng.choice([2, 3, 4, 5, 6, 1, 0, -1, -2, -3, -4, 7, -5, 2., 3., 0.5, 1.5, 2.5, 3.5, -0.5, -1.5, 1 / 3])
  integer = int(p) == p
  sgn = rng.choice(['pos', 'pos', 'neg', 'straddle']) if integer else 'pos'
  x0 = rng.choice([.5, 1., 2., 1.7, .8, 3.])
  if sgn == 'neg': x0 = -x0
  d1, d2 = rng.choice([0, .3, .2, .25]) * abs(x0), rng.choice([0, .3, .5, 1.]) * abs(x0)
  a, b = x0 - d1, x0 + (d2 if sgn == 'pos' else min(d2, .5 * abs(x0)))
  if sgn == 'straddle':
    x0 = rng.choice([-1, 1]) * x0
    a, b = min(x0, 0) - rng.choice([.4, 1., .1]), max(x0, 0) + rng.choice([.4, 1., .1])
    if rng.random() < .2: a, b = rng.choice([(min(x0, 0.), b), (a, max(x0, 0.))])
  if touch and (sgn == 'pos' and p >= 0 or integer and p >= 0):
    if sgn == 'pos': a = 0.
    else: x0 = -abs(x0); a, b = x0 - rng.choice([.4, 1., .1]), 0.
  return p, k, np.array(float(a)), np.array(float(x0)), np.array(float(b))

def powf(p): return lambda x: np.asarray(x, float)**float(p)

@check('C10', weight=2)
def pow_enclosure_valid(rng):
  p, k, a, x0, b = pow_case(rng)
  if rng.random() < .4:     # vector of cases with the same exponent and degree
    more = [pow_case(rng) for _ in range(60)]
    more = [m for m in more if m[0] == p][:3]
    a, x0, b = [np.stack([q] + [m[i] for m in more]) for i, q in ((2, a), (3, x0), (4, b))]
  desc = f'pow_enclosure({p}, x0={x0!r}, region=({a!r}, {b!r}), degree={k})'
  with np.errstate(all='ignore'):
    e = pe.pow_enclosure(p, x0, (a, b), k, np)
    if len(e) != k + 1: raise Bad(f'{len(e)} coefficients: {desc}')
    xs = sample(rng, a, b)
    v = powf(p)(xs)
    lo, hi, mag = poly_bounds(e, xs - x0)
    ok = np.isfinite(v)
    if np.any(np.isnan(lo[ok])) or np.any(np.isnan(hi[ok])): raise Bad(f'NaN bounds: {desc} = {e}')
    tol = (1e-13 * amp(a, x0, b, k) + 1e-12) * (mag + 1 + np.abs(np.where(ok, v, 0)).max(0))
    if is_iv(e[k]) and np.any((e[k][0] - e[k][1]) * np.max(np.abs(xs - x0), 0)**k > tol): raise Bad(f'final interval {e[k]} is empty: {desc}')
    bad = ok & ~((lo <= v + tol) & (v <= hi + tol))
  if np.any(bad): raise Bad(f'{desc} = {e}: values {v[bad][:3]} not in [{lo[bad][:3]}, {hi[bad][:3]}] at {xs[bad][:3]}')
  return desc

def ratio_true(name, k, x, x0):
  """Remainder ratio by numerical integration of the derivative (integral form): k * int_0^1 (1-t)^(k-1) f^(k)(x0+t(x-x0))/k! dt."""
  if k == 0: return f64(name)(x)
  t, w = np.polynomial.legendre.leggauss(60); t = (t + 1) / 2; w = w / 2
  s = 0.
  for ti, wi in zip(t, w): s = s + wi * k * (1 - ti)**(k - 1) * true_deriv(name, k, np.asarray(x0 + ti * (x - x0))) / math.factorial(k)
  return s

@check('C11', weight=2)
def primitive_enclosure_sharp(rng):
  name = rng.choice([n for n in sorted(ENC) if n != 'abs']); k = rng.randint(0, MAXD[name])
  a, x0, b = regions(rng, name)
  desc = f'{name}_enclosure(x0={x0!r}, region=({a!r}, {b!r}), degree={k})'
  e = ENC[name](x0, (a, b), k, np)
  if len(e) != k + 1: raise Bad(f'{len(e)} coefficients: {desc}')
  for i in range(k):
    if is_iv(e[i]): raise Bad(f'coefficient {i} is an interval: {desc}')
    close(e[i], true_deriv(name, i, x0) / math.factorial(i), what=f'coefficient {i} of {desc}', rtol=1e-9)
  if not is_iv(e[k]): raise Bad(f'the final coefficient is not an interval: {desc}')
  lo, hi = e[k]
  da, db = np.abs(a - x0), np.abs(b - x0)
  m = np.where(da == 0, db, np.where(db == 0, da, np.minimum(da, db))); m = np.where(m == 0, 1, m)
  rnd = 1e-13 * (1 + np.abs(f64(name)(a)) + np.abs(f64(name)(b)) + np.abs(f64(name)(x0)) + sum(np.abs(c) * np.maximum(da, db)**i for i, c in enumerate(e[:k]))) / m**k + 1e-9
  if np.any(lo > hi + rnd): raise Bad(f'final interval {e[k]} is empty: {desc}')
  # monotone k-th derivative
  xs = sample(rng, a, b)
  xs.sort(0)
  dk = true_deriv(name, k + 1, xs) if name != 'abs' else None
  wide = (b - a) > 1e-6
  inc, dec = np.all(dk >= 1e-9, 0) & wide, np.all(dk <= -1e-9, 0) & wide
  ra, rb = ratio_true(name, k, a, x0), ratio_true(name, k, b, x0)
  tol = rnd + 1e-9 * (np.abs(ra) + np.abs(rb))
  for cond, l, h in ((inc, ra, rb), (dec, rb, ra)):
    if np.any(cond & (np.abs(lo - l) > tol)) or np.any(cond & (np.abs(hi - h) > tol)): raise Bad(f'not sharp: {desc}: {e[k]}, attained ratios {(l, h)}')
  if k == 2 and name in ('softplus', 'swish'):
    # even second derivative, decreasing in |x| : max at the clipped -x0, min at an end (softplus)
    if name == 'softplus':
      c = np.clip(-x0, a, b); rc = ratio_true(name, 2, c, x0)
      away = (np.abs(c - x0) > .05) | (c == x0)
      if np.any(away & (np.abs(hi - rc) > tol + 1e-9 + 1e-12 / np.where(c == x0, 1, np.abs(c - x0))**2 * 10)): raise Bad(f'upper end not attained: {desc}: {hi} vs {rc}')
      if np.any(np.abs(lo - np.minimum(ra, rb)) > tol): raise Bad(f'lower end not attained: {desc}: {lo} vs {np.minimum(ra, rb)}')
  return desc

@check('C11')
def pow_enclosure_sharp(rng):
  p, k, a, x0, b = pow_case(rng, rng.random() < .25)
  if a < 0 < b or p < 0 and (a == 0 or b == 0): raise Skip
  desc = f'pow_enclosure({p}, x0={x0!r}, region=({a!r}, {b!r}), degree={k})'
  with np.errstate(all='ignore'): e = pe.pow_enclosure(p, x0, (a, b), k, np)
  if len(e) != k + 1: raise Bad(f'{len(e)} coefficients: {desc}')
  c = lambda i: np.prod([(p - j) / (j + 1) for j in range(i)]) if i else 1.
  for i in range(k): close(e[i], c(i) * float(x0)**(p - i), what=f'coefficient {i} of {desc}', rtol=1e-10)
  if not is_iv(e[k]): raise Bad(f'the final coefficient is not an interval: {desc}')
  def R(x):
    if k == 0: return float(x)**p
    if x == 0: return (0.**p - sum(c(i) * float(x0)**(p - i) * float(-x0)**i for i in range(k))) / float(-x0)**k
    t, w = np.polynomial.legendre.leggauss(60); t = (t + 1) / 2; w = w / 2
    return float(np.sum(w * k * (1 - t)**(k - 1) * c(k) * (x0 + t * (x - x0))**(p - k)))
  l, h = sorted([R(a), R(b)])
  d = [abs(float(q - x0)) for q in (a, b) if q != x0] or [1.]
  tol = 1e-9 * (1 + abs(l) + abs(h)) + 1e-13 * 10 * (1 + abs(x0)**p) / min(d)**k
  if e[k][0] > e[k][1] + tol: raise Bad(f'final interval {e[k]} is empty: {desc}')
  if abs(e[k][0] - l) > tol or abs(e[k][1] - h) > tol: raise Bad(f'not sharp: {desc}: {e[k]}, attained {(l, h)}')
  return desc

# ------------------------------------------------------------------ C12
@check('C12', weight=2)
def derivative_formula(rng):
  name = rng.choice(sorted(IDS)); k = rng.randint(0, MAXD[name])
  shape = rng.choice([(), (3,), (2, 2)])
  g = gen(rng)
  x = g.uniform(.2, 5, shape) if name == 'log' else g.choice([g.uniform(-8, 8, shape), g.normal(size=shape)])
  if name == 'abs' and rng.random() < .3: x = x * 0
  v = ef.get_function(IDS[name].derivative_id(k), np)(np.asarray(x))
  close(v, true_deriv(name, k, x), what=f'{name} derivative {k} at {x!r}', rtol=1e-9 if name != 'log' else 1e-8)
  return f'{name} {k} {x!r}'

@check('C12')
def derivative_extreme_arguments(rng):
  name = rng.choice(['sigmoid', 'softplus', 'swish', 'sigmoid', 'abs'])
  k = rng.choice([0, rng.randint(0, MAXD[name])])
  x = np.array([rng.choice([1, -1]) * rng.choice([50., 300., 800., 1e4])])
  with np.errstate(all='ignore'): v = ef.get_function(IDS[name].derivative_id(k), np)(x)
  s = float(x[0] > 0)
  want = {'sigmoid': [s] + [0.] * 9, 'softplus': [max(x[0], 0), s] + [0.] * 9, 'swish': [max(x[0], 0), s] + [0.] * 9, 'abs': [abs(x[0]), np.sign(x[0])]}[name][k]
  close(v, np.array([want]), what=f'{name} derivative {k} at {x}', rtol=1e-12)
  return f'{name} {k} {x}'

def reg12(rng, name, k=None):
  a, x0, b = regions(rng, name)
  if k is not None and rng.random() < .4:
    # next to an extremum, on either side
    d = ef.get_function_data(IDS[name].derivative_id(k)); ext = sorted(d.local_minima + d.local_maxima)
    if ext:
      c = rng.choice(ext); eps = rng.choice([1e-4, 5e-4, 1e-3, 1e-2, .1, 0.]); L = rng.choice([.05, .3, 1., 3.])
      a, b = rng.choice([(c - eps, c + L), (c - L, c + eps), (c + eps, c + L + eps), (c - L - eps, c - eps)])
      others = [q for q in ext if q != c]
      if others and rng.random() < .5:
        q = rng.choice(others); a, b = sorted((c + rng.choice([-1, 1]) * eps, q))
      return np.asarray(a), np.asarray(b)
  if rng.random() < .5 and name != 'log':
    g = gen(rng); a = g.uniform(-10, 10, a.shape); b = a + g.choice([.1, 1., 5., 15.]) * g.random(a.shape)
  return a, b

@check('C12', weight=2)
def range_exact(rng):
  name = rng.choice(sorted(IDS)); k = rng.randint(0, {'swish': 5}.get(name, MAXD[name]) if name != 'swish' else 4)
  a, b = reg12(rng, name, k)
  fid = IDS[name].derivative_id(k)
  r = ef.get_range(fid, (a, b), np)
  xs = np.stack([a + t * (b - a) for t in np.linspace(0, 1, 4001)])
  v = true_deriv(name, k, xs)
  desc = f'range of {name} derivative {k} over ({a!r}, {b!r}) = {r!r}'
  tol = 1e-9 * (1 + np.abs(v).max(0))
  gap = 2e-6 * (b - a)**2 * (1 if name != 'log' else 0) + tol
  if name == 'abs': gap = 1e-3 * (b - a) + tol
  if np.any(r[0] > v.min(0) + tol) or np.any(r[1] < v.max(0) - tol): raise Bad(f'{desc}: values span {(v.min(0), v.max(0))}')
  if np.any(r[0] < v.min(0) - gap) or np.any(r[1] > v.max(0) + gap): raise Bad(f'{desc}: values span only {(v.min(0), v.max(0))}')
  return desc

@check('C12', weight=2)
def monotone_regions(rng):
  name = rng.choice(sorted(IDS)); k = rng.randint(0, {'abs': 1, 'swish': 5}.get(name, MAXD[name]))
  a, b = reg12(rng, name, k)
  d = ef.get_function_data(IDS[name].derivative_id(k))
  dec, inc = d.monotone_over((a, b), np)
  gs = np.geomspace(1e-5, 1e-2, 30)
  xs = np.stack([a + t * (b - a) for t in np.unique(np.concatenate([np.linspace(0, 1, 2001), gs, 1 - gs]))])
  v = true_deriv(name, k, xs)
  df = np.diff(v, axis=0); tol = 1e-11 * (1 + np.abs(v).max(0))
  if name == 'log': tol = 1e-8 * np.abs(v).max(0)
  if name in ('swish', 'softplus', 'sigmoid') : tol = tol + 1e-10
  desc = f'{name} derivative {k} over ({a!r}, {b!r})'
  if np.any(dec & np.any(df > tol, 0)): raise Bad(f'reported decreasing but is not: {desc}')
  if np.any(inc & np.any(df < -tol, 0)): raise Bad(f'reported increasing but is not: {desc}')
  if d.monotonically_increasing and np.any(df < -tol): raise Bad(f'flag monotonically_increasing: {desc}')
  if d.monotonically_decreasing and np.any(df > tol): raise Bad(f'flag monotonically_decreasing: {desc}')
  if d.even_symmetric:
    x = gen(rng).uniform(-8, 8, 5)
    close(true_deriv(name, k, x), true_deriv(name, k, -x), what=f'symmetry flag of {name} {k}', rtol=1e-9)
  # completeness: monotone on a region that stays away from extrema
  st_inc, st_dec = np.all(df > 1e-7, 0), np.all(df < -1e-7, 0)
  if name != 'abs' or k == 0:
    if np.any(st_inc & ~inc): raise Bad(f'increasing but not reported: {desc}')
    if np.any(st_dec & ~dec): raise Bad(f'decreasing but not reported: {desc}')
  return desc

GS = np.geomspace(1e-5, 1e-1, 24)
FAST = np.unique(np.concatenate([np.linspace(0, 1, 30), GS, 1 - GS]))
@check('C12', weight=12)
def monotone_and_range_sound(rng):
  """Few sample points, many regions."""
  name = rng.choice(sorted(IDS)); k = rng.randint(0, {'abs': 1, 'swish': 5}.get(name, MAXD[name]))
  a, b = reg12(rng, name, k)
  fid = IDS[name].derivative_id(k); d = ef.get_function_data(fid)
  dec, inc = d.monotone_over((a, b), np)
  xs = np.stack([a + t * (b - a) for t in FAST])
  v = true_deriv(name, k, xs)
  df = np.diff(v, axis=0); tol = 1e-10 * (1 + np.abs(v).max(0)) * (100 if name == 'log' else 1)
  desc = f'{name} derivative {k} over ({a!r}, {b!r})'
  if np.any(dec & np.any(df > tol, 0)): raise Bad(f'reported decreasing but is not: {desc}')
  if np.any(inc & np.any(df < -tol, 0)): raise Bad(f'reported increasing but is not: {desc}')
  if k < 5 or name != 'swish':
    r = ef.get_range(fid, (a, b), np); tol = 10 * tol
    if np.any(r[0] > v.min(0) + tol) or np.any(r[1] < v.max(0) - tol): raise Bad(f'range {r!r} of {desc}: values span {(v.min(0), v.max(0))}')
    if np.any(r[0] > r[1]): raise Bad(f'range {r!r} of {desc}')

@check('C12')
def derivative_id_order(rng):
  name = rng.choice(sorted(IDS)); i, j = rng.randint(0, 4), rng.randint(0, 4)
  f = IDS[name].derivative_id(i).derivative_id(j)
  if f.derivative_order != i + j or f.name != name or f.x_min != IDS[name].x_min or f.x_max != IDS[name].x_max: raise Bad(f'derivative_id: {f}')
  return str(f)

# ------------------------------------------------------------------ C16
@check('C16')
def refusals_primitive(rng):
  case = rng.choice(['order', 'unknown', 'data', 'nderiv', 'ratio', 'bounded'])
  x = np.array(rng.uniform(.1, 2))
  def bad(f, what, exc=(NotImplementedError, ValueError)):
    try: r = f()
    except exc: return what
    raise Bad(f'{what} was not refused: {r!r}')
  name = rng.choice(['sigmoid', 'softplus', 'swish', 'abs'])
  k = MAXD[name] + 1 + rng.randint(0, 3)
  if name == 'swish': k += 1 if case == 'data' else 0
  if case == 'order': return bad(lambda: ef.get_function(IDS[name].derivative_id(k), np)(x), f'{name} derivative {k}')
  if case == 'unknown': return bad(lambda: ef.get_function(ef.FunctionId('no such'), np), 'unknown function')
  if case == 'data': return bad(lambda: ef.get_function_data(ef.FunctionId(rng.choice(['no such', 'relu', '']))), 'unknown function data')
  if case == 'nderiv': return bad(lambda: ENC[name](x, (x - .1, x + 1), k + 1, np), f'{name} enclosure of degree {k + 1}')
  d = rng.randint(0, 4); n = rng.choice([i for i in range(0, 7) if i != d + 1])
  if case == 'ratio': return bad(lambda: pe.taylor_remainder_ratio(x, d, np.exp, [x] * n, x + 1, np), f'{n} coefficients for degree {d}')
  return bad(lambda: pe.bounded_derivative_enclosure(d, [x] * (n if n != d else n + 7), (x, x)), 'wrong number of coefficients')
