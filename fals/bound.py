"""Run-time contracts of jax_bound.py (C01, C15, C16, C17)."""
import contextlib, functools, inspect, math
import jax, jax.numpy as jnp, numpy as np
jax.config.update('jax_enable_x64', True)
from jax import lax
from .main import check, Skip
from .util import *
from autobound.jax import jax_bound as jb
from autobound import enclosure_arithmetic as EA, types as T

REFUSED = (NotImplementedError, ValueError, TypeError, AssertionError, KeyError, IndexError, ZeroDivisionError)

# ------------------------------------------------------------ random programs
UN = ['neg', 'exp', 'log', 'abs', 'sqrt', 'rsqrt', 'cbrt', 'sigmoid', 'logistic', 'softplus', 'swish', 'ipow', 'fpow', 'lit+', 'lit-', 'lit*', 'lit/', '/lit', 'jit', 'c*', 'c+']
BIN = ['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul']
LINEAR = ['sum', 'dot', 'rdot', 'bdot', 'bcast', 'squeeze', 'expand', 'cast', 'sum', 'twice']
SHAPED = ['reshape', 'transpose', 'window', 'conv', 'T']      # for scalar x only

class Prog:
  """A program made of steps; run(x, hook) evaluates it."""
  def __init__(self, rng, xs, n, ops, probe=None):
    self.steps = []; self.x_shape = xs; self.shapes = [xs]
    g = gen(rng); self.desc = []
    # a little structure first: W x + b
    if rng.random() < .5 and xs:
      k = rng.randint(1, 3); W = np.round(g.normal(size=(k,) + xs), 2); b = np.round(g.normal(size=(k,)), 2)
      self.push(lambda v, W=W, b=b: jnp.dot(W, v[0]) + b, (k,), f'{W.tolist()}@x+{b.tolist()}')
    for _ in range(n): self.step(rng, g, rng.choice(ops))
  def push(self, f, shape, d): self.steps.append(f); self.shapes.append(tuple(shape)); self.desc.append(f'v{len(self.steps)}={d}:{tuple(shape)}')
  def step(self, rng, g, op):
    i = len(self.shapes) - 1 if rng.random() < .6 else rng.randrange(len(self.shapes)); s = self.shapes[i]; r = len(s)
    c = rng.choice([.5, 2., -1., 3., 1., -.25])
    carr = lambda shape: np.round(g.normal(size=shape), 2)
    P = lambda f, sh, d: self.push(lambda v, f=f, i=i: f(v[i]), sh, d)
    if op == 'neg': P(lambda u: -u, s, f'-v{i}')
    elif op == 'exp': P(lambda u: jnp.exp(u * .5), s, f'exp(.5 v{i})')
    elif op == 'log': P(lambda u: jnp.log(u * u + .5), s, f'log(v{i}^2+.5)')
    elif op == 'abs': P(lambda u: jnp.abs(u), s, f'abs(v{i})')
    elif op == 'sqrt': P(lambda u: jnp.sqrt(jnp.exp(u * .3)), s, f'sqrt(exp(.3 v{i}))')
    elif op == 'rsqrt': P(lambda u: lax.rsqrt(u * u + 1.), s, f'rsqrt(v{i}^2+1)')
    elif op == 'cbrt': P(lambda u: lax.cbrt(jnp.exp(u * .3) + .1), s, f'cbrt(exp(.3 v{i})+.1)')
    elif op == 'sigmoid': P(lambda u: jax.nn.sigmoid(u), s, f'sigmoid(v{i})')
    elif op == 'logistic': P(lambda u: lax.logistic(u), s, f'logistic(v{i})')
    elif op == 'softplus': P(lambda u: jax.nn.softplus(u), s, f'softplus(v{i})')
    elif op == 'swish': P(lambda u: jax.nn.swish(u), s, f'swish(v{i})')
    elif op == 'ipow': k = rng.choice([0, 1, 2, 3, 4, 5]); P(lambda u: lax.integer_pow(u, k), s, f'v{i}^{k}')
    elif op == 'fpow': k = rng.choice([.5, 1.5, -1.2, 2.5]); P(lambda u: lax.pow(jnp.exp(.2 * u), k), s, f'exp(.2 v{i})^{k}')
    elif op == 'lit+': P(lambda u: c + u, s, f'{c}+v{i}')
    elif op == 'lit-': P(lambda u: c - u, s, f'{c}-v{i}')
    elif op == 'lit*': P(lambda u: u * c, s, f'v{i}*{c}')
    elif op == 'lit/': P(lambda u: u / c, s, f'v{i}/{c}')
    elif op == '/lit': P(lambda u: c / (u * u + 1.), s, f'{c}/(v{i}^2+1)')
    elif op == 'jit': k = rng.choice([0, 1, 2]); P(lambda u: jax.jit(lambda t: [t * t - c, jnp.exp(.3 * t) + c, jax.jit(lambda w: w - 2. * w * w)(t)][k])(u), s, f'jit{k}(v{i},{c})')
    elif op == 'c*': A = carr(s); P(lambda u: u * A, s, f'v{i}*{A.tolist()}')
    elif op == 'c+': A = carr(s); P(lambda u: A - u, s, f'{A.tolist()}-v{i}')
    elif op in ('add', 'sub', 'mul', 'div'):
      js = [j for j, t in enumerate(self.shapes) if t == s or t == () or s == ()]; j = rng.choice(js); t = self.shapes[j]; sh = s or t
      if rng.random() < .5: a, b = i, j
      else: a, b = j, i
      f = dict(add=lambda x, y: x + y, sub=lambda x, y: x - y, mul=lambda x, y: x * y, div=lambda x, y: x / (y * y + 1.))[op]
      self.push(lambda v: f(v[a], v[b]), sh, f'{op}(v{a},v{b})')
    elif op == 'sum':
      if not r: return
      ax = tuple(sorted(rng.sample(range(r), rng.randint(1, r)))); P(lambda u: jnp.sum(u, axis=ax), [d for k, d in enumerate(s) if k not in ax], f'sum(v{i},{ax})')
    elif op in ('dot', 'rdot'):
      if not r: return
      k = rng.randrange(r); W = carr(rng.choice([(s[k],), (s[k], 2), (2, s[k]), (2, s[k], 2)])); w = [q for q in range(W.ndim) if W.shape[q] == s[k]][-1]
      rest, wr = [d for q, d in enumerate(s) if q != k], [d for q, d in enumerate(W.shape) if q != w]
      if len(rest) + len(wr) > 3: return
      if op == 'dot': P(lambda u: lax.dot_general(u, W, (((k,), (w,)), ((), ()))), rest + wr, f'dot_general(v{i},{W.tolist()},{k},{w})')
      else: P(lambda u: lax.dot_general(W, u, (((w,), (k,)), ((), ()))), wr + rest, f'dot_general({W.tolist()},v{i},{w},{k})')
    elif op == 'bdot':       # batched, both operands may depend on x
      js = [j for j, t in enumerate(self.shapes) if t == s]
      if r < 1: return
      j = rng.choice(js); b = rng.randrange(r); con = [q for q in range(r) if q != b and rng.random() < .6]
      free = [d for q, d in enumerate(s) if q != b and q not in con]
      if 2 * len(free) + 1 > 3: return
      dn = ((tuple(con), tuple(con)), ((b,), (b,)))
      if rng.random() < .5: self.push(lambda v: lax.dot_general(v[i], v[j], dn), [s[b]] + free + free, f'dot_general(v{i},v{j},{dn})')
      else: W = carr(s); P(lambda u: lax.dot_general(u, W, dn), [s[b]] + free + free, f'dot_general(v{i},{W.tolist()},{dn})')
    elif op == 'bcast':
      if r >= 2: return
      k, m = rng.choice([1, 2]), rng.randint(0, r); sh = list(s); sh.insert(m, k); dims = tuple(q if q < m else q + 1 for q in range(r))
      P(lambda u: lax.broadcast_in_dim(u, tuple(sh), dims), sh, f'broadcast(v{i},{sh},{dims})')
    elif op == 'squeeze':
      ax = [q for q, d in enumerate(s) if d == 1]
      if not ax: return
      k = rng.choice(ax); P(lambda u: lax.squeeze(u, (k,)), s[:k] + s[k + 1:], f'squeeze(v{i},{k})')
    elif op == 'expand': 
      if r >= 2: return
      k = rng.randint(0, r); P(lambda u: lax.expand_dims(u, (k,)), s[:k] + (1,) + s[k:], f'expand(v{i},{k})')
    elif op == 'twice':      # one primitive applied twice to one variable, with different parameters
      q = rng.choice(['sum', 'bcast', 'dot', 'ipow', 'transpose']); w = rng.choice([(1., 0.), (0., 1.), (1., -1.), (1., 2.)])
      if q == 'ipow': k, l = rng.sample([1, 2, 3, 4], 2); P(lambda u: w[0] * lax.integer_pow(u, k) + w[1] * lax.integer_pow(u, l), s, f'{w[0]}*v{i}^{k}+{w[1]}*v{i}^{l}')
      elif r != 1 or s[0] > 3: return
      elif q == 'bcast': P(lambda u: w[0] * lax.broadcast_in_dim(u, s + s, (0,)) + w[1] * lax.broadcast_in_dim(u, s + s, (1,)), s + s, f'{w}.broadcasts(v{i},0,1)')
      else:
        W = carr(s + s); V = carr(s)
        if q == 'sum': P(lambda u: (lambda m: w[0] * jnp.sum(m, 0) + w[1] * jnp.sum(m, 1))(u[:, None] * W), s, f'{w}.sums(v{i}*{W.tolist()},0,1)')
        elif q == 'dot': P(lambda u: (lambda m: w[0] * lax.dot_general(m, V, (((0,), (0,)), ((), ()))) + w[1] * lax.dot_general(m, V, (((1,), (0,)), ((), ()))))(u[:, None] * W), s, f'{w}.dots(v{i}*{W.tolist()},{V.tolist()},0,1)')
        else: P(lambda u: (lambda m: w[0] * lax.transpose(m, (1, 0)) + w[1] * lax.transpose(m, (0, 1)))(u[:, None] * W), s + s, f'{w}.transposes(v{i}*{W.tolist()})')
    elif op == 'cast': P(lambda u: lax.convert_element_type(u, np.float64), s, f'cast(v{i})')
    elif op == 'reshape':
      n = int(np.prod(s)); sh = rng.choice([(n,), (1, n), (n, 1)]); P(lambda u: jnp.reshape(u, sh), sh, f'reshape(v{i},{sh})')
    elif op in ('transpose', 'T'):
      if r < 2: return
      p = list(range(r)); rng.shuffle(p); P(lambda u: lax.transpose(u, tuple(p)), [s[q] for q in p], f'transpose(v{i},{p})')
    elif op == 'window':
      if r != 1 or s[0] < 2: return
      P(lambda u: lax.reduce_window(u, 0., lax.add, (2,), (1,), 'VALID'), (s[0] - 1,), f'window_sum(v{i})')
    elif op == 'conv':
      if r != 1: return
      K = np.abs(carr((1, 1, 2)))
      P(lambda u: lax.conv_general_dilated(jnp.reshape(u, (1, 1, -1)), jnp.asarray(K), (1,), 'SAME')[..., :].reshape((s[0],)), s, f'conv(v{i},{K.tolist()})')
  def run(self, x, hook=None):
    v = [x]
    for k, f in enumerate(self.steps):
      y = f(v)
      if hook is not None: y = hook(k, y)
      v.append(y)
    return v
  def value(self, x): return self.run(x)[-1]
  def __repr__(self): return f'x:{self.x_shape}; ' + '; '.join(self.desc)

def region(rng, xs):
  g = gen(rng)
  x0 = np.round(g.normal(size=xs) * rng.choice([.3, 1., 2.]), 2)
  if rng.random() < .3: x0 = np.where(g.random(size=xs) < .5, 0., x0)
  lo, hi = [np.round(g.random(size=xs) * rng.choice([.2, 1., 2.]), 2) for _ in range(2)]
  if rng.random() < .2: lo = lo * 0
  if rng.random() < .2: hi = hi * 0
  if rng.random() < .15: lo, hi = lo + .3, hi + 1.
  return x0, (x0 - lo, x0 + hi)
def points(rng, x0, tr, n=8):
  g = gen(rng)
  yield x0; yield tr[0]; yield tr[1]
  for k in range(n):
    t = g.random(size=x0.shape) if k % 2 else g.choice([0., 1., .5], size=x0.shape)
    yield tr[0] + t * (tr[1] - tr[0])
def holds(b, f, x0, tr, rng, d):
  xs = np.shape(x0)
  fx0 = f(jnp.asarray(x0))
  for i, c in enumerate(b.coefficients):
    for e in c if isinstance(c, tuple) else (c,):
      s = np.shape(e)
      if s[len(s) - i * len(xs):] != i * xs: raise Bad(f'coefficient {i} has shape {s}: {d}')
  for x in points(rng, x0, tr):
    x = np.minimum(np.maximum(x, tr[0]), tr[1])
    y = np.asarray(f(jnp.asarray(x))); lo, hi = np.asarray(b.lower(x)), np.asarray(b.upper(x))
    try: np.broadcast_shapes(lo.shape, y.shape)
    except ValueError: raise Bad(f'bounds of shape {lo.shape} for value of shape {y.shape}: {d}')
    if np.broadcast_shapes(lo.shape, y.shape) != y.shape: raise Bad(f'bounds of shape {lo.shape} for value of shape {y.shape}: {d}')
    if not np.all(np.isfinite(y)): continue
    mag = max([1.] + [float(np.nanmax(np.abs(np.where(np.isfinite(e), e, 0.)))) if np.size(e) else 0. for c in b.coefficients for e in (c if isinstance(c, tuple) else (c,))])
    tol = 1e-9 * (1 + np.abs(y)) + 1e-10 * mag
    bad = ((lo > y + tol) & ~np.isnan(lo)) | ((hi < y - tol) & ~np.isnan(hi))
    if np.any(bad): raise Bad(f'at x={x.tolist()}: f={y.tolist()} bounds [{lo.tolist()}, {hi.tolist()}] {d}')
def bounded(rng, prog, deg, prop, f=None):
  x0, tr = region(rng, prog.x_shape)
  f = f or prog.value
  d = f'{prog!r} degree {deg} propagate {prop} x0={x0.tolist()} region={[t.tolist() for t in tr]}'
  try: b = jb.taylor_bounds(f, deg, prop)(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr))
  except NotImplementedError: raise Skip()
  except (ValueError, TypeError, AssertionError) as ex: raise Skip()
  holds(b, f, x0, tr, rng, d)
  return d
XS = [(), (), (), (1,), (2,), (2,), (3,)]

@check('C01', 'C17', weight=2)
def program(rng):
  xs = rng.choice(XS)
  ops = UN + BIN * 2 + LINEAR * 2 + (SHAPED if xs == () else [])
  p = Prog(rng, xs, rng.randint(1, 5), ops)
  return bounded(rng, p, rng.choice([0, 1, 1, 2, 2, 3, 4] if xs == () else [0, 1, 1, 2, 2, 3]), rng.random() < .5)

@check('C01', 'C15')
def few_elementwise(rng):
  xs = rng.choice([(), (), (2,)])
  p = Prog(rng, xs, rng.randint(1, 2), UN + BIN)
  return bounded(rng, p, rng.choice([0, 1, 2, 3, 4, 5] if xs == () else [0, 1, 2, 2, 3]), rng.random() < .5)

@check('C15', 'C01', weight=2)
def axes(rng):
  """Linear and bilinear primitives on operands whose coefficients have the axes of x."""
  xs = rng.choice([(2,), (3,), (1,), (2,), ()])
  p = Prog(rng, xs, 0, [])
  g = gen(rng)
  s = rng.choice([(2,), (2, 2), (3, 2), (1, 2), (2, 1, 2), (2, 2, 2)])
  if rng.random() < .25: return two_batch_axes(rng)
  W = np.round(g.normal(size=s + xs), 2)
  p.push(lambda v: jnp.tensordot(jnp.asarray(W), v[0], len(xs)) if xs else jnp.asarray(W) * v[0], s, f'tensordot({W.tolist()}, x)')
  if rng.random() < .5: p.step(rng, g, rng.choice(['ipow', 'exp', 'c*', 'lit+']))
  for _ in range(rng.randint(1, 2)): p.step(rng, g, rng.choice(LINEAR + ['bdot', 'bdot', 'dot', 'rdot'] + SHAPED))
  if len(p.steps) < 2: raise Skip()
  return bounded(rng, p, rng.choice([1, 2, 2, 3]), rng.random() < .3)

def two_batch_axes(rng):
  """dot_general with several batch and contracting axes, both operands or one depending on x."""
  g = gen(rng); xs = rng.choice([(2,), (3,), (2,)]); n = rng.choice([2, 2, 3]); nb = rng.randint(1, n); nc = rng.randint(0, n - nb)
  sl, sr = [tuple(rng.choice([2, 2, 1]) for _ in range(n)) for _ in range(2)]
  pl, pr = [rng.sample(range(n), nb + nc) for _ in range(2)]
  sr = list(sr)
  for i, j in zip(pl, pr): sr[j] = sl[i]
  sr = tuple(sr)
  if nb + 2 * (n - nb - nc) > 4: raise Skip()
  dn = ((tuple(pl[nb:]), tuple(pr[nb:])), (tuple(pl[:nb]), tuple(pr[:nb])))
  A, B = [np.round(g.normal(size=q + xs), 1) for q in (sl, sr)]; which = rng.randint(0, 2); deg = rng.choice([1, 1, 2])
  L = lambda x: jnp.tensordot(A, x, 1) if which != 1 else jnp.asarray(A[..., 0]); R = lambda x: jnp.tensordot(B, x, 1) if which != 0 else jnp.asarray(B[..., 0])
  f = lambda x: lax.dot_general(L(x), R(x), dn)
  x0, tr = region(rng, xs); d = f'dot_general with {dn} of {sl} {["and a constant", "(constant) and", "and"][which]} {sr}, A={A.tolist()} B={B.tolist()} degree {deg} x0={x0.tolist()} region={[t.tolist() for t in tr]}'
  try: b = jb.taylor_bounds(f, deg, rng.random() < .2)(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr))
  except (NotImplementedError, ValueError, TypeError, AssertionError): raise Skip()
  holds(b, f, x0, tr, rng, d)
  return d

@check('C15')
def binary_table(rng):
  """Every primitive of two operands that has a rule is bounded by that rule."""
  t = sorted(Inner(jb)._pushforward_funs(EA.TaylorEnclosureArithmetic(1, (-1., 1.), jnp)), key=str)
  known = {str(q) for q in list(Inner(jb)._PASS_THRU_PRIMITIVES) + list(Inner(jb)._ELEMENTWISE_PRIMITIVE_ENCLOSURES)} | {'dot_general', 'conv_general_dilated', 'broadcast_in_dim', 'integer_pow', 'pow', 'neg'}
  p = rng.choice(t)
  if str(p) in known: raise Skip()
  g = gen(rng); c = float(np.round(g.normal(), 2)) + 3.; k = rng.randint(0, 2)
  one = lambda x: p.bind(x * 1.); two = lambda x: [p.bind(x * 2. - 1., x * x + c), p.bind(jnp.exp(x * .5), jnp.asarray(c)), p.bind(jnp.asarray(c), jnp.exp(.3 * x))][k]
  x0, tr = region(rng, ()); deg = rng.choice([0, 1, 2]); d = f'{p} variant {k} c={c} degree {deg} x0={x0} region={tr}'
  for f in (two, one):
    try: b = jb.taylor_bounds(f, deg)(jnp.asarray(x0), tr)
    except Exception: continue
    holds(b, f, x0, tr, rng, d); return d
  raise Skip()

@check('C15')
def pow_exponents(rng):
  """Powers with a constant exponent, at the ends of the region where the bounds are tight."""
  n = rng.randint(-3, 5); k = rng.choice([float(n), n + rng.choice([1, -1]) * 10.**-rng.randint(2, 5), round(rng.uniform(-3, 5), 2), n + .5])
  x0 = rng.choice([.6, 1., 2., 5.]); tr = (x0 * rng.choice([.1, .5, .9]), x0 * rng.choice([1.1, 3., 20.]))
  deg = rng.choice([0, 1, 2, 3]); f = lambda x: lax.pow(x, jnp.asarray(k, x.dtype))
  b = jb.taylor_bounds(f, deg)(jnp.asarray(x0), (jnp.asarray(tr[0]), jnp.asarray(tr[1]))); d = f'pow(x, {k}) degree {deg} x0={x0} region={tr}'
  for t in tr + (x0,):
    lo, hi, v = np.float64(b.lower(t)), np.float64(b.upper(t)), np.float64(t)**k
    scale = np.float64(x0)**k + v + sum(np.max(np.abs(c)) * abs(t - x0)**i for i, c in enumerate(b.coefficients)); tol = 1e-9 * scale
    if not (lo <= v + tol and v - tol <= hi): raise Bad(f'bounds ({lo}, {hi}) at {t}, value {v}: {d}')
  return d

@check('C15')
def pass_thru(rng):
  """Every primitive that is applied to each coefficient is linear and keeps the order of values."""
  prims = sorted(Inner(jb)._PASS_THRU_PRIMITIVES, key=str)
  if not prims: raise Skip()
  p = rng.choice(prims); name = str(p)
  ax = rng.choice([0, 1])
  progs = {'convert_element_type': lambda u: lax.convert_element_type(u, np.float32), 'reshape': lambda u: jnp.reshape(u, (4,)), 'reduce_sum': lambda u: jnp.sum(u, ax),
           'squeeze': lambda u: lax.squeeze(jnp.reshape(u, (2, 2, 1)), (2,)), 'transpose': lambda u: u.T,
           'reduce_window_sum': lambda u: lax.reduce_window(u, 0., lax.add, (2, 1), (1, 1), 'VALID'), 'reduce_max': lambda u: jnp.max(u, 0), 'reduce_min': lambda u: jnp.min(u, 0),
           'reduce_prod': lambda u: jnp.prod(u, 0), 'cumsum': lambda u: jnp.cumsum(u, 0), 'cumprod': lambda u: jnp.cumprod(u, 0), 'cummax': lambda u: lax.cummax(u, 0), 'cummin': lambda u: lax.cummin(u, 0),
           'sort': lambda u: jnp.sort(u, 0), 'rev': lambda u: lax.rev(u, (0,)), 'sin': jnp.sin, 'cos': jnp.cos, 'sign': jnp.sign, 'floor': jnp.floor, 'ceil': jnp.ceil, 'round': jnp.round, 'tanh': jnp.tanh,
           'exp': jnp.exp, 'log': jnp.log, 'neg': lambda u: -u, 'reduce_and': None, 'argmax': lambda u: jnp.argmax(u, 0), 'real': jnp.real, 'copy': lambda u: jnp.copy(u), 'copy_p': lambda u: jnp.copy(u),
           'reduce_window_max': lambda u: lax.reduce_window(u, -np.inf, lax.max, (2, 1), (1, 1), 'VALID'), 'reduce_window_min': lambda u: lax.reduce_window(u, np.inf, lax.min, (2, 1), (1, 1), 'VALID'),
           'select_and_gather_add': None, 'integer_pow': lambda u: lax.integer_pow(u, 2), 'cumlogsumexp': lambda u: lax.cumlogsumexp(u, 0), 'is_finite': lambda u: lax.is_finite(u), 'stop_gradient': lax.stop_gradient,
           'expand_dims': lambda u: lax.expand_dims(u, (0,)), 'slice': lambda u: lax.slice(u, (0, 0), (1, 2)), 'reduce_precision': lambda u: lax.reduce_precision(u, 5, 2), 'square': lambda u: lax.square(u), 'sqrt': jnp.sqrt,
           'erf': jax.scipy.special.erf, 'atan': jnp.arctan, 'tan': jnp.tan, 'log1p': jnp.log1p, 'expm1': jnp.expm1, 'sinh': jnp.sinh, 'cosh': jnp.cosh, 'logistic': lax.logistic, 'abs': jnp.abs, 'cbrt': jnp.cbrt, 'rsqrt': lax.rsqrt}
  op = progs.get(name)
  if op is None: raise Skip()   # unit PassThru knows the primitives it has a contract for
  g = gen(rng); W = np.round(g.normal(size=(2, 2)), 2); V = np.round(g.normal(size=(2, 2)), 2); k = rng.randint(0, 2)
  f = lambda x: op([W * x + V, jnp.exp(W * x), W * x * x - V * x][k])
  x0, tr = region(rng, ()); deg = rng.choice([0, 1, 2, 3])
  d = f'{name}({["W x + V", "exp(W x)", "W x^2 - V x"][k]}), W={W.tolist()} V={V.tolist()} degree {deg} x0={x0} region={tr}'
  try: b = jb.taylor_bounds(f, deg, rng.random() < .3)(jnp.asarray(x0), tr)
  except (NotImplementedError, ValueError, TypeError, AssertionError): raise Skip()
  holds2(b, f, x0, tr, rng, d, 1e-5 if name == 'convert_element_type' else 1e-9)
  return d
def holds2(b, f, x0, tr, rng, d, rt):
  for x in points(rng, x0, tr):
    y = np.asarray(f(jnp.asarray(x)), float); lo, hi = np.asarray(b.lower(x), float), np.asarray(b.upper(x), float)
    mag = max([1.] + [float(np.max(np.abs(np.asarray(e, float)))) for c in b.coefficients for e in (c if isinstance(c, tuple) else (c,))])
    if np.any(lo > y + rt * mag) or np.any(hi < y - rt * mag): raise Bad(f'at x={x}: f={y.tolist()} bounds [{lo.tolist()}, {hi.tolist()}] {d}')

@check('C15')
def elementwise_table(rng):
  """Each elementwise primitive is bounded by the enclosure of the same function."""
  prims = sorted(Inner(jb)._ELEMENTWISE_PRIMITIVE_ENCLOSURES, key=str); p = rng.choice(prims); name = str(p)
  fs = {'__autobound_sigmoid__': jax.nn.sigmoid, '__autobound_softplus__': jax.nn.softplus, '__autobound_swish__': jax.nn.swish, '__autobound_silu__': jax.nn.swish}
  f = fs.get(name)
  if f is None:
    if name.startswith('__'): 
      fn = getattr(jax.nn, name.strip('_').replace('autobound_', ''), None)
      if fn is None: raise Skip()
      f = fn
    else: f = lambda x: p.bind(x, **({'accuracy': None} if name in ('exp', 'log', 'logistic', 'sqrt', 'rsqrt', 'cbrt', 'sin', 'cos', 'tan', 'tanh', 'log1p', 'expm1', 'exp2') else {}))
  g = gen(rng); sh = rng.choice([(), (2,)])
  x0 = g.normal(size=sh) * rng.choice([.5, 2.]); lo, hi = x0 - g.random(size=sh), x0 + g.random(size=sh)
  if name in ('log', 'cbrt', 'rsqrt', 'sqrt'): x0, lo, hi = np.exp(x0), np.exp(lo), np.exp(hi)
  deg = rng.choice([0, 1, 2, 3]) if name != 'abs' else rng.choice([0, 1])
  fe = Inner(jb)._ELEMENTWISE_PRIMITIVE_ENCLOSURES[p]
  try: inspect.signature(fe).bind(x0, (lo, hi), deg, jnp)
  except TypeError: raise Skip()
  try: c = fe(jnp.asarray(x0), (jnp.asarray(lo), jnp.asarray(hi)), deg, jnp)
  except NotImplementedError: raise Skip()
  d = f'{name} at {x0.tolist()} over [{lo.tolist()}, {hi.tolist()}] degree {deg}: {c}'
  for t in (0., .25, .5, .9, 1.):
    x = lo + t * (hi - lo); z = x - x0; y = np.asarray(f(jnp.asarray(x)))
    l = sum(np.minimum(*[np.asarray(e) * z**i for e in (ci if isinstance(ci, tuple) else (ci, ci))]) for i, ci in enumerate(c))
    h = sum(np.maximum(*[np.asarray(e) * z**i for e in (ci if isinstance(ci, tuple) else (ci, ci))]) for i, ci in enumerate(c))
    close_le(l, y, 10, d); close_le(y, h, 10, d)
  return d

@check('C01', 'C17')
def reuse(rng):
  """One bound function serves several reference points and regions; bounds returned earlier stay valid."""
  xs = rng.choice([(), (), (2,), (1,)]); p = Prog(rng, xs, rng.randint(1, 3), UN + BIN + LINEAR)
  deg = rng.choice([0, 1, 2, 3] if xs == () else [0, 1, 2]); prop = rng.random() < .5
  fun = jb.taylor_bounds(p.value, deg, prop); got = []
  for k in range(rng.choice([2, 2, 3])):
    x0, tr = region(rng, xs)
    try: got.append((fun(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr)), x0, tr))
    except (NotImplementedError, ValueError, TypeError, AssertionError): raise Skip()
  for k, (b, x0, tr) in enumerate(got):
    holds(b, p.value, x0, tr, rng, f'{p!r} degree {deg} propagate {prop}, call {k + 1} of the same bound function: x0={x0.tolist()} region={[t.tolist() for t in tr]} (others: {[(np.asarray(q[1]).tolist(), [t.tolist() for t in q[2]]) for q in got]})')

@check('C01')
def argument_kinds(rng):
  """x0, regions and points given as numbers, lists, NumPy arrays of another type."""
  xs = rng.choice([(), (), (), (2,), (3,)]); p = Prog(rng, xs, rng.randint(1, 3), ['lit+', 'lit-', 'lit*', 'lit/', 'exp', 'sigmoid', 'c*', 'c+', 'ipow', 'add', 'sub', 'mul', 'abs'])
  g = gen(rng); k = rng.choice(['int', 'float', 'np', 'f32', 'int array'])
  x0 = np.round(g.normal(size=xs) * 2); lo, hi = x0 - np.round(g.random(size=xs) * 2), x0 + np.round(g.random(size=xs) * 2 + .3)
  if k in ('float', 'np'): x0, lo, hi = x0 + .25, lo + .1, hi + .3
  conv = {'int': lambda u: np.asarray(u).astype(int) if xs else int(u), 'float': lambda u: np.asarray(u) if xs else float(u), 'np': np.asarray, 'f32': lambda u: np.asarray(u, np.float32), 'int array': lambda u: jnp.asarray(np.asarray(u).astype(np.int32))}[k]
  deg = rng.choice([0, 1, 2, 3]); prop = rng.random() < .3; d = f'{p!r} degree {deg} propagate {prop} given as {k}: x0={x0.tolist()} region={[lo.tolist(), hi.tolist()]}'
  try: b = jb.taylor_bounds(p.value, deg, prop)(conv(x0), (conv(lo), conv(hi)))
  except (NotImplementedError, ValueError, TypeError, AssertionError): raise Skip()
  for x in points(rng, x0, (lo, hi)):
    y = np.asarray(p.value(jnp.asarray(x))); arg = rng.choice([lambda u: u, lambda u: u.tolist(), jnp.asarray])(x)
    try: l, h = np.asarray(b.lower(arg), float), np.asarray(b.upper(arg), float)
    except TypeError: raise Skip()
    tol = (1e-4 if k == 'f32' else 1e-7) * (1 + np.abs(y))
    if np.any(l > y + tol) or np.any(h < y - tol): raise Bad(f'at x={x.tolist()}: f={y.tolist()} bounds [{l.tolist()}, {h.tolist()}] {d}')

# ------------------------------------------------------------ C16
def unsupported():
  S = lax
  yield 'sin', jnp.sin; yield 'cos', jnp.cos; yield 'tan', jnp.tan; yield 'floor', jnp.floor; yield 'ceil', jnp.ceil; yield 'round', jnp.round
  yield 'sign', jnp.sign; yield 'tanh', jnp.tanh; yield 'erf', jax.scipy.special.erf; yield 'atan', jnp.arctan; yield 'log1p', jnp.log1p; yield 'expm1', jnp.expm1
  yield 'max', lambda x: lax.max(x, 0. * x + .1); yield 'min', lambda x: lax.min(x, .2 * x * x); yield 'relu', lambda x: jax.nn.relu(x); yield 'clip', lambda x: jnp.clip(x, -.2, .2)
  yield 'where', lambda x: jnp.where(x > 0, x, 2. * x); yield 'rem', lambda x: lax.rem(x, .3 * jnp.ones_like(x)); yield 'atan2', lambda x: jnp.arctan2(x, 1. + x * x)
  yield 'pow x^x', lambda x: jnp.exp(x) ** x; yield 'pow 2^x', lambda x: lax.pow(2. * jnp.ones_like(x), x); yield 'int', lambda x: lax.convert_element_type(3. * x, np.int32)
  yield 'int and back', lambda x: lax.convert_element_type(lax.convert_element_type(3. * x, np.int64), np.float64) * 2.; yield 'bool', lambda x: lax.convert_element_type(x, bool); yield 'uint8', lambda x: lax.convert_element_type(x, np.uint8)
  yield 'cond', lambda x: lax.cond(jnp.sum(x) > 0, lambda t: t * 2., lambda t: t * t, x); yield 'scan', lambda x: lax.scan(lambda s, _: (s * 1.5, s), x, None, length=3)[0]
  yield 'while', lambda x: lax.while_loop(lambda s: jnp.sum(s) < 5., lambda s: s * 2. + 1., x); yield 'compare', lambda x: x > .1
  yield 'nextafter', lambda x: lax.nextafter(x, x + 1.); yield 'reduce_precision', lambda x: lax.reduce_precision(x, 5, 2); yield 'exp2', jnp.exp2; yield 'asin', lambda x: jnp.arcsin(.1 * x); yield 'digamma', lambda x: lax.digamma(x + 5.); yield 'lgamma', lambda x: lax.lgamma(x + 5.)
  yield 'stop_gradient', lambda x: lax.stop_gradient(x * x) + x
  yield 'two outputs', lambda x: (x, x * 2.)
def unsupported_vec():
  yield 'max over axis', lambda x: jnp.max(x); yield 'min over axis', lambda x: jnp.min(x); yield 'prod', lambda x: jnp.prod(x); yield 'sort', lambda x: jnp.sort(x); yield 'cumsum', lambda x: jnp.cumsum(x); yield 'cumprod', lambda x: jnp.cumprod(x)
  yield 'index', lambda x: x[0] * x[1]; yield 'concatenate', lambda x: jnp.concatenate([x, x * x]); yield 'argmax', lambda x: jnp.argmax(x); yield 'reverse', lambda x: lax.rev(x, (0,)); yield 'roll', lambda x: jnp.roll(x, 1); yield 'gather', lambda x: x[jnp.array([1, 0])]
  yield 'slice', lambda x: lax.slice(x, (0,), (1,)); yield 'logsumexp', lambda x: jax.scipy.special.logsumexp(x); yield 'softmax', lambda x: jax.nn.softmax(x); yield 'reshape', lambda x: jnp.reshape(x, (1, -1)); yield 'reshape2', lambda x: jnp.reshape(jnp.exp(x), (-1, 1))
  yield 'transpose', lambda x: jnp.outer(x, x).T; yield 'outer transpose', lambda x: lax.transpose(lax.broadcast_in_dim(x, (2, x.shape[0]), (1,)), (1, 0)); yield 'pad', lambda x: jnp.pad(x, 1)
  yield 'norm', lambda x: jnp.linalg.norm(x); yield 'window max', lambda x: lax.reduce_window(x, -np.inf, lax.max, (2,), (1,), 'VALID'); yield 'window sum', lambda x: lax.reduce_window(x, 0., lax.add, (2,), (1,), 'VALID')
  yield 'conv', lambda x: lax.conv_general_dilated(x[None, None], jnp.ones((1, 1, 2)), (1,), 'SAME'); yield 'self conv', lambda x: lax.conv_general_dilated(x[None, None], x[None, None], (1,), 'SAME')
  yield 'split', lambda x: jnp.split(x, 2)[1] if x.shape[0] == 2 else x[:1]

@check('C16', weight=3)
def unsupported_operations(rng):
  """A program that is not supported is refused; if bounds come out they have to hold."""
  vec = rng.random() < .5
  name, op = rng.choice(list(unsupported_vec() if vec else unsupported()))
  pre = rng.choice([lambda x: x, lambda x: x * 2. - .3, lambda x: jnp.exp(.5 * x) - .4]); post = rng.choice([lambda x: x, lambda x: x, lambda x: x * x, lambda x: 2. * x + 1.])
  if name in ('int', 'bool', 'uint8', 'compare', 'argmax', 'two outputs'): post = lambda x: x
  f = lambda x: post(op(pre(x)))
  xs = rng.choice([(2,), (3,), (2,), (1,)]) if vec else rng.choice([(), (), (2,)])
  x0, tr = region(rng, xs); deg = rng.choice([0, 1, 2, 3]); prop = rng.random() < .4
  d = f'{name} degree {deg} propagate {prop} x0={x0.tolist()} region={[t.tolist() for t in tr]}'
  try: b = jb.taylor_bounds(f, deg, prop)(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr))
  except Exception: return
  if name == 'two outputs': raise Bad(f'accepted: {d}')
  holds(b, f, x0, tr, rng, 'not refused: ' + d)

@check('C16')
def malformed(rng):
  g = gen(rng); k = rng.randint(0, 3); n = rng.choice([1, 2, 3])
  f = lambda x: jnp.exp(x) * 2.
  deg = rng.choice([0, 1, 2]); prop = rng.random() < .5
  try:
    if k == 0: d = f'degree {-n}'; jb.taylor_bounds(f, -n, prop)
    elif k == 1:
      sh = rng.choice([(1, 1), (2, 2), (1, 2), (2, 1, 1)]); x0 = np.zeros(sh); d = f'x0 of shape {sh}, degree {deg}'
      jb.taylor_bounds(f, deg, prop)(x0, (x0 - 1, x0 + 1))
    elif k == 2:
      d = 'coefficients without the axes of x'; xs = rng.choice([(2,), (3,), (2, 3)]); i = rng.randint(1, 3)
      cs = [np.zeros(j * xs) for j in range(i)] + [np.zeros(rng.choice([(), (i * xs)[1:], (4,) + (i * xs)[:-1], (i * xs) + (5,)]))]
      cs[-1] = cs[-1] if rng.random() < .5 else (cs[-1], cs[-1])
      d += f' {[np.shape(c[0] if isinstance(c, tuple) else c) for c in cs]} for x of shape {xs}'
      Inner(jb)._validate_taylor_enclosure(tuple(cs), xs)
    elif k == 3:
      d = 'constant value of an enclosure that is not constant'
      Inner(jb)._IntermediateEnclosure(rng.choice([(np.ones(2), np.ones(2)), ((np.zeros(2), np.ones(2)),)])).constant_value()
    else: return
  except Exception: return
  raise Bad('accepted: ' + d)

# ------------------------------------------------------------ C17
@check('C17', 'C01', weight=3)
def trust_regions(rng):
  """Ranges handed to elementwise rules contain the true values and are not wider than implied by the enclosure."""
  log = []
  key = jax.extend.core.Primitive('vf_probe')
  key.def_abstract_eval(lambda x, k: jax.core.ShapedArray(x.shape, x.dtype)); key.def_impl(lambda x, k: x)
  seen = []
  def enclosure(x0, trust_region, degree, np_like):
    seen.append((np.asarray(x0) if not isinstance(x0, tuple) else tuple(map(np.asarray, x0)), tuple(np.asarray(t) for t in trust_region), degree))
    return (x0, jnp.ones_like(x0)) if degree > 0 else (trust_region,)
  jb.register_elementwise_primitive(key, enclosure)
  orig = EA.TaylorEnclosureArithmetic.get_elementwise_fun
  def get_elementwise_fun(self, get_enclosure):
    f = orig(self, get_enclosure)
    def g(enc, tr=None, *a, **k):
      if self.max_degree > 0 and get_enclosure is enclosure: log.append((enc, tr))
      return f(enc, tr, *a, **k)
    return g
  EA.TaylorEnclosureArithmetic.get_elementwise_fun = get_elementwise_fun
  try:
    xs = rng.choice(XS); ops = UN + BIN * 2 + LINEAR + (SHAPED if xs == () else [])
    p = Prog(rng, xs, 0, ops)
    if xs == () and rng.random() < .5:
      W = np.round(gen(rng).normal(size=rng.choice([(2, 2), (2, 2), (3,), (2, 2, 2)])) * 2, 1)
      p.push(lambda v: jnp.asarray(W) * v[0], W.shape, f'{W.tolist()}*v0')
      if rng.random() < .5: p.step(rng, gen(rng), rng.choice(SHAPED))
    for _ in range(rng.randint(1, 5 - len(p.steps))): p.step(rng, gen(rng), rng.choice(ops))
    if not p.steps: raise Skip()
    x0, tr = region(rng, xs); deg = rng.choice([1, 2, 3])
    f = lambda x: p.run(x, lambda k, y: key.bind(y, k=k))[-1]
    d = f'{p!r} degree {deg} x0={x0.tolist()} region={[t.tolist() for t in tr]}'
    try: b = jb.taylor_bounds(f, deg, True)(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr))
    except (NotImplementedError, ValueError, TypeError, AssertionError): raise Skip()
  finally:
    EA.TaylorEnclosureArithmetic.get_elementwise_fun = orig
    getattr(jb, '_ELEMENTWISE_PRIMITIVE_ENCLOSURES', {}).pop(key, None)
  holds(b, p.value, x0, tr, rng, d)
  full = [s for s in seen if s[2] > 0]
  want = [p.run(jnp.asarray(x))[1:] for x in points(rng, x0, tr, 6)]
  # constants are evaluated directly, so that probes may be missing; compare only if all are there
  if len(full) == len(p.steps):
    for (_, (lo, hi), _), vals, ds in zip(full, zip(*want), p.desc):
      for v in vals:
        v = np.asarray(v)
        if np.all(np.isfinite(v)): contains((np.broadcast_to(lo, v.shape), np.broadcast_to(hi, v.shape)), v, 10, f'trust region of {ds}: {d}')
    z = tuple(jnp.asarray(t - x0) for t in tr)
    for (enc, t), ds in zip(log, p.desc):
      if t is None: raise Bad(f'no trust region for {ds}: {d}')
      r = EA.enclose_enclosure(enc, z, 0, jnp)[0]
      y0 = enc[0]
      a, c = (r if isinstance(r, tuple) else (r, r)); y0 = y0 if isinstance(y0, tuple) else (y0, y0)
      if not all(np.all(np.isfinite(e)) for e in (a, c, t[0], t[1])): continue
      close_le(np.minimum(a, y0[0]), t[0], 10, f'trust region of {ds} is wider than its enclosure: {d}'); close_le(t[1], np.maximum(c, y0[1]), 10, f'trust region of {ds} is wider than its enclosure: {d}')
  return d

@check('C17')
def same_programs_accepted(rng):
  """A program that is accepted without propagation is accepted with it, and the other way round."""
  xs = rng.choice(XS); ops = UN + BIN + LINEAR + (SHAPED if xs == () else []) + ['npow', 'npow']
  p = Prog(rng, xs, rng.randint(1, 3), ops)
  if rng.random() < .5:
    i = len(p.shapes) - 1; k = rng.choice([0, 1, 2, 0., 1.5, -.7]); K = np.full(p.shapes[i], k, float)
    op, ds = rng.choice([(lambda u: lax.pow(jnp.exp(.1 * u), float(k)), f'exp(.1 v{i}) ** {k}'), (lambda u: u ** k if isinstance(k, int) else jnp.exp(u * .1) ** k, f'v{i} ** {k}'), (lambda u: (u * 0. + K) * 2., f'0 v{i} + c')])
    p.push(lambda v: op(v[i]), p.shapes[i], ds)
  x0, tr = region(rng, xs); deg = rng.choice([0, 1, 2, 3]); d = f'{p!r} degree {deg} x0={x0.tolist()} region={[t.tolist() for t in tr]}'
  res = []
  for prop in (False, True):
    try: b = jb.taylor_bounds(p.value, deg, prop)(jnp.asarray(x0), tuple(jnp.asarray(t) for t in tr)); res.append('')
    except Exception as ex: res.append(f'{type(ex).__name__}: {ex}'[:200])
  if bool(res[0]) != bool(res[1]): raise Bad(f'without propagation: {res[0] or "accepted"}; with: {res[1] or "accepted"}: {d}')
  if not res[1]: holds(b, p.value, x0, tr, rng, d)
  return d
