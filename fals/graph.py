"""Run-time contracts of graph_editor.py and jaxpr_editor.py (C13, C14)."""
import functools, itertools, math
import numpy as np
from .main import check, Skip
from .util import *
from autobound import graph_editor as GE
Op, Graph = GE.Operation, GE.ComputationGraph

# ------------------------------------------------------------ C13
PRIME = 1000003
def interp(data, args, nout):
  return [(hash((data, k)) % PRIME + sum((7 * j + 3) * a for j, a in enumerate(args)) * (k + 2) + math.prod(a + 1 for a in args)) % PRIME for k in range(nout)]
def run(ops, env, table):
  env = dict(env)
  for o in ops:
    args = [env[v] if not isinstance(v, tuple) else v[1] for v in o.inputs]
    f = table.get(o.data)
    r = f(args) if f else interp(o.data, args, len(o.outputs))
    env.update(zip(o.outputs, r))
  return env
def random_ops(rng, n, names, free, arity, allow_lit=False, prefix=''):
  """A well-formed operation sequence; names yields fresh variables."""
  vs, ops = list(free), []
  for _ in range(n):
    d = rng.choice(list(arity)); ni, no = arity[d]
    pick = lambda: ('lit', rng.randint(0, 2)) if allow_lit and rng.random() < .15 else rng.choice(vs if rng.random() < .4 else vs[-3:])
    ins = [pick() for _ in range(ni)]
    outs = [next(names) for _ in range(no)]
    ops.append(Op(d, ins, outs)); vs += outs
  return ops, vs
ARITY = {'f': (1, 1), 'g': (2, 1), 'h': (2, 1), 'k': (1, 2), 'c': (0, 1)}
can_bind = lambda u, v: (isinstance(v, tuple) and u == v) if isinstance(u, tuple) else not isinstance(v, tuple)
def oracle(P, Q, cb):
  if len(P) != len(Q): return None
  m = {}
  for p, q in zip(P, Q):
    if p.data != q.data or len(p.inputs) != len(q.inputs) or len(p.outputs) != len(q.outputs): return None
    for u, v in list(zip(p.inputs, q.inputs)) + list(zip(p.outputs, q.outputs)):
      if not cb(u, v) or m.setdefault(u, v) != v: return None
  return m
def show(ops): return '; '.join(f'{o.outputs}={o.data}{o.inputs}' for o in ops)

@check('C13', weight=3)
def matching(rng):
  n = rng.randint(0, 4)
  names = (f'p{i}' for i in itertools.count())
  lit = rng.random() < .5
  P, vs = random_ops(rng, n, names, ['a', 'b'], ARITY, lit)
  if rng.random() < .7:     # a renaming of the pattern, perhaps damaged
    pool = [f's{i}' for i in range(rng.choice([1, 2, 20]))]
    if rng.random() < .3: pool[0] = rng.choice([0, ''])
    ren = {}
    sub = lambda v: v if isinstance(v, tuple) else ren.setdefault(v, rng.choice(pool) if len(pool) < 20 else f's{len(ren)}')
    Q = [Op(o.data, [sub(v) for v in o.inputs], [sub(v) for v in o.outputs]) for o in P]
    if rng.random() < .6 and Q:
      o = rng.choice(Q); what = rng.randint(0, 4)
      if what == 0 and o.inputs: o.inputs[rng.randrange(len(o.inputs))] = rng.choice(['s0', 's1', ('lit', 1), ('lit', 0)])
      elif what == 1: o.outputs[rng.randrange(len(o.outputs))] = rng.choice(['s0', 's1', 's9'])
      elif what == 2: o.data = rng.choice('fgh')
      elif what == 3: o.outputs.append('s3')
      else: o.inputs.append('s4')
    if rng.random() < .1: Q = Q + [Op('f', ['s0'], ['s99'])]
    if rng.random() < .1: Q = Q[:-1]
  else: Q, _ = random_ops(rng, rng.randint(0, 4), (f's{i}' for i in itertools.count()), ['x', 'y'], ARITY, lit)
  cb = rng.choice([can_bind, lambda u, v: True, lambda u, v: can_bind(u, v) and hash((u, v, 5)) % 7 > 0])
  r, w = GE.match(P, Q, cb), oracle(P, Q, cb)
  d = f'match({show(P)} | {show(Q)}) = {r}, wanted {w}'
  if (r is None) != (w is None) or r is not None and dict(r) != w: raise Bad(d)
  return d

@check('C13')
def renaming(rng):
  P, vs = random_ops(rng, 1, (f'p{i}' for i in itertools.count()), ['a', 'b'], ARITY, True)
  o = P[0]; keep = repr(o)
  m = {v: rng.choice(['z', 'a', ('lit', 0), 'b', 0, '']) for v in ['a', 'b', 'p0', 'p1', ('lit', 1)] if rng.random() < .5}
  r = o.subs(m)
  if (r.data, list(r.inputs), list(r.outputs)) != (o.data, [m.get(v, v) for v in o.inputs], [m.get(v, v) for v in o.outputs]): raise Bad(f'{o}.subs({m}) = {r}')
  if repr(o) != keep: raise Bad(f'subs changes its operand {keep} to {o}')

@check('C13')
def variables(rng):
  ops, vs = random_ops(rng, rng.randint(0, 5), (f'p{i}' for i in itertools.count()), ['a', 'b', 'c', 'd'], ARITY)
  ins, outs = rng.sample(['a', 'b', 'c'], rng.randint(0, 3)), [rng.choice(vs) for _ in range(rng.randint(0, 2))]
  g = Graph(ins, outs, ops)
  w = set(ins) | set(outs) | {v for o in ops for v in list(o.inputs) + list(o.outputs)}
  if set(g.intermediate_variables()) != w: raise Bad(f'variables of {g}: {g.intermediate_variables()}')

@check('C13', weight=3)
def replacing(rng):
  """The replacement computes what the pattern computes with operations that mean whole patterns ('R0', 'R1' ...)."""
  n = rng.choice([1, 1, 2, 2, 3])
  P, pv = random_ops(rng, n, (f'p{i}' for i in itertools.count()), ['a', 'b'], {k: ARITY[k] for k in 'fghk'})
  pin = [v for v in ('a', 'b') if any(v in o.inputs for o in P)]
  pouts = [v for o in P for v in o.outputs]
  keep = [v for i, o in enumerate(P) for v in o.outputs if i == n - 1 or rng.random() < .3]
  table = {'R0': lambda args: [run(P, dict(zip(pin, args)), {})[v] for v in keep], 'id': lambda a: [a[0]]}
  if rng.random() < .5: R = [Op('R0', list(pin), list(keep))]
  else: R = [Op('id', [pin[0]], ['#r0']), Op('R0', ['#r0'] + pin[1:], list(keep))]
  if rng.random() < .12: R, keep = [], []
  # subject: random operations and occurrences of the pattern; variables can be any objects
  names = itertools.chain(rng.choice([[], [0, ''], ['', 0]]), (f's{i}' for i in itertools.count()))
  vs, ops = ['x', 'y'], []
  for _ in range(rng.randint(1, 6)):
    if rng.random() < .5:
      more, vs = random_ops(rng, rng.randint(1, 2), names, vs, {k: ARITY[k] for k in 'fghk'})
      ops += more
    else:
      ren = {v: rng.choice(vs) for v in pin}; ren.update({v: next(names) for v in pouts})
      ops += [o.subs(ren) for o in P]
      vs = vs + [ren[v] for v in (keep if rng.random() < .7 else pouts)]
  outs = [rng.choice(vs) for _ in range(rng.randint(1, 3))]
  g = Graph(['x', 'y'], list(outs), ops, data='D'); before = repr(g), repr(P), repr(R)
  r = GE.replace(P, R, g, lambda u, v: True)
  d = f'replace({show(P)} -> {show(R)} in {show(ops)} | {outs}) = {show(r.operations)}'
  if (repr(g), repr(P), repr(R)) != before: raise Bad('arguments were changed: ' + d)
  if list(r.inputs) != ['x', 'y'] or list(r.outputs) != outs or r.data != 'D': raise Bad('inputs, outputs or data: ' + d)
  for _ in range(2):
    env = {'x': rng.randrange(PRIME), 'y': rng.randrange(PRIME)}
    a = run(ops, env, table)
    try: b = run(r.operations, env, table)
    except KeyError as ex: raise Bad(f'undefined variable {ex}: ' + d)
    if [a[v] for v in outs] != [b[v] for v in outs]: raise Bad('another meaning: ' + d)
  # the operations that are kept: unmodified, in order
  i = 0
  for o in r.operations:
    if o.data in ('R0', 'id'): continue
    while i < len(ops) and ops[i] != o: i += 1
    if i == len(ops): raise Bad(f'operation {o} is not kept in order: ' + d)
    i += 1
  # greedy: leftmost contiguous occurrences are replaced, unless a lost variable is needed
  lost = set(pouts) - set(keep)
  want, i = [], 0
  while i < len(ops):
    m = oracle(P, ops[i:i + n], lambda u, v: True)
    if m is not None and {m[v] for v in pin} & {v for o in ops[i:i + n] for v in o.outputs}: m = None
    if m is not None:
      gone = {m[v] for v in lost} - {m.get(v, v) for o in R for v in o.outputs}
      if any(v in gone for v in outs) or any(v in gone for o in ops[i + n:] for v in o.inputs): m = None
    if m is not None: want += [o.subs(m) for o in R]; i += n
    else: want.append(ops[i]); i += 1
  if want != list(r.operations): raise Bad(f'wanted {show(want)}: ' + d)
  return d

# ------------------------------------------------------------ C14
@functools.lru_cache(None)
def jx():
  import jax, jax.numpy as jnp
  from autobound.jax import jaxpr_editor as je
  return jax, jnp, je
def core(): return jx()[0].extend.core
def ev(j, consts, args): return jx()[0].core.eval_jaxpr(j, consts, *args)

def random_fun(rng, n=None, vec=False):
  """A random program of two arguments; returns (description, function)."""
  jax, jnp, je = jx()
  n = n or rng.randint(1, 5); steps = []
  for i in range(n):
    k = rng.choice(['add', 'mul', 'sub', 'sin', 'exp', 'lit', 'litr', 'jit', 'dup', 'pow', 'logistic', 'softplus', 'int', 'maximum'] + (['sum', 'rev', 'T', 'cum'] if vec else []))
    steps.append((k, rng.randint(0, 9), rng.randint(0, 9), rng.choice([1., 2., .5, 3.])))
  return steps
def build(steps, exps=None):
  jax, jnp, je = jx()
  def f(x, y):
    vs = [x, y]
    for k, a, b, c in steps:
      u, v = vs[-1 - a % min(len(vs), 3)], vs[-1 - b % min(len(vs), 3)]
      if k == 'add': r = u + v
      elif k == 'mul': r = u * v
      elif k == 'sub': r = u - v
      elif k == 'sin': r = jnp.sin(u)
      elif k == 'exp': r = jnp.exp(-u * u)
      elif k == 'lit': r = u + c
      elif k == 'litr': r = c - u
      elif k == 'jit': r = jax.jit(lambda t: jnp.sin(t) * c + CONST[int(c)])(u)
      elif k == 'dup': r = u * u
      elif k == 'pow': r = jax.lax.integer_pow(u, 2 + b % 3)
      elif k == 'logistic': r = 1 / (1 + jnp.exp(-u))
      elif k == 'softplus': r = jnp.log(1 + jnp.exp(jnp.sin(u)))
      elif k == 'int': r = u * jnp.asarray(int(c) + 1)
      elif k == 'maximum': r = jax.lax.max(u, v)
      elif k == 'sum': r = jnp.sum(u.reshape(u.shape), axis=b % u.ndim, keepdims=True) + v
      elif k == 'rev': r = jax.lax.rev(u, (b % u.ndim,))
      elif k == 'T': r = jnp.transpose(u, ((1, 0, 2), (0, 1, 2))[b % 2]) if u.ndim == 3 and u.shape[0] == u.shape[1] else u + v
      elif k == 'cum': r = jax.lax.cumsum(u, axis=b % u.ndim, reverse=bool(a % 2))
      vs.append(r)
    return vs[-1], vs[2 + (a * b) % (len(vs) - 2)]
  return f
CONST = np.array([.25, 1.5, -2., 4.], np.float32)
def burn(rng):
  """Advances the variable counter."""
  jax, jnp, je = jx()
  av = jax.make_jaxpr(lambda x: x)(0.).jaxpr.invars[0].aval
  for _ in range(rng.randint(0, 12)): core().Var(av)
def args_for(rng, vec):
  g = gen(rng); s = (2, 2, 3) if vec else ()
  return [np.asarray(g.normal(size=s), np.float32), np.asarray(g.normal(size=s), np.float32)]
def mutate(rng, steps):
  steps = list(steps); i = rng.randrange(len(steps)); k, a, b, c = steps[i]
  w = rng.randint(0, 3)
  if w == 0: a = rng.randint(0, 9)
  elif w == 1: b = rng.randint(0, 9)
  elif w == 2: c = rng.choice([1., 2., .5, 3.])
  else: k = rng.choice(['add', 'mul', 'sub', 'lit', 'litr', 'int', 'jit', 'dup', 'pow', 'maximum'])
  steps[i] = (k, a, b, c); return steps
def close_all(a, b, what):
  for x, y in zip(a, b):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype != y.dtype or x.shape != y.shape or not np.allclose(x, y, rtol=2e-4, atol=1e-4, equal_nan=True): raise Bad(f'{what}: {x!r} and {y!r}')

@check('C14')
def same_means_same(rng):
  jax, jnp, je = jx()
  vec = rng.random() < .5
  steps = random_fun(rng, vec=vec); other = mutate(rng, steps) if rng.random() < .8 else random_fun(rng, len(steps), vec)
  xs = args_for(rng, vec)
  j0 = jax.make_jaxpr(build(steps))(*xs); burn(rng); j1 = jax.make_jaxpr(build(other))(*xs)
  same = Inner(je)._same_jaxpr_up_to_variable_renaming(j0.jaxpr, j1.jaxpr)
  if len(j0.consts) != len(j1.consts): 
    if same: raise Bad('different numbers of constants')
    return
  d = f'{j0} and {j1} are reported the same'
  if same: close_all(ev(j0.jaxpr, j0.consts, xs), ev(j1.jaxpr, j0.consts, xs), d)
  if not Inner(je)._same_jaxpr_up_to_variable_renaming(j0.jaxpr, j0.jaxpr): raise Bad(f'{j0} is not the same as itself')
  return d if same else None

@check('C14')
def same_small(rng):
  """Pairs that differ in one detail."""
  jax, jnp, je = jx(); L = jax.lax
  x, m, t = np.float32(.5), np.arange(6, dtype=np.float32).reshape(2, 3), np.arange(8, dtype=np.float32).reshape(2, 2, 2)
  c1, c2 = np.array([1., 2., 3.], np.float32), np.array([1., 2., 4.], np.float32)
  pairs = [(lambda a: a + 1., lambda a: a + 2., x), (lambda a: a + np.float32(1), lambda a: L.convert_element_type(a, int) + 1, x),
           (lambda a: (a, 1), lambda a: (a, 1.), x), (lambda a: (a, True), lambda a: (a, 1), x), (lambda a: (a, np.int8(1)), lambda a: (a, np.int16(1)), x),
           (lambda a: jnp.sum(a, 0), lambda a: jnp.sum(a, 1), m[:, :2]), (lambda a: jnp.transpose(a, (0, 2, 1)), lambda a: jnp.transpose(a, (1, 0, 2)), t),
           (lambda a: L.rev(a, (0,)), lambda a: L.rev(a, (1,)), m), (lambda a: jnp.cumsum(a, 0), lambda a: jnp.cumsum(a, 1), m),
           (lambda a: L.integer_pow(a, 2), lambda a: L.integer_pow(a, 3), x), (lambda a: L.dot_general(a, a, (((0,), (0,)), ((), ()))), lambda a: L.dot_general(a, a, (((1,), (1,)), ((), ()))), t[0]),
           (lambda a: L.dot_general(a, a, (((1,), (1,)), ((0,), (0,)))), lambda a: L.dot_general(a, a, (((1,), (2,)), ((0,), (0,)))), t),
           (lambda a: jax.jit(lambda b: b + c1)(a), lambda a: jax.jit(lambda b: b + c2)(a), m), (lambda a: jax.jit(jnp.sin)(a), lambda a: jax.jit(jnp.cos)(a), x),
           (lambda a: jax.jit(lambda b: jax.jit(lambda c: c * 2.)(b))(a), lambda a: jax.jit(lambda b: jax.jit(lambda c: c * 3.)(b))(a), x),
           (lambda a: L.sub(a, a * a), lambda a: L.sub(a * a, a), x), (lambda a: L.broadcast_in_dim(a, (2, 2), (0,)), lambda a: L.broadcast_in_dim(a, (2, 2), (1,)), c1[:2]),
           (lambda a: L.convert_element_type(a, np.float16), lambda a: L.convert_element_type(a, np.int32), x),
           (lambda a: a[0], lambda a: a[1], m), (lambda a: (a * 2., a), lambda a: (a, a * 2.), x), (lambda a: L.slice(a, (0,), (2,)), lambda a: L.slice(a, (1,), (3,)), c1),
           (lambda a: L.concatenate([a, a * 2], 0), lambda a: L.concatenate([a, a * 2], 1), m[:, :2]), (lambda a: L.expand_dims(a, (0,)), lambda a: L.expand_dims(a, (1,)), c1),
           (lambda a: jnp.where(a > 0, a, 2.), lambda a: jnp.where(a > 0, 2., a), x), (lambda a: L.reduce_precision(a, 5, 3), lambda a: L.reduce_precision(a, 8, 3), x),
           (lambda a: L.cond(a > 0, jnp.sin, jnp.cos, a), lambda a: L.cond(a > 0, jnp.cos, jnp.sin, a), x),
           (lambda a: L.scan(lambda s, _: (s * 2., s), a, None, length=3)[0], lambda a: L.scan(lambda s, _: (s * 3., s), a, None, length=3)[0], x)]
  f, g, a = rng.choice(pairs)
  if rng.random() < .5: f, g = g, f
  j0 = jax.make_jaxpr(f)(a); burn(rng); j1 = jax.make_jaxpr(g)(a); j2 = jax.make_jaxpr(f)(a)
  if Inner(je)._same_jaxpr_up_to_variable_renaming(j0.jaxpr, j1.jaxpr): raise Bad(f'{j0} and {j1} are reported the same')
  for e0, e1 in zip(j0.jaxpr.eqns, j1.jaxpr.eqns):
    if len(j0.jaxpr.eqns) == 1 and len(e0.outvars) == 1 and e0.primitive is e1.primitive and not any(isinstance(v, core().Literal) for v in e0.invars) and list(e0.invars) == list(j0.jaxpr.invars)[:len(e0.invars)] and Inner(je)._jaxpr_eqn_params_equiv(e0.params, e1.params):
      if not (len(set(map(str, e0.invars))) < len(e0.invars)): raise Bad(f'parameters of {e0} and {e1} are reported the same')
  if j0.eqns and not Inner(je)._jaxpr_eqn_params_equiv(j0.eqns[0].params, j0.eqns[0].params): raise Bad(f'{j0.eqns[0]} differs from itself')
  return str(j0)

RULES = [('softplus', lambda jnp, jax: lambda x: jnp.log(1 + jnp.exp(x)), lambda jnp, jax: lambda x: jax.lax.log1p(jax.lax.exp(x))),
         ('square', lambda jnp, jax: lambda x: x * x, lambda jnp, jax: lambda x: jax.lax.integer_pow(x, 2)),
         ('square2', lambda jnp, jax: lambda x: x * x, lambda jnp, jax: lambda x: (x + 1.) * (x + 1.) - 2. * x - 1.),
         ('dist', lambda jnp, jax: lambda x, y: (x + y) * (x - y), lambda jnp, jax: lambda x, y: x * x - y * y),
         ('dist2', lambda jnp, jax: lambda x, y: (x + y) * (x - y), lambda jnp, jax: lambda x, y: jax.lax.neg(y * y - x * x)),
         ('logistic', lambda jnp, jax: lambda x: 1 / (1 + jnp.exp(-x)), lambda jnp, jax: lambda x: jax.lax.logistic(x)),
         ('plus1', lambda jnp, jax: lambda x: x + 1., lambda jnp, jax: lambda x: (x + 2.) - 1.),
         ('two', lambda jnp, jax: lambda x: (jnp.sin(x), jnp.sin(x) * 2.), lambda jnp, jax: lambda x: (jax.lax.neg(jnp.sin(-x)), jnp.sin(x) + jnp.sin(x))),
         ('sub', lambda jnp, jax: lambda x, y: x - y, lambda jnp, jax: lambda x, y: jax.lax.neg(y - x)),
         ('pow', lambda jnp, jax: lambda x: jax.lax.integer_pow(x, 3), lambda jnp, jax: lambda x: x * x * x),
         ('gauss', lambda jnp, jax: lambda x: jnp.exp(-x * x), lambda jnp, jax: lambda x: 1. / jnp.exp(x * x))]

@check('C14')
def literals(rng):
  """A literal of the pattern matches no other literal, however close."""
  jax, jnp, je = jx()
  a = rng.choice([1., 2., 1e-9, 3.5, 0., -1.]); b = rng.choice([a, a + 1e-5, a * (1 + 1e-6), a + 1e-10, -a, 2 * a, float(np.float32(a) + np.spacing(np.float32(a)))])
  op, ds = rng.choice([(lambda x, c: x * c, 'x*c'), (lambda x, c: (x * 1e-3 + c) * 1e12, '(x/1000+c)*1e12'), (lambda x, c: c - x, 'c-x')])
  J = lambda f: jax.make_jaxpr(f)(1.).jaxpr
  P, Sj = J(lambda x: op(x, a)), J(lambda x: op(x, b)); x = np.float32(rng.choice([1.5, -2., .25]))
  r = je.replace(P, J(lambda x: x * 0. + 777.), Sj)
  if np.float32(a) != np.float32(b):
    for v in (x, np.float32(0)):
      got, want = np.asarray(ev(r, [], [v])[0]), np.asarray(ev(Sj, [], [v])[0])
      if not np.array_equal(got, want): raise Bad(f'{ds}: replacing c={a!r} in c={b!r} changes the value at {v} from {want} to {got}')
  return f'{ds} {a} {b}'

@check('C14', weight=2)
def rewriting(rng):
  jax, jnp, je = jx()
  nm, p, r = rng.choice(RULES)
  p, r = p(jnp, jax), r(jnp, jax)
  import inspect
  k = len(inspect.signature(p).parameters)
  z = [np.float32(.5)] * k
  order = [0, 1, 2]; rng.shuffle(order)
  steps = random_fun(rng)
  for _ in range(rng.randint(0, 2)):
    steps.insert(rng.randint(0, len(steps)), (rng.choice(['dup', 'softplus', 'logistic', 'sub', 'lit', 'pow', 'exp']), rng.randint(0, 9), rng.randint(0, 9), 1.))
  xs = args_for(rng, False); js = {}
  for o in order:
    burn(rng)
    js[o] = jax.make_jaxpr([p, r, build(steps)][o])(*(z if o < 2 else xs))
  s = js[2]
  try: out = je.replace(js[0].jaxpr, js[1].jaxpr, s.jaxpr)
  except NotImplementedError: raise Skip()
  d = f'rule {nm}: {js[0].jaxpr} -> {js[1].jaxpr} in {s.jaxpr} gives {out}'
  same = lambda a, b: len(a) == len(b) and all(u.aval.shape == v.aval.shape and u.aval.dtype == v.aval.dtype for u, v in zip(a, b))
  if not (same(out.invars, s.jaxpr.invars) and same(out.outvars, s.jaxpr.outvars) and same(out.constvars, s.jaxpr.constvars)): raise Bad('inputs, outputs or constants: ' + d)
  try: got = ev(out, s.consts, xs)
  except Exception as ex: raise Bad(f'{type(ex).__name__} {str(ex)[:100]}: ' + d)
  close_all(ev(s.jaxpr, s.consts, xs), got, d)
  key = lambda e: (str(e.primitive), len(e.invars))
  if not occurs(js[0].jaxpr, s.jaxpr) and [key(e) for e in out.eqns] != [key(e) for e in s.jaxpr.eqns]: raise Bad('other equations were changed: ' + d)
  return d
def occurs(p, s):
  ns = [str(e.primitive) for e in s.eqns]; np_ = [str(e.primitive) for e in p.eqns]
  return any(ns[i:i + len(np_)] == np_ for i in range(len(ns)))

@check('C14')
def round_trip(rng):
  """Conversion to a graph and back gives the same Jaxpr."""
  jax, jnp, je = jx()
  vec = rng.random() < .5
  xs = args_for(rng, vec); steps = random_fun(rng, vec=vec)
  s = jax.make_jaxpr(build(steps))(*xs)
  if rng.random() < .3:
    c = np.float32(gen(rng).normal(size=(3,))); s = jax.make_jaxpr(lambda x, y: (build(steps)(x, y)[0] * c, x))(*xs)
  out = Inner(je)._graph_to_jaxpr(Inner(je)._jaxpr_to_graph(s.jaxpr))
  d = f'{s.jaxpr} becomes {out}'
  if not Inner(je)._same_jaxpr_up_to_variable_renaming(s.jaxpr, out): raise Bad(d)
  close_all(ev(s.jaxpr, s.consts, xs), ev(out, s.consts, xs), d)
  if any(a.params != b.params for a, b in zip(s.jaxpr.eqns, out.eqns)): raise Bad('parameters: ' + d)

@check('C14')
def rewriting_refuses(rng):
  jax, jnp, je = jx()
  mk = lambda f, *a: jax.make_jaxpr(f)(*a).jaxpr
  c = np.arange(3, dtype=np.float32)
  subj = mk(lambda x: jnp.exp(x * 1.) * 2., 0.)
  cases = [(mk(lambda x: x * 1., 0.), mk(lambda x, y: x * y, 0., 0.)), (mk(lambda x: x * 1., 0.), mk(lambda x: (x * 1., x * 2.), 0.)),
           (mk(lambda x: x * c, 0.), mk(lambda x: x * 2., 0.)), (mk(lambda x: x * 1., 0.), mk(lambda x: x * c, 0.)),
           (mk(lambda x: x * 1., 0.), mk(lambda x: x, 0.)), (mk(lambda x: x * 0., 0.), mk(lambda x: 0., 0.)), (mk(lambda x: (jnp.sin(x), x), 0.), mk(lambda x: (jnp.cos(x), jnp.sin(x)), 0.))]
  p, r = rng.choice(cases)
  try: out = je.replace(p, r, subj)
  except (ValueError, NotImplementedError): return
  raise Bad(f'{p} -> {r} is accepted: {out}')
