"""C10-C12: elementwise functions, their ranges and their enclosures, in exact reals."""
import z3, sys
from fractions import Fraction
from ..core import *
from ..load import World
from ..m1 import *
from ..m1 import A, L, NP1
from .. import rt

EF = 'autobound.elementwise_functions'
PE = 'autobound.primitive_enclosures'

EXPF = z3.Function('EXP', z3.RealSort(), z3.RealSort())
LOGF = z3.Function('LOG', z3.RealSort(), z3.RealSort())
SIG = z3.Function('SIGMOID', z3.RealSort(), z3.RealSort())
FACT = z3.Function('FACT', z3.IntSort(), z3.RealSort())

def poly_deriv(p):
  """p: list of integer coefficients (lowest first) in s; derivative of p(s(x)) in x with s' = s(1-s)."""
  d = [i * c for i, c in enumerate(p)][1:] or [0]
  out = [0] * (len(d) + 2)
  for i, c in enumerate(d):
    out[i + 1] += c; out[i + 2] -= c
  while len(out) > 1 and out[-1] == 0: out.pop()
  return out
def sig_poly(k):
  p = [0, 1]
  for _ in range(k): p = poly_deriv(p)
  return p
def ev(p, s):
  r = z3.RealVal(0)
  for c in reversed(p): r = r * s + c
  return r

class PrimUnit(M1Unit):
  def start_path(self, e):
    M1Unit.start_path(self, e)
    self.tr_terms = {}
    self.tr_facts = True
  def transcendental(self, name, x):
    e = eng()
    x = z3.simplify(x)
    F = {'exp': EXPF, 'log': LOGF}.get(name)
    if F is None: raise EngineLimit(f'function {name}')
    t = F(x)
    self.tr_terms[(name, x.get_id())] = (name, x, t)
    if name == 'exp':
      n = EXPF(z3.simplify(-x))
      e.axiom(z3.And(t > 0, n > 0, t * n == 1))
      e.axiom(z3.Implies(x == 0, t == 1))
    return A(t)
  def factorial(self, n):
    e = eng(); n = iv(n)
    t = FACT(n)
    e.axiom(t >= 1)
    e.axiom(z3.And(FACT(z3.IntVal(0)) == 1, FACT(z3.IntVal(1)) == 1, z3.Implies(n >= 1, t == z3.ToReal(n) * FACT(n - 1)), FACT(n + 1) == z3.ToReal(n + 1) * t))
    e.axiom(FACT(n - 1) >= 1)
    return SReal(t)

# ------------------------------------------------------------------ C12: derivatives
class Sigmoid(PrimUnit):
  name = 'sigmoid and softplus formulas'
  functions = ['elementwise_functions._sigmoid', 'elementwise_functions._softplus']
  assumptions = ['exp(x) > 0, exp(x) exp(-x) = 1, log(uv) = log u + log v for u, v > 0, log(exp(x)) = x']
  def run(self, e):
    m = self.world.get(EF)
    x = e.fresh_real('x')
    which = e.choose(3)
    E, En = NP1.exp(A(x)).r(), EXPF(-x)
    if which < 2:
      # contract: SIG(x) (1 + exp x) = exp x;  also at -x
      s = (lambda v: z3.simplify(EXPF(v)) / (1 + EXPF(v)))
      arg = x if which == 0 else z3.simplify(-x)
      st, r = call_contract(e, '_sigmoid', lambda: m._sigmoid(A(arg), NP1))
      e.prove(f'_sigmoid({"x" if which == 0 else "-x"}) (1 + exp) == exp', r.r() * (1 + (E if which == 0 else En)) == (E if which == 0 else En))
      e.cover(f'sigmoid {which}')
    else:
      st, r = call_contract(e, '_softplus', lambda: m._softplus(A(x), NP1))
      # log(1 + exp(-|x|)) + max(x, 0) == log(1 + exp x)
      u = z3.If(x >= 0, x, -x)
      l1 = LOGF(1 + EXPF(-x)); l2 = LOGF(1 + EXPF(x))
      e.axiom(z3.And(E > 0, En > 0, E * En == 1))
      prod = (1 + En) * E
      e.axiom(LOGF(prod) == l1 + LOGF(E)); e.axiom(LOGF(E) == x)
      e.axiom(z3.Implies(prod == 1 + E, LOGF(prod) == l2))
      e.axiom(prod == E + 1)        # (1 + exp(-x)) exp(x) = exp(x) + 1, from E*En == 1
      for k, (nm, arg, t) in list(self.tr_terms.items()):
        if nm == 'log':
          e.axiom(z3.Implies(arg == 1 + En, t == l1)); e.axiom(z3.Implies(arg == 1 + E, t == l2))
        if nm == 'exp':
          e.axiom(z3.Implies(arg == -x, t == En)); e.axiom(z3.Implies(arg == x, t == E))
      e.prove('_softplus(x) == log(1 + exp x)', r.r() == l2)
      e.cover('softplus')

class Derivs(PrimUnit):
  name = 'derivative formulas'
  functions = ['elementwise_functions.get_function', 'elementwise_functions._sigmoid_derivative', 'elementwise_functions._softplus_derivative',
               'elementwise_functions._swish_derivative', 'elementwise_functions._swish', 'elementwise_functions.FunctionId.derivative_id']
  assumptions = ['contract of _sigmoid (unit Sigmoid): s(-x) = 1 - s(x), and the derivative of s is s (1 - s) (proved: lean/TaylorLemmas.lean sigm_neg, sigm_range, sigm_deriv, softplus_deriv, swish_deriv)',
                 'the derivative of c x^-k is -k c x^-(k+1); exp is its own derivative; the derivative of log is 1/x (proved: zp_deriv, exp_tower, log_deriv)']
  def make_world(self):
    w = World(); m = w.get(EF)
    def sig(x, np_like):
      e = eng(); x = L(x).r()
      n = z3.simplify(-x)
      e.axiom(z3.And(SIG(x) > 0, SIG(x) < 1, SIG(n) == 1 - SIG(x)))
      return A(SIG(x))
    m._sigmoid = sig
    return w
  def run(self, e):
    m = self.world.get(EF)
    name = ['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish', 'unknown'][e.choose(7)]
    x = A(e.fresh_real('x'))
    k = e.fresh_int('order'); e.assume(k >= 0)
    base = {'abs': m.ABS, 'exp': m.EXP, 'log': m.LOG, 'sigmoid': m.SIGMOID, 'softplus': m.SOFTPLUS, 'swish': m.SWISH}.get(name) or m.FunctionId('no such function')
    # derivative_id adds up: split the order in two symbolic parts
    k1 = e.fresh_int('k1'); e.assume(z3.And(k1 >= 0, k1 <= k))
    fid = base.derivative_id(SInt(k1)).derivative_id(SInt(z3.simplify(k - k1)))
    e.prove(f'derivative_id adds the order', z3.And(iv(fid.derivative_order) == k, z3.BoolVal(fid.name == base.name and fid.x_min == base.x_min and fid.x_max == base.x_max)))
    fid = type(fid)(fid.name, SInt(k), fid.x_min, fid.x_max)
    def value(fid, x): return m.get_function(fid, NP1)(x)
    st, r = call_contract(e, f'{name}', lambda: value(fid, x), raises=(NotImplementedError,))
    limit = {'abs': 1, 'sigmoid': 4, 'softplus': 5, 'swish': 4}.get(name)
    if st == 'raise':
      e.prove(f'{name}: only unsupported orders are refused', z3.BoolVal(name == 'unknown') if limit is None else k > limit)
      e.cover(f'{name} refused'); return
    if name == 'unknown': e.fail('an unknown function is refused')
    if limit is not None: e.prove(f'{name}: unsupported orders are refused', k <= limit)
    s = SIG(x.r()); e.axiom(z3.And(s > 0, s < 1))
    v = L(r).r()
    if name == 'abs':
      xr = x.r()
      e.prove('abs: value', z3.If(k == 0, v == z3.If(xr >= 0, xr, -xr), v == z3.If(xr > 0, 1, z3.If(xr < 0, -1, z3.RealVal(0)))))
    elif name == 'exp':
      e.prove('exp: value', v == EXPF(x.r()))
    elif name == 'log':
      e.assume(x.r() > 0)
      if e.branch(k == 0): e.prove('log: value', v == LOGF(x.r()))
      else:
        # first derivative is 1/x, and the derivative of the k-th formula is the (k+1)-st
        if e.branch(k == 1): 
          inv = POW(x.r(), z3.IntVal(-1)); 
          for (b, n, t) in list(self.pow_terms.values()): e.axiom(z3.Implies(n == -1, t == inv))
          e.prove('log: first derivative is 1/x', v == inv)
        y = A(e.fresh_real('y')); e.assume(y.r() > 0)
        vy = L(value(fid, y)).r()
        nxt = L(value(type(fid)(fid.name, SInt(k + 1), fid.x_min, fid.x_max), x)).r()
        P = lambda z, n: POW(z, n)
        for (b, n, t) in list(self.pow_terms.values()):
          for z_ in (x.r(), y.r()):
            for nn in (-k, -(k + 1)):
              e.axiom(z3.Implies(z3.And(b == z_, n == nn), t == P(z_, nn)))
        e.axiom(z3.And(P(x.r(), -k) > 0, P(y.r(), -k) > 0, P(x.r(), -(k+1)) > 0))
        e.prove('log: k-th derivative is a multiple of x^-k', v * P(y.r(), -k) == vy * P(x.r(), -k))
        e.prove('log: derivative of the k-th formula is the (k+1)-st', nxt * P(x.r(), -k) == -z3.ToReal(k) * v * P(x.r(), -(k + 1)))
    else:
      for j in range(0, (limit or 0) + 1):
        if e.branch(k == j):
          if name == 'sigmoid': spec = ev(sig_poly(j), s)
          elif name == 'softplus':
            if j == 0:
              # the body of _softplus is verified in unit Sigmoid; here: dispatch
              sp = m._softplus(x, NP1); spec = sp.r()
            else: spec = ev(sig_poly(j - 1), s)
          else: spec = x.r() * s if j == 0 else j * ev(sig_poly(j - 1), s) + x.r() * ev(sig_poly(j), s)
          e.prove(f'{name}: derivative of order {j}', v == spec)
          e.cover(f'{name} {j}')
          return
    e.cover(f'{name}')

# ------------------------------------------------------------------ C12: extrema table
class Table(PrimUnit):
  name = 'extrema and flags of the registered functions'
  functions = ['elementwise_functions.get_function_data', 'elementwise_functions._FUNCTION_DATA']
  assumptions = ['critical points are isolated independently (Sturm sequences in s = sigmoid(x); interval bisection with a tail bound for swish): vf/truth.py with sympy/mpmath',
                 'a listed extremum within 1e-9 of the true one is identified with it']
  def run(self, e):
    from .. import truth
    m = self.world.get(EF)
    reg = [('abs', k) for k in range(0, 3)] + [('softplus', k) for k in range(0, 8)] + [('sigmoid', k) for k in range(0, 7)] + [('swish', k) for k in range(0, 8)] + [
        ('exp', k) for k in (0, 1, 7)]
    ids = {'abs': m.ABS, 'exp': m.EXP, 'log': m.LOG, 'sigmoid': m.SIGMOID, 'softplus': m.SOFTPLUS, 'swish': m.SWISH}
    for fid in m._FUNCTION_DATA:
      if (fid.name, fid.derivative_order) not in reg: reg.append((fid.name, fid.derivative_order))
    need = {'abs': 1, 'softplus': 5, 'sigmoid': 4, 'swish': 4, 'exp': 100}
    for name, k in reg:
      t = f'{name} order {k}'
      try: d = m.get_function_data(ids[name].derivative_id(k))
      except NotImplementedError:
        e.prove(f'{t}: registered', z3.BoolVal(k > need[name])); continue
      f = truth.facts(name, k)
      if f is None:
        e.fail(f'{t}: is differentiable there'); continue
      tab = sorted([(float(c), 'min') for c in d.local_minima] + [(float(c), 'max') for c in d.local_maxima])
      true = [(lo, hi, kind) for lo, hi, kind in f['extrema']]
      ok = len(tab) == len(true) and all(kd == kind and lo - 1e-9 <= c <= hi + 1e-9 for (c, kd), (lo, hi, kind) in zip(tab, true))
      e.prove(f'{t}: listed extrema are exactly the true ones', z3.BoolVal(ok), f'listed {tab}, true {[(float(a), kk) for a, b, kk in true]}')
      e.prove(f'{t}: monotonicity flags', z3.BoolVal(bool(d.monotonically_increasing) == f['increasing'] and bool(d.monotonically_decreasing) == f['decreasing']))
      e.prove(f'{t}: symmetry flag', z3.BoolVal((not d.even_symmetric) or f['even']))
      asc = list(d.local_minima) == sorted(d.local_minima) and list(d.local_maxima) == sorted(d.local_maxima)
      e.prove(f'{t}: extrema in ascending order', z3.BoolVal(asc))
    # exp and log: symbolic order
    k = e.fresh_int('order'); e.assume(k >= 0)
    st, d = call_contract(e, 'exp data', lambda: m.get_function_data(m.EXP.derivative_id(SInt(k))))
    e.prove('exp, every order: no extrema, increasing', z3.And(z3.BoolVal(len(d.local_minima) == 0 and len(d.local_maxima) == 0), bv(d.monotonically_increasing), z3.Not(bv(d.monotonically_decreasing))))
    st, d = call_contract(e, 'log data', lambda: m.get_function_data(m.LOG.derivative_id(SInt(k))))
    # the (k+1)-st derivative of log on x > 0 has sign (-1)^k
    e.prove('log, every order: no extrema', z3.BoolVal(len(d.local_minima) == 0 and len(d.local_maxima) == 0))
    e.prove('log, every order: increasing iff even', z3.And(bv(d.monotonically_increasing) == (k % 2 == 0), bv(d.monotonically_decreasing) == (k % 2 == 1)))
    e.prove('log: symmetry flag', z3.Not(bv(d.even_symmetric)))
    st, r = call_contract(e, 'unknown function data', lambda: m.get_function_data(m.FunctionId('no such function')), raises=(NotImplementedError,))
    e.prove('an unregistered function is refused', z3.BoolVal(st == 'raise'))
    e.cover('table')

# ------------------------------------------------------------------ C12: ranges and monotonicity
def frac(c):
  f = Fraction(float(c)); return z3.RealVal(f'{f.numerator}/{f.denominator}')

class FSpec:
  """A function known only through its pieces of monotonicity (true extrema) on its domain."""
  def __init__(self, unit, name, order):
    from .. import truth
    self.u, self.name, self.order = unit, name, order
    self.F = z3.Function(f'{name}_{order}', z3.RealSort(), z3.RealSort())
    f = truth.facts(name, order) if name != 'log' else dict(extrema=[], increasing=order % 2 == 0, decreasing=order % 2 == 1)
    self.facts = f
    self.points = []
  def set_extrema(self, table):
    """Identifies table constants with the true extrema within 1e-9; others stay where they are."""
    self.ex = []
    for lo, hi, kind in self.facts['extrema']:
      m = [c for c in table if lo - 1e-9 <= c <= hi + 1e-9]
      c = frac(m[0]) if m else frac((lo + hi) / 2)
      self.ex.append((c, kind))
  def __call__(self, x):
    x = L(x)
    t = self.F(x.r())
    if not any(p.eq(x.r()) for p in self.points): self.points.append(x.r())
    r = A(t); return r
  def axioms(self):
    """Monotone on every piece: instances for all pairs of points in play."""
    out = []
    ex = self.ex
    pts = self.points + [c for c, _ in ex if not any(c.eq(p) for p in self.points)]
    # pieces: (-inf, e0], [e0, e1], ..., [en, inf)
    pieces = []
    if not ex:
      pieces.append((None, None, self.facts['increasing']))
    else:
      for i in range(len(ex) + 1):
        lo = ex[i-1][0] if i > 0 else None; hi = ex[i][0] if i < len(ex) else None
        inc = (ex[i][1] == 'max') if i < len(ex) else (ex[-1][1] == 'min')
        pieces.append((lo, hi, inc))
    for p in pts:
      for q in pts:
        if p.eq(q): continue
        for lo, hi, inc in pieces:
          c = [p <= q]
          if lo is not None: c.append(p >= lo)
          if hi is not None: c.append(q <= hi)
          out.append(z3.Implies(z3.And(*c), (self.F(p) <= self.F(q)) if inc else (self.F(p) >= self.F(q))))
    return out

TABLE_FUNCS = [('abs', 0), ('abs', 1)] + [('softplus', k) for k in range(6)] + [('sigmoid', k) for k in range(5)] + [('swish', k) for k in range(6)] + [
    ('exp', 0), ('exp', 3), ('log', 0), ('log', 1), ('log', 4), ('log', 5)]

class Ranges(PrimUnit):
  name = 'ranges and monotone regions'
  functions = ['elementwise_functions.get_range', 'elementwise_functions._get_range', 'elementwise_functions.maximum_value',
               'elementwise_functions.minimum_value', 'elementwise_functions.FunctionData.monotone_over']
  assumptions = ['a function is monotone between consecutive zeros of its derivative (proved: lean/TaylorLemmas.lean monotone_between); unit Table decides where they are']
  def make_world(self):
    w = World(); m = w.get(EF)
    def get_function(fid, np_like):
      if (fid.name, fid.derivative_order) != (self.fs.name, self.fs.order): eng().fail('get_range uses the callable of the requested function')
      return self.fs
    m.get_function = get_function
    return w
  def lemmas(self, pc, goal):
    return list(M1Unit.lemmas(self, pc, goal)) + self.fs.axioms()
  def run(self, e):
    m = self.world.get(EF)
    name, k = TABLE_FUNCS[e.choose(len(TABLE_FUNCS))]
    ids = {'abs': m.ABS, 'exp': m.EXP, 'log': m.LOG, 'sigmoid': m.SIGMOID, 'softplus': m.SOFTPLUS, 'swish': m.SWISH}
    self.fs = fs = FSpec(self, name, k)
    fid = ids[name].derivative_id(k)
    d = m.get_function_data(fid)
    fs.set_extrema(list(d.local_minima) + list(d.local_maxima))
    a, b = e.fresh_real('x_min'), e.fresh_real('x_max'); e.assume(a <= b)
    if name == 'log': e.assume(a > 0)
    t = f'{name} order {k}'
    if e.choose(2) == 0:
      st, r = call_contract(e, f'{t}: get_range', lambda: m.get_range(fid, (A(a), A(b)), NP1))
      lo, hi = L(r[0]).r(), L(r[1]).r()
      y = e.fresh_real('y'); e.assume(z3.And(a <= y, y <= b))
      Fy = fs(A(y)).r()
      e.prove(f'{t}: range contains every value (lower)', lo <= Fy)
      e.prove(f'{t}: range contains every value (upper)', Fy <= hi)
      wit = [(a, z3.BoolVal(True)), (b, z3.BoolVal(True))] + [(c, z3.And(a <= c, c <= b)) for c, _ in fs.ex]
      e.prove(f'{t}: lower end of the range attained', z3.Or(*[z3.And(c, lo == fs.F(w)) for w, c in wit]))
      e.prove(f'{t}: upper end of the range attained', z3.Or(*[z3.And(c, hi == fs.F(w)) for w, c in wit]))
      e.cover(f'{t} range')
    else:
      st, r = call_contract(e, f'{t}: monotone_over', lambda: d.monotone_over((A(a), A(b)), NP1))
      dec, inc = L(r[0]).bo(), L(r[1]).bo()
      y1, y2 = e.fresh_real('y1'), e.fresh_real('y2')
      e.assume(z3.And(a <= y1, y1 <= y2, y2 <= b))
      F1, F2 = fs(A(y1)).r(), fs(A(y2)).r()
      e.prove(f'{t}: reported decreasing implies decreasing', z3.Implies(dec, F1 >= F2))
      e.prove(f'{t}: reported increasing implies increasing', z3.Implies(inc, F1 <= F2))
      # complete: a region between consecutive extrema is reported
      ex = fs.ex
      for i in range(len(ex) + 1):
        lo = ex[i-1][0] if i > 0 else None; hi = ex[i][0] if i < len(ex) else None
        up = ((ex[i][1] == 'max') if i < len(ex) else (ex[-1][1] == 'min')) if ex else fs.facts['increasing']
        inside = z3.And(*([a >= lo] if lo is not None else []) + ([b <= hi] if hi is not None else []) + [z3.BoolVal(True)])
        e.prove(f'{t}: piece {i} is reported monotone', z3.Implies(inside, inc if up else dec))
      e.cover(f'{t} monotone')

# ------------------------------------------------------------------ C10/C11
from ..seq import Seq, ConcTup, Cat, ListJ
DER = z3.Function('DERIV', z3.IntSort(), z3.RealSort(), z3.RealSort())
TC = z3.Function('TAYLOR', z3.IntSort(), z3.RealSort())
PSUM = z3.Function('PSUM', z3.IntSort(), z3.RealSort())
RATIO = z3.Function('RATIO', z3.RealSort(), z3.RealSort())
PW = z3.Function('PW', z3.RealSort(), z3.RealSort(), z3.RealSort())
FFAC = z3.Function('FALLING', z3.IntSort(), z3.RealSort())

class SeqUnit(PrimUnit):
  def start_path(self, e):
    PrimUnit.start_path(self, e)
    self.J = e.fresh_int('J'); e.assume(self.J >= 0)
  def list_model(self, v, name, loop):
    m = ListJ(self.J, z3.IntVal(list.__len__(v)), None)
    m.v = eng().fresh_real('elt')
    for i in range(list.__len__(v)): m.v = z3.If(self.J == i, L(list.__getitem__(v, i)).r(), m.v)
    return m
  def slice(self, s, i):
    if isinstance(s, rt.VList): s = s.model.to_seq()
    return s.slice(i)
  def havoc(self, name, v, loop): return A(eng().fresh_real(name))
  def widen(self, loop, name, k, nk, v0, v):
    return 'dom' if nk == 'dom' and k in ('int', 'real') else None

class TaylorCoeffs(SeqUnit):
  name = 'Taylor coefficients'
  functions = ['elementwise_functions.get_taylor_polynomial_coefficients']
  assumptions = []
  def make_world(self):
    w = World(); m = w.get(EF)
    def get_function(fid, np_like):
      e = eng()
      e.prove('derivatives of the given function are used', z3.BoolVal(fid.name == self.fid.name and fid.x_min == self.fid.x_min and fid.x_max == self.fid.x_max))
      return lambda x: A(DER(iv(fid.derivative_order), L(x).r()))
    m.get_function = get_function
    return w
  def templates(self, loop, name, v):
    yield from SeqUnit.templates(self, loop, name, v)
    if rt.kind(v) == 'list':
      def model(x): return x.model or self.list_model(x, name, loop)
      yield 'length', lambda x, i: model(x).length() == i
      def elt(x, i):
        self.fact(self.J)
        return z3.Implies(self.J < i, model(x).v * FACT(self.J) == DER(self.k0 + self.J, self.x0))
      yield 'element', elt
  def fact(self, n): self.factorial(SInt(n))
  def run(self, e):
    m = self.world.get(EF)
    self.x0 = e.fresh_real('x0'); self.k0 = e.fresh_int('order'); e.assume(self.k0 >= 0)
    deg = e.fresh_int('degree'); e.assume(deg >= 0)
    self.fact(self.J)
    self.fid = m.FunctionId('f', SInt(self.k0), 0., None)
    st, r = call_contract(e, 'get_taylor_polynomial_coefficients', lambda: m.get_taylor_polynomial_coefficients(self.fid, SInt(deg), A(self.x0), NP1))
    mod = r.model if isinstance(r, rt.VList) and r.model else None
    if mod is None: raise EngineLimit('result is not the list built by the loop')
    e.prove('degree + 1 coefficients', mod.length() == deg + 1)
    e.assume(self.J <= deg)
    e.prove('coefficient j is f^(j)(x0) / j!', mod.v * FACT(self.J) == DER(self.k0 + self.J, self.x0))
    e.cover('taylor coefficients')

class RatioUnit(SeqUnit):
  name = 'Taylor remainder ratio'
  functions = ['primitive_enclosures.taylor_remainder_ratio']
  assumptions = ['contract of taylor_remainder_ratio covers x == x0 and |x - x0|^degree >= 1e-12 (known finding for smaller values)']
  def templates(self, loop, name, v):
    yield from SeqUnit.templates(self, loop, name, v)
    if rt.kind(v) in ('int', 'real', 'dom'):
      def ps(x, i):
        self.step(i)
        return L(x).r() == PSUM(i)
      yield 'partial sum', ps
  def step(self, i):
    e = eng()
    e.axiom(PSUM(z3.IntVal(0)) == 0)
    for k in (i, z3.simplify(i - 1)):
      t = powi(self.z, k)
      e.axiom(z3.Implies(k >= 0, PSUM(z3.simplify(k + 1)) == PSUM(k) + TC(k) * t))
  def run(self, e):
    m = self.world.get(PE)
    x, x0 = e.fresh_real('x'), e.fresh_real('x0')
    self.z = z3.simplify(x - x0)
    k = e.fresh_int('degree'); e.assume(k >= 0)
    n = e.fresh_int('len'); e.assume(n >= 0)
    seq = Seq(n, lambda j: A(TC(j)))
    F = z3.Function('f', z3.RealSort(), z3.RealSort())
    st, r = call_contract(e, 'taylor_remainder_ratio', lambda: m.taylor_remainder_ratio(A(x0), SInt(k), lambda v: A(F(L(v).r())), seq, A(x), NP1), raises=(ValueError,))
    if st == 'raise':
      e.prove('refused only if the number of coefficients is not degree + 1', n != k + 1); e.cover('refused'); return
    e.prove('needs degree + 1 coefficients', n == k + 1)
    self.step(k); self.step(z3.simplify(k + 1))
    d = powi(self.z, k)
    r = L(r).r()
    ad = z3.If(d >= 0, d, -d)
    e.prove('ratio times (x-x0)^degree is the remainder', z3.Implies(ad >= frac(1e-12), r * d == F(x) - PSUM(k)))
    e.prove('ratio at x0 is the Taylor coefficient', z3.Implies(z3.And(x == x0, k >= 1), r == TC(k)))
    e.cover('ratio')

class EnclUnit(SeqUnit):
  """Units whose obligations are statements about the remainder ratio R at (f, x0, degree)."""
  def start_path(self, e):
    SeqUnit.start_path(self, e)
    self.rpoints = []
  def R(self, x):
    x = z3.simplify(x)
    if not any(p.eq(x) for p in self.rpoints): self.rpoints.append(x)
    return RATIO(x)
  def ratio_stub(self, x0, degree, sigma, taylor_coefficients_at_x0, x, np_like):
    """Contract of taylor_remainder_ratio (unit RatioUnit)."""
    e = eng()
    e.prove('remainder ratio: same x0', L(x0).r() == self.x0)
    e.prove('remainder ratio: same degree', iv(degree) == iv(self.degree))
    v = e.fresh_real('v')
    if getattr(self, 'sigma_dom', None) is not None: e.assume(self.sigma_dom(v))
    sv = L(sigma(A(v))).r()
    e.prove('remainder ratio: of the enclosed function', sv == self.fval(v))
    seq = taylor_coefficients_at_x0
    if isinstance(seq, rt.VList) and seq._sym(): seq = seq.model.to_seq()
    elif not isinstance(seq, Seq): seq = ConcTup(tuple(seq))
    e.prove('remainder ratio: degree + 1 coefficients', seq.length() == iv(self.degree) + 1)
    if not e.branch(self.J > iv(self.degree)):
      e.prove('remainder ratio: Taylor coefficients of the function', L(seq.at(self.J)).r() == self.coef(self.J))
    return A(self.R(L(x).r()))
  def in_region(self, v): return z3.And(self.a <= v, v <= self.b)
  def enclosure_post(self, e, t, r, sharp, wit):
    """r: returned enclosure.  Validity: lower <= R(y) <= upper for every y in the region."""
    if isinstance(r, tuple): r = ConcTup(r)
    if isinstance(r, rt.VList): raise EngineLimit('enclosure is a list')
    deg = iv(self.degree)
    e.prove(f'{t}: degree + 1 coefficients', r.length() == deg + 1)
    y = e.fresh_real('y'); e.assume(self.in_region(y))
    Ry = self.R(y); self.R(self.a); self.R(self.b); self.R(self.x0)
    last = r.at(z3.simplify(deg))
    if not isinstance(last, tuple) or len(last) != 2: e.fail(f'{t}: the final coefficient is an interval')
    lo, hi = L(last[0]).r(), L(last[1]).r()
    self.goal_pre(e, t)
    if self.prop == 'C10':
      e.prove(f'{t}: lower bound valid', lo <= Ry)
      e.prove(f'{t}: upper bound valid', Ry <= hi)
    else:
      e.prove(f'{t}: lower end <= upper end', lo <= hi)
      for cond, label in sharp:
        e.prove(f'{t}: lower end attained ({label})', z3.Implies(cond, z3.Or(*[z3.And(c, lo == self.R(w)) for w, c in wit])))
        e.prove(f'{t}: upper end attained ({label})', z3.Implies(cond, z3.Or(*[z3.And(c, hi == self.R(w)) for w, c in wit])))
    if not e.branch(self.J >= deg):
      e.prove(f'{t}: lower coefficients are the Taylor coefficients', L(r.at(self.J)).r() == self.coef(self.J))
  def goal_pre(self, e, t): pass

class Sharp(EnclUnit):
  name = 'sharp enclosures from monotone derivatives'
  prop = 'C10'
  functions = ['primitive_enclosures.sharp_enclosure_monotonic_derivative', 'primitive_enclosures.bounded_derivative_enclosure',
               'primitive_enclosures.sharp_quadratic_enclosure_even_symmetric_hessian']
  assumptions = ['lemma: if f^(k) is increasing (decreasing) on a region containing x0, the remainder ratio of degree k is increasing (decreasing) there (proved: lean/TaylorLemmas.lean ratio_mono, ratio_anti; for |x|: PolyLemmas abs_ratio_mono)',
                 'lemma: the remainder ratio times k! lies between the bounds of f^(k) (proved: ratio_bounds; for |x|: abs_ratio_bounds)',
                 "lemma: if f'' is even and decreasing on z >= 0, the remainder ratio of degree 2 increases up to -x0 and decreases after it (proved: even_ratio)"]
  def make_world(self):
    w = World(); m = w.get(PE); m.taylor_remainder_ratio = self.ratio_stub
    return w
  def fval(self, v): return z3.Function('f', z3.RealSort(), z3.RealSort())(v)
  def coef(self, j): return TC(j)
  def lemmas(self, pc, goal):
    out = list(SeqUnit.lemmas(self, pc, goal))
    for p in self.rpoints:
      inr = z3.And(self.in_region(p), self.in_region(self.x0))
      if self.mode == 'bounded': out.append(z3.Implies(inr, z3.And(self.dlo <= RATIO(p) * FACT(self.deg), RATIO(p) * FACT(self.deg) <= self.dhi)))
      for q in self.rpoints:
        if p.eq(q): continue
        both = z3.And(inr, self.in_region(q), p <= q)
        if self.mode == 'inc': out.append(z3.Implies(both, RATIO(p) <= RATIO(q)))
        if self.mode == 'dec': out.append(z3.Implies(both, RATIO(p) >= RATIO(q)))
        if self.mode == 'even':
          out.append(z3.Implies(z3.And(p <= q, q <= -self.x0), RATIO(p) <= RATIO(q)))
          out.append(z3.Implies(z3.And(p <= q, p >= -self.x0), RATIO(p) >= RATIO(q)))
    return out
  def run(self, e):
    m = self.world.get(PE)
    self.a, self.b, self.x0 = e.fresh_real('a'), e.fresh_real('b'), e.fresh_real('x0')
    e.assume(z3.And(self.a <= self.x0, self.x0 <= self.b))
    self.mode = ['inc', 'dec', 'bounded', 'even'][e.choose(4)]
    self.deg = e.fresh_int('degree') if self.mode != 'even' else z3.IntVal(2)
    self.degree = SInt(self.deg) if self.mode != 'even' else 2
    if self.mode == 'bounded': e.assume(self.deg >= 0)
    f = lambda v: A(self.fval(L(v).r()))
    tr = (A(self.a), A(self.b))
    coeffs = Seq(self.deg + 1, lambda j: A(TC(j)))
    ends = [(self.a, z3.BoolVal(True)), (self.b, z3.BoolVal(True))]
    tru = [(z3.BoolVal(True), 'monotone' if self.mode != 'even' else 'symmetric')]
    if self.mode in ('inc', 'dec'):
      st, r = call_contract(e, self.mode, lambda: m.sharp_enclosure_monotonic_derivative(A(self.x0), self.degree, tr, f, coeffs, self.mode == 'inc', NP1), raises=(ValueError,))
      if st == 'raise':
        e.prove('refused only if the degree is negative', self.deg < 0); e.cover('refused'); return
      e.prove('a negative degree is refused', self.deg >= 0)
      self.enclosure_post(e, self.mode, r, tru, ends)
    elif self.mode == 'bounded':
      self.dlo, self.dhi = e.fresh_real('dlo'), e.fresh_real('dhi'); e.assume(self.dlo <= self.dhi)
      n = e.fresh_int('n'); e.assume(n >= 0)
      self.factorial(SInt(self.deg))
      st, r = call_contract(e, 'bounded', lambda: m.bounded_derivative_enclosure(self.degree, Seq(n, lambda j: A(TC(j))), (A(self.dlo), A(self.dhi))), raises=(ValueError,))
      if st == 'raise':
        e.prove('bounded: refused only with a wrong number of coefficients', n != self.deg); e.cover('bounded refused'); return
      e.prove('bounded: needs degree coefficients', n == self.deg)
      self.enclosure_post(e, 'bounded', r, [], [])
    else:
      st, r = call_contract(e, 'even', lambda: m.sharp_quadratic_enclosure_even_symmetric_hessian(A(self.x0), tr, f, coeffs, NP1))
      c = z3.If(-self.x0 < self.a, self.a, z3.If(-self.x0 > self.b, self.b, -self.x0))
      self.enclosure_post(e, 'even', r, tru, ends + [(c, z3.BoolVal(True))])
    e.cover(self.mode)
class SharpC11(Sharp): prop = 'C11'

class Elementwise(EnclUnit):
  """get_elementwise_taylor_enclosure for every registered function."""
  name = 'enclosures of registered functions'
  prop = 'C10'
  functions = ['primitive_enclosures.get_elementwise_taylor_enclosure', 'primitive_enclosures.abs_enclosure', 'primitive_enclosures.exp_enclosure',
               'primitive_enclosures.log_enclosure', 'primitive_enclosures.sigmoid_enclosure', 'primitive_enclosures.softplus_enclosure', 'primitive_enclosures.swish_enclosure',
               'primitive_enclosures.sharp_enclosure_monotonic_derivative', 'primitive_enclosures.bounded_derivative_enclosure',
               'primitive_enclosures.sharp_quadratic_enclosure_even_symmetric_hessian', 'elementwise_functions.FunctionData.monotone_over']
  assumptions = Sharp.assumptions + ['contracts of get_function, get_range, get_taylor_polynomial_coefficients, taylor_remainder_ratio (their units)']
  LIMIT = {'abs': 1, 'sigmoid': 4, 'softplus': 5, 'swish': 4}
  exact_numbers = True
  def make_world(self):
    w = World(); m = w.get(PE); ef = w.get(EF)
    m.taylor_remainder_ratio = self.ratio_stub
    def get_function(fid, np_like):
      e = eng()
      e.prove('callable of the requested function', z3.BoolVal(fid.name == self.fname))
      return lambda x: A(DER(iv(fid.derivative_order), L(x).r()))
    def coeffs(function_id, degree, x0, np_like):
      e = eng()
      e.prove('Taylor coefficients of the requested function', z3.And(z3.BoolVal(function_id.name == self.fname), iv(function_id.derivative_order) == 0))
      e.prove('Taylor coefficients at x0', L(x0).r() == self.x0)
      lim = self.LIMIT.get(self.fname)
      if lim is not None and e.branch(iv(degree) > lim): raise NotImplementedError(degree)
      return Seq(iv(degree) + 1, lambda j: A(TC(j)))
    def get_range(function_id, trust_region, np_like):
      e = eng()
      e.prove('range of the derivative of order degree', z3.And(z3.BoolVal(function_id.name == self.fname), iv(function_id.derivative_order) == iv(self.degree)))
      e.prove('range over the trust region', z3.And(L(trust_region[0]).r() == self.a, L(trust_region[1]).r() == self.b))
      self.rng = (e.fresh_real('dmin'), e.fresh_real('dmax')); e.assume(self.rng[0] <= self.rng[1])
      return (A(self.rng[0]), A(self.rng[1]))
    ef.get_function, ef.get_taylor_polynomial_coefficients, ef.get_range = get_function, coeffs, get_range
    return w
  def start_path(self, e):
    EnclUnit.start_path(self, e); self.rng = None; self.facts = None
  def fval(self, v): return DER(z3.IntVal(0), v)
  def coef(self, j): return TC(j)
  def pieces(self):
    ex = self.ex
    if not ex:
      if isinstance(self.facts['increasing'], bool): return [(None, None, z3.BoolVal(self.facts['increasing']))]
      return [(None, None, self.facts['increasing'])]
    out = []
    for i in range(len(ex) + 1):
      lo = ex[i-1][0] if i > 0 else None; hi = ex[i][0] if i < len(ex) else None
      inc = (ex[i][1] == 'max') if i < len(ex) else (ex[-1][1] == 'min')
      out.append((lo, hi, z3.BoolVal(inc)))
    return out
  def covers_piece(self, lo, hi, *pts):
    c = [z3.BoolVal(True)]
    for p in pts:
      if lo is not None: c.append(p >= lo)
      if hi is not None: c.append(p <= hi)
    return z3.And(*c)
  def lemmas(self, pc, goal):
    out = list(SeqUnit.lemmas(self, pc, goal))
    if self.facts is None: return out
    for p in self.rpoints:
      if self.rng is not None:
        f = z3.RealVal(str(__import__('math').factorial(self.degree))) if isinstance(self.degree, int) else FACT(iv(self.degree))
        out.append(z3.Implies(self.in_region(p), z3.And(self.rng[0] <= RATIO(p) * f, RATIO(p) * f <= self.rng[1])))
      for q in self.rpoints:
        if p.eq(q): continue
        for lo, hi, inc in self.pieces():
          out.append(z3.Implies(z3.And(p <= q, self.covers_piece(lo, hi, p, q, self.x0)), z3.If(inc, RATIO(p) <= RATIO(q), RATIO(p) >= RATIO(q))))
        if self.unimodal:
          out.append(z3.Implies(z3.And(p <= q, q <= -self.x0), RATIO(p) <= RATIO(q)))
          out.append(z3.Implies(z3.And(p <= q, p >= -self.x0), RATIO(p) >= RATIO(q)))
    return out
  def run(self, e):
    from .. import truth
    m, ef = self.world.get(PE), self.world.get(EF)
    cases = [(n, k) for n in ('abs', 'sigmoid', 'softplus', 'swish') for k in range(7)] + [('exp', None), ('log', None)]
    self.fname, k = cases[e.choose(len(cases))]
    if k is None:
      d = e.fresh_int('degree'); e.assume(d >= 0); self.degree = SInt(d)
    else: self.degree = k
    t = f'{self.fname} degree {"k" if k is None else k}'
    self.a, self.b, self.x0 = e.fresh_real('a'), e.fresh_real('b'), e.fresh_real('x0')
    e.assume(z3.And(self.a <= self.x0, self.x0 <= self.b))
    if self.fname == 'log': e.assume(self.a > 0)
    self.unimodal = False
    if self.fname == 'exp': self.facts, self.ex = dict(increasing=z3.BoolVal(True)), []
    elif self.fname == 'log': self.facts, self.ex = dict(increasing=iv(self.degree) % 2 == 0), []
    else:
      f = truth.facts(self.fname, k)
      if f is not None:
        self.facts = f
        fid = {'abs': ef.ABS, 'sigmoid': ef.SIGMOID, 'softplus': ef.SOFTPLUS, 'swish': ef.SWISH}[self.fname].derivative_id(k)
        try: tab = ef.get_function_data(fid); tab = list(tab.local_minima) + list(tab.local_maxima)
        except NotImplementedError: tab = []
        self.ex = []
        for lo, hi, kind in f['extrema']:
          c = [x for x in tab if lo - 1e-9 <= x <= hi + 1e-9]
          self.ex.append((frac(c[0]) if c else frac((lo + hi) / 2), kind))
        self.unimodal = (k == 2 and f['even'] and len(self.ex) == 1 and self.ex[0][1] == 'max')
    enc = getattr(m, self.fname + '_enclosure')
    st, r = call_contract(e, t, lambda: enc(A(self.x0), (A(self.a), A(self.b)), self.degree, NP1), raises=(NotImplementedError,))
    lim = self.LIMIT.get(self.fname)
    if st == 'raise':
      e.prove(f'{t}: only unsupported degrees are refused', z3.BoolVal(lim is not None and k > lim)); e.cover(f'{t} refused'); return
    if lim is not None and k > lim: e.fail(f'{t}: unsupported degrees are refused')
    mono = z3.Or(*[self.covers_piece(lo, hi, self.a, self.b) for lo, hi, _ in self.pieces()])
    sharp = [(mono, 'monotone derivative')] + ([(z3.BoolVal(True), 'symmetric unimodal')] if self.unimodal else [])
    c = z3.If(-self.x0 < self.a, self.a, z3.If(-self.x0 > self.b, self.b, -self.x0))
    wit = [(self.a, z3.BoolVal(True)), (self.b, z3.BoolVal(True))] + ([(c, z3.BoolVal(True))] if self.unimodal else [])
    self.enclosure_post(e, t, r, sharp, wit)
    e.cover(t)
class ElementwiseC11(Elementwise): prop = 'C11'

class PowSign(SeqUnit):
  name = 'sign of derivatives of powers'
  functions = ['primitive_enclosures._pow_kth_deriv_sign']
  assumptions = ['the k-th derivative of x^p is p (p-1) ... (p-k+1) x^(p-k) (proved: rp_deriv, zp_deriv)']
  def templates(self, loop, name, v):
    yield from SeqUnit.templates(self, loop, name, v)
    if rt.kind(v) == 'real':
      def ff(x, i):
        self.ff(i); return rv(x) == FFAC(i)
      yield 'falling factorial', ff
  def ff(self, i):
    e = eng(); e.axiom(FFAC(z3.IntVal(0)) == 1)
    for k in (i, z3.simplify(i - 1)): e.axiom(z3.Implies(k >= 0, FFAC(z3.simplify(k + 1)) == FFAC(k) * (self.p - z3.ToReal(k))))
  def run(self, e):
    m = self.world.get(PE)
    isint = e.choose(2) == 0
    pi = e.fresh_int('pi')
    self.p = z3.ToReal(pi) if isint else e.fresh_real('p')
    if not isint: e.assume(z3.Not(z3.IsInt(self.p)))
    k = e.fresh_int('k'); e.assume(k >= 0)
    sg = [1, -1][e.choose(2)]
    p = SReal(self.p)
    if isint and e.choose(2) == 0: p = SInt(pi)
    st, r = call_contract(e, '_pow_kth_deriv_sign', lambda: m._pow_kth_deriv_sign(sg, p, SInt(k)), raises=(ValueError,))
    if st == 'raise':
      e.prove('refused only for negative x and non-integer p', z3.BoolVal(sg == -1 and not isint)); e.cover('refused'); return
    if sg == -1 and not isint: e.fail('x^p with negative x and non-integer p is refused')
    r = iv(r); c = FFAC(k)
    s = z3.If(c > 0, 1, z3.If(c < 0, -1, 0))
    if sg == -1: s = s * z3.If((pi - k) % 2 == 0, 1, -1)
    e.prove(f'sign for x of sign {sg}', r == s)
    e.cover(f'sign {sg} {isint}')

class Pow(EnclUnit):
  name = 'enclosures of real powers'
  prop = 'C10'
  functions = ['primitive_enclosures.pow_enclosure', 'primitive_enclosures.sharp_enclosure_monotonic_derivative']
  assumptions = ['lemma: remainder ratio monotone when the degree-th derivative FF(k) x^(p-k) is (x >= 0, x <= 0, or all x when p - k is odd or p <= k) (proved: rp_mono, rp_anti, rp_mono_zero, rp_anti_zero, zp_mono_right, zp_anti_right, zp_mono_left, zp_anti_left, zp_odd, zp_const)',
                 'lemma: for p - k even and positive the remainder ratio of x^p is non-negative and at most its larger end value (proved: zp_even)',
                 'domain: for p < 0 the trust region does not start at 0 (the ratio at 0 is then an infinite float); x0 != 0 unless p is a non-negative integer',
                 'contracts of taylor_remainder_ratio and _pow_kth_deriv_sign (their units)']
  def make_world(self):
    w = World(); m = w.get(PE)
    m.taylor_remainder_ratio = self.ratio_stub
    def sign(x_sign, p, k):
      e = eng()
      if isinstance(x_sign, (SInt, SReal)): raise EngineLimit('x_sign')
      e.prove('sign of derivatives of the given power', rv(p) == self.p)
      k = iv(k); self.ff(k); self.ff(z3.simplify(k - 1))
      if x_sign == -1 and not self.isint: raise ValueError('x**p undefined')
      if x_sign not in (1, -1): raise ValueError(x_sign)
      c = FFAC(k); s = z3.If(c > 0, 1, z3.If(c < 0, -1, 0))
      if x_sign == -1: s = s * z3.If((self.pint - k) % 2 == 0, 1, -1)
      return SInt(s)
    m._pow_kth_deriv_sign = sign
    return w
  def ff(self, i):
    e = eng(); e.axiom(FFAC(z3.IntVal(0)) == 1)
    for k in (i, z3.simplify(i - 1)): e.axiom(z3.Implies(k >= 0, FFAC(z3.simplify(k + 1)) == FFAC(k) * (self.p - z3.ToReal(k))))
    if self.isint:   # lemma: falling factorials of integers
      e.axiom(z3.Implies(z3.And(self.pint >= 0, i > self.pint), FFAC(i) == 0))
      e.axiom(z3.Implies(z3.And(self.pint >= 0, i >= 0, i <= self.pint), FFAC(i) > 0))
  def power_hook(self, x, p): return PW(x, z3.simplify(rv(p)))
  def fval(self, v): return PW(v, self.p)
  def coef(self, j):
    self.factorial(SInt(j)); self.ff(j)
    return FFAC(j) * PW(self.x0, z3.simplify(self.p - z3.ToReal(j))) / FACT(j)
  def templates(self, loop, name, v):
    yield from SeqUnit.templates(self, loop, name, v)
    if rt.kind(v) == 'list':
      def model(x): return x.model or self.list_model(x, name, loop)
      yield 'length', lambda x, i: model(x).length() == i
      yield 'element', lambda x, i: z3.Implies(self.J < i, model(x).v == self.coef(self.J))
    if rt.kind(v) in ('real', 'int'):
      prev = lambda i: z3.simplify(z3.If(i >= 1, i - 1, z3.IntVal(0)))
      for nm, pos in (('', lambda i: i), (' before', prev)):
        def ff(x, i, pos=pos):
          i = pos(i); self.ff(i); return rv(x) == FFAC(i)
        yield 'falling factorial' + nm, ff
        def fac(x, i, pos=pos):
          i = pos(i); self.factorial(SInt(i)); self.factorial(SInt(z3.simplify(i + 1))); return rv(x) == FACT(i)
        yield 'factorial' + nm, fac
  def lemmas(self, pc, goal):
    out = list(SeqUnit.lemmas(self, pc, goal))
    k = iv(self.degree); c1 = FFAC(z3.simplify(k + 1))
    for p in self.rpoints:
      if self.isint:
        conv = z3.And(self.pint > k, (self.pint - k) % 2 == 0)
        out.append(z3.Implies(z3.And(conv, self.in_region(p)), z3.And(RATIO(p) >= 0, z3.Or(RATIO(p) <= RATIO(self.a), RATIO(p) <= RATIO(self.b)))))
      for q in self.rpoints:
        if p.eq(q): continue
        le, ge = RATIO(p) <= RATIO(q), RATIO(p) >= RATIO(q)
        o = z3.And(p <= q, self.in_region(p), self.in_region(q))
        out.append(z3.Implies(z3.And(o, self.a >= 0, c1 >= 0), le)); out.append(z3.Implies(z3.And(o, self.a >= 0, c1 <= 0), ge))
        if self.isint:
          s = z3.If((self.pint - k - 1) % 2 == 0, c1, -c1)
          out.append(z3.Implies(z3.And(o, self.b <= 0, s >= 0), le)); out.append(z3.Implies(z3.And(o, self.b <= 0, s <= 0), ge))
          out.append(z3.Implies(z3.And(o, self.pint >= 0, self.pint <= k), RATIO(p) == RATIO(q)))
          out.append(z3.Implies(z3.And(o, self.pint >= 0, (self.pint - k) % 2 == 1), le))
    return out
  def goal_pre(self, e, t):
    self.ff(z3.simplify(iv(self.degree) + 1)); self.ff(iv(self.degree))
  def run(self, e):
    m = self.world.get(PE)
    self.p = e.fresh_real('p'); self.isint = e.choose(2) == 0
    self.pint = None
    if self.isint:
      self.pint = e.fresh_int('pint'); self.p = z3.ToReal(self.pint)
      p = SInt(self.pint) if e.choose(2) == 0 else SReal(z3.ToReal(self.pint))
      t = 'integer exponent'
    else:
      e.assume(z3.Not(z3.IsInt(self.p))); p = SReal(self.p); t = 'non-integer exponent'
    d = e.fresh_int('degree'); e.assume(d >= 0); self.degree = SInt(d)
    self.a, self.b, self.x0 = e.fresh_real('a'), e.fresh_real('b'), e.fresh_real('x0')
    e.assume(z3.And(self.a <= self.x0, self.x0 <= self.b))
    a, b = self.a, self.b
    region = ['nonneg', 'nonpos', 'straddle'][e.choose(3)]
    e.assume({'nonneg': a >= 0, 'nonpos': z3.And(b <= 0, a < 0), 'straddle': z3.And(a < 0, b > 0)}[region])
    if self.isint: 
      e.assume(z3.Or(self.pint >= 0, region != 'nonneg', a > 0))
      e.assume(z3.Or(self.pint >= 0, self.x0 != 0))   # else the coefficients are not defined
    else: e.assume(z3.Or(self.x0 > 0, region != 'nonneg'))
    t += f', {region}'
    self.sigma_dom = lambda v: z3.And(v > 0, v != 0)
    st, r = call_contract(e, t, lambda: m.pow_enclosure(p, A(self.x0), (A(a), A(b)), self.degree, NP1))
    infinite = (not self.isint and region != 'nonneg')
    if isinstance(r, tuple): r = ConcTup(r)
    if not infinite and self.isint and region != 'nonneg':
      infinite = e.branch(z3.And(self.pint < 0, b >= 0))
    if infinite:
      last = r.at(z3.simplify(r.length() - 1))
      e.prove(f'{t}: infinite interval', z3.And(L(last[0]).r() == -INF, L(last[1]).r() == INF))
      e.prove(f'{t}: degree + 1 coefficients', r.length() == d + 1)
      e.cover(t + ' infinite'); return
    sharp = [(z3.Or(a >= 0, b <= 0) if not self.isint else z3.Or(a >= 0, b <= 0, self.pint <= d, (self.pint - d) % 2 == 1), 'monotone derivative')]
    self.enclosure_post(e, t, r, sharp, [(a, z3.BoolVal(True)), (b, z3.BoolVal(True))])
    e.cover(t)
class PowC11(Pow): prop = 'C11'
