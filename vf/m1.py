"""M1: arrays seen at one generic (arbitrary, fixed) index, intervals as pairs.

Contract assumed on the numpy-like back end: elementwise operations act, at every
index of the broadcast result, on the broadcast operands' elements at that index,
in exact real arithmetic.
"""
import z3
from fractions import Fraction
from .core import *
from .core import _isnum
from . import rt
from .unit import Unit, call_contract

POW = z3.Function('pow', z3.RealSort(), z3.IntSort(), z3.RealSort())
POWR = z3.Function('powr', z3.RealSort(), z3.RealSort(), z3.RealSort())
INF = z3.Real('INF')

def powi(x, n):
  """x**n for a z3 real x and a (possibly symbolic) integer exponent n."""
  c = conc_int(n) if z3.is_expr(n) else n
  if c is not None:
    if c == 0: return z3.RealVal(1)
    if 0 < c <= 2:
      r = x
      for _ in range(c - 1): r = r * x
      return r
    n = z3.IntVal(c)
  t = POW(x, n)
  u = eng().unit
  u.pow_terms.setdefault(t.get_id(), (x, n, t))
  return t

def pow_value(x, p):
  """x**p; p may be a symbolic int, a symbolic real or a python number."""
  if isinstance(p, A): p = p.num()
  h = getattr(eng().unit, 'power_hook', None)
  if h: return h(x, p)
  if isinstance(p, float) and p.is_integer(): p = int(p)
  if isinstance(p, (int, SInt)):
    return powi(x, iv(p))
  pr = rv(p)
  h = getattr(eng().unit, 'real_power', None)
  if h: return h(x, pr)
  raise EngineLimit('non-integer power')

class A:
  """The element, at the generic index, of an array."""
  __vf__ = True
  __array_priority__ = 1000
  def __init__(self, e, b=None):
    self.e, self.b = e, b         # real value; boolean value if it is a bool array
  @staticmethod
  def lift(x):
    if isinstance(x, A): return x
    if isinstance(x, SBool): return A(None, x.e)
    if isinstance(x, bool): return A(None, z3.BoolVal(x))
    if isinstance(x, float) and x == float('inf'): return A(INF)
    if isinstance(x, float) and x == float('-inf'): return A(-INF)
    if _isnum(x): return A(rv(x))
    raise EngineLimit(f'not an array-like: {type(x).__name__}')
  def num(self):
    return SReal(self.r())
  def r(self):
    if self.e is None: return z3.If(self.b, z3.RealVal(1), z3.RealVal(0))
    return self.e
  def bo(self):
    if self.b is None: return self.e != 0
    return self.b
  def _bin(self, o, f):
    if not isinstance(o, A) and not _isnum(o): return NotImplemented
    return A(f(self.r(), A.lift(o).r()))
  def _rbin(self, o, f):
    if not isinstance(o, A) and not _isnum(o): return NotImplemented
    return A(f(A.lift(o).r(), self.r()))
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)
  def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
  def __rtruediv__(self, o): return self._rbin(o, lambda a, b: a / b)
  def __neg__(self): return A(-self.r())
  def __pos__(self): return self
  def __abs__(self): return A(z3.If(self.r() >= 0, self.r(), -self.r()))
  def __pow__(self, p): return A(pow_value(self.r(), p))
  def _cmp(self, o, f):
    if not isinstance(o, A) and not _isnum(o): return NotImplemented
    return A(None, f(self.r(), A.lift(o).r()))
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
  __hash__ = None
  def __and__(self, o): return A(None, z3.And(self.bo(), A.lift(o).bo()))
  __rand__ = __and__
  def __or__(self, o): return A(None, z3.Or(self.bo(), A.lift(o).bo()))
  __ror__ = __or__
  def __invert__(self): return A(None, z3.Not(self.bo()))
  def __bool__(self):
    if eng().unit.scalar_mode: return eng().branch(self.bo())
    raise EngineLimit('truth value of an array element')
  @property
  def ndim(self): return eng().unit.ndim_of(self)
  @property
  def shape(self): return Shape()
  @property
  def dtype(self): return 'float'
  def astype(self, *a): return self
  def __repr__(self): return f'A({self.e if self.e is not None else self.b})'
  def __len__(self): raise EngineLimit('len of array')
  def __iter__(self): raise EngineLimit('iteration over array')
  def __getitem__(self, i): raise EngineLimit('indexing of array')

class Shape:
  """Opaque shape of the (broadcast) operands; usable only as an argument."""
  def __iter__(self): raise EngineLimit('shape inspected')

def L(x): return A.lift(x)

class NP1:
  """np_like back end at a generic index."""
  inf = float('inf')
  e = 2.718281828459045
  @staticmethod
  def asarray(x, dtype=None):
    if isinstance(x, tuple): raise EngineLimit('asarray of tuple')
    return L(x)
  array = asarray
  @staticmethod
  def add(a, b): return L(a) + L(b)
  @staticmethod
  def subtract(a, b): return L(a) - L(b)
  @staticmethod
  def multiply(a, b): return L(a) * L(b)
  @staticmethod
  def divide(a, b): return L(a) / L(b)
  true_divide = divide
  @staticmethod
  def negative(a): return -L(a)
  @staticmethod
  def minimum(a, b):
    a, b = L(a).r(), L(b).r(); return A(z3.If(a <= b, a, b))
  @staticmethod
  def maximum(a, b):
    a, b = L(a).r(), L(b).r(); return A(z3.If(a >= b, a, b))
  @staticmethod
  def abs(a): return abs(L(a))
  absolute = abs
  @staticmethod
  def sign(a):
    a = L(a).r(); return A(z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0))))
  @staticmethod
  def square(a): return L(a) * L(a)
  @staticmethod
  def power(a, p): return L(a) ** (p.num() if isinstance(p, A) else p)
  @staticmethod
  def logical_and(a, b): return L(a) & L(b)
  @staticmethod
  def logical_or(a, b): return L(a) | L(b)
  @staticmethod
  def logical_not(a): return ~L(a)
  @staticmethod
  def where(c, a, b):
    a, b = L(a), L(b)
    if a.e is None and b.e is None: return A(None, z3.If(L(c).bo(), a.b, b.b))
    return A(z3.If(L(c).bo(), a.r(), b.r()))
  @staticmethod
  def clip(x, lo=None, hi=None):
    x = L(x).r()
    if lo is not None:
      lo = L(lo).r(); x = z3.If(x >= lo, x, lo)
    if hi is not None:
      hi = L(hi).r(); x = z3.If(x <= hi, x, hi)
    return A(x)
  @staticmethod
  def ones_like(a): L(a); return A(z3.RealVal(1))
  @staticmethod
  def zeros_like(a): L(a); return A(z3.RealVal(0))
  @staticmethod
  def full_like(a, v): return L(v)
  @staticmethod
  def full(shape, v): return L(v)
  @staticmethod
  def ones(shape): return A(z3.RealVal(1))
  @staticmethod
  def zeros(shape): return A(z3.RealVal(0))
  @staticmethod
  def greater(a, b): return L(a) > L(b)
  @staticmethod
  def less(a, b): return L(a) < L(b)
  @staticmethod
  def greater_equal(a, b): return L(a) >= L(b)
  @staticmethod
  def less_equal(a, b): return L(a) <= L(b)
  @staticmethod
  def equal(a, b): return L(a) == L(b)
  @staticmethod
  def not_equal(a, b): return L(a) != L(b)
  @staticmethod
  def ndim(a): return eng().unit.ndim_of(a)
  @staticmethod
  def shape(a): return Shape()
  @staticmethod
  def isnan(a): return A(None, z3.BoolVal(False))
  @staticmethod
  def isfinite(a): return A(None, z3.BoolVal(True))
  @staticmethod
  def _tr(name, a):
    return eng().unit.transcendental(name, L(a).r())
  @staticmethod
  def exp(a): return NP1._tr('exp', a)
  @staticmethod
  def log(a): return NP1._tr('log', a)
  @staticmethod
  def log1p(a): return NP1._tr('log', L(a) + 1)
  @staticmethod
  def sqrt(a): return NP1._tr('sqrt', a)

def pow_lemmas(terms):
  """Instances of  parity / monotonicity / sign  lemmas for integer powers.

  Each is a theorem of ordered fields (lean/PowLemmas.lean)."""
  out = []
  terms = list(terms)
  zero, one = z3.RealVal(0), z3.RealVal(1)
  absr = lambda v: z3.If(v >= 0, v, -v)
  for x, n, t in terms:
    even = n % 2 == 0
    out.append(z3.Implies(n == 0, t == 1))
    out.append(z3.Implies(n == 1, t == x))
    out.append(z3.Implies(z3.And(n >= 1, x == 0), t == 0))
    out.append(z3.Implies(x == 1, t == 1))
    out.append(z3.Implies(z3.And(n >= 0, even), t >= 0))
    out.append(z3.Implies(x > 0, t > 0))
    out.append(z3.Implies(z3.And(n >= 0, x >= 0), t >= 0))
    out.append(z3.Implies(z3.And(n >= 0, z3.Not(even), x <= 0), t <= 0))
    out.append(z3.Implies(z3.And(z3.Not(even), x < 0), t < 0))
    out.append(z3.Implies(z3.And(even, x != 0), t > 0))
    # recursion between terms on the same base
  for i, (x, n, t) in enumerate(terms):
    for (y, m, s) in terms[:i] + terms[i+1:]:
      if n.eq(m):
        even = n % 2 == 0
        out.append(z3.Implies(z3.And(n >= 0, z3.Not(even), x <= y), t <= s))
        out.append(z3.Implies(z3.And(n >= 0, even, absr(x) <= absr(y)), t <= s))
      if x.eq(y):
        out.append(z3.Implies(z3.And(m == n + 1, n >= 0), s == t * x))
  return out

class M1Unit(Unit):
  scalar_mode = False
  def start_path(self, e):
    self.pow_terms = {}
    self.nd = {}
  def lemmas(self, pc, goal):
    return pow_lemmas(self.pow_terms.values())
  def ndim_of(self, a):
    n = getattr(self, 'the_ndim', None)
    if n is not None: return n
    if not isinstance(a, A): return 0
    nd = getattr(a, 'nd', None)
    if nd is None:
      v = eng().fresh_int('ndim'); eng().assume(v >= 0); nd = a.nd = SInt(v)
    return nd
  def is_dom(self, v): return isinstance(v, A)
  def real(self, e, name): return A(e.fresh_real(name))
  def interval(self, e, name):
    lo, hi = e.fresh_real(name + '.lo'), e.fresh_real(name + '.hi')
    e.assume(lo <= hi)
    return (A(lo), A(hi))
  def operand(self, e, name, kind):
    if kind == 'iv': return self.interval(e, name)
    return self.real(e, name)
  def member(self, e, v, name):
    """An arbitrary member of a value."""
    if isinstance(v, tuple):
      m = e.fresh_real(name)
      e.assume(v[0].r() <= m); e.assume(m <= v[1].r())
      return m
    return v.r()
