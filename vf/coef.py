"""M3: coefficients of (Taylor) polynomials seen through one member polynomial.

A coefficient is a set of arrays; the ghost value `v` is the full contraction <w, z^deg> of one
fixed member w with powers of one fixed displacement z (for elementwise enclosures: the
member itself), at one generic batch index.  A returned set is valid if it was produced by sound
set operations (contracts of C02/C04) from valid sets, so that its ghost value is the ghost
value of a member of the set.  `deg` is the number of groups of x axes, `nb` the number of
batch axes, `iv` whether the set is an interval.
"""
import z3
from .core import *
from .core import _isnum
from . import rt
from .m1 import POW, pow_lemmas
from .seq import Seq, ConcTup, Cat
from .unit import Unit, call_contract

I0, R0, R1 = z3.IntVal(0), z3.RealVal(0), z3.RealVal(1)
F = z3.BoolVal(False)
imax = lambda a, b: a if a.eq(b) else z3.simplify(z3.If(a >= b, a, b))

class Coef:
  __vf__ = True
  __array_priority__ = 1000
  def __init__(self, v, deg=I0, nb=I0, iv=F, product=None):
    self.v, self.deg, self.nb, self.iv, self.product = v, deg, nb, iv, product
  @staticmethod
  def lift(x):
    if isinstance(x, Coef): return x
    if isinstance(x, (int, float, SInt, SReal)): return Coef(rv(x))
    raise EngineLimit(f'not a coefficient: {type(x).__name__}')
  def __vf_isinstance__(self, cls):
    if cls is tuple or isinstance(cls, tuple) and tuple in cls: return eng().branch(self.iv)
    return False
  def __getitem__(self, i):
    if isinstance(i, int) and i in (0, 1, -1, -2): return Coef(eng().fresh_real('end'), self.deg, self.nb)
    raise EngineLimit('indexing of a coefficient')
  def __vf_len__(self): return 2
  def __iter__(self):
    if eng().branch(self.iv): return iter((self[0], self[1]))
    raise EngineLimit('iteration over a coefficient')
  @property
  def ndim(self): return SInt(z3.simplify(self.nb + self.deg * eng().unit.xnd))
  def scalar_zero(self): return z3.And(self.v == 0, self.deg == 0, self.nb == 0)
  # operators (numeric coefficient algebra)
  def __add__(self, o): return add(self, o)
  def __radd__(self, o): return add(o, self)
  def __mul__(self, o): return term_product(self, Coef.lift(o))
  def __rmul__(self, o): return term_product(Coef.lift(o), self)
  def __neg__(self): return Coef(-self.v, self.deg, self.nb, self.iv)
  def __sub__(self, o): return add(self, -Coef.lift(o))
  def __pow__(self, n): return term_power(self, iv_(n))
  def __repr__(self): return f'Coef({self.v}, deg {self.deg}, iv {self.iv})'
  def __bool__(self): raise EngineLimit('truth value of a coefficient')
  def __eq__(self, o): raise EngineLimit('comparison of coefficients')
  __hash__ = None
  @property
  def shape(self): return CShape(self)

def iv_(x): return iv(x)
def same_deg(a, b): return z3.Or(a.deg == b.deg, a.scalar_zero(), b.scalar_zero())
def add(a, b, what='add'):
  a, b = Coef.lift(a), Coef.lift(b)
  eng().prove(f'{what}: the coefficients belong to the same power', same_deg(a, b))
  return Coef(a.v + b.v, imax(a.deg, b.deg), imax(a.nb, b.nb), z3.simplify(z3.Or(a.iv, b.iv)))
def term_product(a, b, spec=None):
  v = spec(a.v, b.v) if spec else a.v * b.v
  return Coef(v, z3.simplify(a.deg + b.deg), imax(a.nb, b.nb), z3.simplify(z3.Or(a.iv, b.iv)), product=(a, b))
def powr(v, n):
  """v^n as an uninterpreted power with its defining lemmas."""
  n = z3.simplify(n)
  if conc_int(n) == 0: return R1
  if conc_int(n) == 1: return v
  t = POW(v, n); eng().unit.pow_terms.setdefault(t.get_id(), (v, n, t)); return t
def term_power(a, n):
  zero = n == 0
  return Coef(powr(a.v, n), z3.simplify(z3.If(zero, I0, a.deg * n)), z3.simplify(z3.If(zero, I0, a.nb)), z3.simplify(z3.And(a.iv, z3.Not(zero))))

class CShape:
  """shape tuple of a coefficient."""
  def __init__(self, c): self.c = c
  def __vf_len__(self): return self.c.ndim
  def __getitem__(self, s):
    if isinstance(s, slice) and s.stop is None and s.step is None and s.start is not None:
      return CShapeTail(self.c, iv(s.start))
    raise EngineLimit('shape of a coefficient inspected')
  def __iter__(self): raise EngineLimit('shape of a coefficient inspected')
class CShapeTail:
  def __init__(self, c, start): self.c, self.start = c, start
  def __eq__(self, o):
    u = eng().unit
    if isinstance(o, XShapeRep):
      # equal iff the tail has the axes of o.n copies of x
      n = self.c.nb + self.c.deg * u.xnd - self.start
      eng().prove('shape check: the trailing n * ndim(x) axes are compared with n copies of the shape of x', n == o.n * u.xnd)
      return SBool(z3.And(self.c.deg >= o.n, u.fits(self.c, o.n)))
    raise EngineLimit('shape comparison')
  def __ne__(self, o): return ~(self == o) if isinstance(self == o, SBool) else not (self == o)
  __hash__ = None
class XShape:
  __vf_repeat_ok__ = True
  def __vf_len__(self): return eng().unit.xnd_val()
  def __vf_repeat__(self, n): return XShapeRep(iv(n))
  def __mul__(self, n): return XShapeRep(iv(n))
  __rmul__ = __mul__
  def __eq__(self, o): return isinstance(o, XShape)
  def __ne__(self, o): return not isinstance(o, XShape)
  __hash__ = None
class XShapeRep:
  def __init__(self, n): self.n = n
  def __vf_len__(self): return SInt(z3.simplify(z3.If(self.n > 0, self.n, 0) * eng().unit.xnd))
  def __mul__(self, o): return XShapeRep(z3.simplify(z3.If(self.n > 0, self.n, 0) * iv(o)))
  __rmul__ = __mul__

# ------------------------------------------------------------ displacement sets and powers of them
class Disp:
  """The displacement z (point or interval)."""
  __vf__ = True
  def __init__(self, iv, end=None): self.iv, self.end = iv, end
  def __vf_isinstance__(self, cls):
    if cls is tuple or isinstance(cls, tuple) and tuple in cls: return eng().branch(self.iv)
    return False
  def __getitem__(self, i):
    if i in (0, 1): return Disp(F, i)
    raise EngineLimit('displacement index')
  @property
  def ndim(self): return eng().unit.xnd_val()
  def __iter__(self): raise EngineLimit('iteration over the displacement')
class ZPow:
  """z^(outer k)."""
  __vf__ = True
  def __init__(self, k, iv): self.k, self.iv = k, iv
  def __vf_isinstance__(self, cls):
    if cls is tuple or isinstance(cls, tuple) and tuple in cls: return eng().branch(self.iv)
    return False
  @property
  def ndim(self): return SInt(z3.simplify(self.k * eng().unit.xnd))

# ------------------------------------------------------------ sequences of coefficients
class CSeq(Seq):
  """A coefficient sequence given by element and prefix-sum functions."""
  def __init__(self, n, at, prefix): Seq.__init__(self, n, at); self._prefix = prefix
  def prefix(self, k):
    """Sum of the ghost values of the first k elements (0 <= k <= n)."""
    return self._prefix(k)
  def total(self): return self.prefix(self.length())
  def slice(self, s):
    if s.step not in (None, 1): raise EngineLimit('slice step')
    n = self.length()
    lo, hi = norm_bound(s.start, I0, n), norm_bound(s.stop, n, n)
    m = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    base = self
    return CSeq(m, lambda k: base.at(z3.simplify(k + lo)), lambda k: base.prefix(z3.simplify(k + lo)) - base.prefix(lo))
  def __add__(self, o):
    if isinstance(o, tuple): o = cseq(o)
    return ccat(self, o)
  def __radd__(self, o): return ccat(cseq(o), self)
  def __bool__(self): return eng().branch(self.length() > 0)
  def __iter__(self): raise EngineLimit('native iteration over a coefficient sequence')

def norm_bound(v, d, n):
  if v is None: return d
  v = iv(v)
  c = conc_int(v)
  if c is not None: v = n + c if c < 0 else v
  else: v = z3.If(v < 0, n + v, v)
  return z3.simplify(z3.If(v < 0, 0, z3.If(v > n, n, v)))

def cseq(x):
  """Any sequence of coefficients as a CSeq."""
  if isinstance(x, CSeq): return x
  if isinstance(x, rt.VList):
    if x._sym(): return x.model.to_seq()
    x = tuple(list.__iter__(x))
  if isinstance(x, rt.LazyComp): return cseq(x.to_list())
  if isinstance(x, tuple):
    items = [Coef.lift(c) if not isinstance(c, Coef) else c for c in x]
    def at(k):
      c = conc_int(k)
      if c is not None: return items[c]
      for j in range(len(items) - 1):
        if eng().branch(k == j): return items[j]
      return items[-1]
    def prefix(k):
      c = conc_int(k)
      if c is not None: return z3.simplify(z3.Sum([i.v for i in items[:c]])) if c else R0
      s = R0
      for j in range(len(items)): s = s + z3.If(k > j, items[j].v, R0)
      return s
    return CSeq(z3.IntVal(len(items)), at, prefix)
  raise EngineLimit(f'not a sequence of coefficients: {type(x).__name__}')

def ccat(a, b):
  na = a.length()
  def at(k):
    if eng().branch(z3.simplify(k < na)): return a.at(k)
    return b.at(z3.simplify(k - na))
  def prefix(k):
    if eng().branch(z3.simplify(k <= na)): return a.prefix(k)
    return a.total() + b.prefix(z3.simplify(k - na))
  return CSeq(z3.simplify(na + b.length()), at, prefix)

def input_seq(e, name, n, low=None, deg=None, nb=None, iv=None):
  """An arbitrary well-formed sequence: element k belongs to power k; elements below `low` are arrays."""
  V = z3.Function(f'{name}', z3.IntSort(), z3.RealSort()); PS = z3.Function(f'sum_{name}', z3.IntSort(), z3.RealSort())
  IV = z3.Function(f'iv_{name}', z3.IntSort(), z3.BoolSort()); NB = z3.Function(f'nb_{name}', z3.IntSort(), z3.IntSort())
  e.axiom(PS(I0) == 0)
  def at(k):
    k = z3.simplify(k)
    e.axiom(z3.And(NB(k) >= 0, *( [z3.Implies(k < low, z3.Not(IV(k)))] if low is not None else [])))
    e.axiom(z3.Implies(k >= 0, PS(z3.simplify(k + 1)) == PS(k) + V(k)))
    return Coef(V(k), deg(k) if deg else k, nb(k) if nb else NB(k), iv(k) if iv else IV(k))
  def prefix(k):
    k = z3.simplify(k)
    e.axiom(z3.Implies(k >= 0, PS(z3.simplify(k + 1)) == PS(k) + V(k)))
    e.axiom(z3.Implies(k >= 1, PS(k) == PS(z3.simplify(k - 1)) + V(z3.simplify(k - 1))))
    return PS(k)
  s = CSeq(n, at, prefix); s.V, s.PS, s.IV = V, PS, IV
  return s

class CoefList:
  """Model of a (mutable) list of coefficients."""
  def __init__(self, n, V, DG, NB, IVa, total, facts=()):
    self.n, self.V, self.DG, self.NB, self.IV, self.tot, self.facts = n, V, DG, NB, IVa, total, list(facts)
  @staticmethod
  def const(n, c):
    K = lambda v: z3.K(z3.IntSort(), v)
    return CoefList(n, K(c.v), K(c.deg), K(c.nb), K(c.iv), R0 if z3.is_true(z3.simplify(c.v == 0)) else z3.ToReal(n) * c.v)
  @staticmethod
  def of(items):
    m = CoefList.const(I0, Coef(R0))
    for c in items: m.append(c)
    return m
  @staticmethod
  def of_seq(s):
    """A new list with the elements of a sequence."""
    m = CoefList(I0, None, None, None, None, R0); m.havoc()
    m.n, m.tot = s.length(), s.total(); snap = m.copy()
    def same(m0, k):
      c, d = m0.elem(k), s.at(k)
      return z3.Implies(z3.And(k >= 0, k < m0.n), z3.And(c.v == d.v, c.deg == d.deg, c.nb == d.nb, c.iv == d.iv))
    m.facts.append((snap, same))
    return m
  def copy(self): return CoefList(self.n, self.V, self.DG, self.NB, self.IV, self.tot, self.facts)
  def length(self): return self.n
  def havoc(self):
    e = eng(); z, r, b = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    c = lambda nm, s: z3.Const(e.fresh_name(nm), z3.ArraySort(z, s))
    self.n = e.fresh_int('len'); self.V, self.DG, self.NB, self.IV = c('V', r), c('DG', z), c('NB', z), c('IV', b)
    self.tot = e.fresh_real('total'); self.facts = []
    e.assume(self.n >= 0)
  def inst(self, k):
    for snap, f in self.facts:
      g = f(snap, k)
      if g is not None: eng().axiom(g)
  def elem(self, k):
    return Coef(z3.simplify(z3.Select(self.V, k)), z3.simplify(z3.Select(self.DG, k)), z3.simplify(z3.Select(self.NB, k)), z3.simplify(z3.Select(self.IV, k)))
  def read(self, k):
    self.inst(k); return self.elem(k)
  def store(self, k, x):
    c = Coef.lift(x)
    self.inst(k)
    old = z3.Select(self.V, k)
    self.tot = self.tot - old + c.v
    for nm, val in (('V', c.v), ('DG', c.deg), ('NB', c.nb), ('IV', c.iv)): setattr(self, nm, z3.Store(getattr(self, nm), k, val))
  def append(self, x):
    c = Coef.lift(x); k = self.n
    self.tot = z3.simplify(self.tot + c.v)
    for nm, val in (('V', c.v), ('DG', c.deg), ('NB', c.nb), ('IV', c.iv)): setattr(self, nm, z3.Store(getattr(self, nm), k, val))
    self.n = z3.simplify(self.n + 1)
  def to_seq(self):
    m = self.copy(); e = eng()
    PSL = z3.Function(e.fresh_name('prefix'), z3.IntSort(), z3.RealSort())
    e.axiom(z3.And(PSL(I0) == 0, PSL(m.n) == m.tot))
    def prefix(k):
      k = z3.simplify(k)
      if k.eq(z3.simplify(m.n)): return m.tot
      e.axiom(z3.Implies(k >= 0, PSL(z3.simplify(k + 1)) == PSL(k) + z3.Select(m.V, k)))
      e.axiom(z3.Implies(k == m.n, PSL(k) == m.tot))
      return PSL(k)
    s = CSeq(m.n, m.read, prefix); s.model = m
    return s

class SeqView:
  """Any sequence of coefficients with the interface of a list model."""
  def __init__(self, s): self.s = s; self.n = s.length()
  @property
  def tot(self): return self.s.total()
  def length(self): return self.n
  def elem(self, k): return self.s.at(k)
  def inst(self, k): pass
def view(x):
  if isinstance(x, rt.VList): return x.model or CoefList.of(list.__iter__(x))
  if isinstance(x, CSeq): return getattr(x, 'model', None) or SeqView(x)
  if isinstance(x, tuple): return CoefList.of(x)
  raise EngineLimit('not a sequence of coefficients')

class forall:
  """Invariant candidate for every index of a list: f(model, i, j)."""
  def __init__(self, unit, loop, name, f): self.u, self.loop, self.name, self.f = unit, loop, name, f
  def model(self, x): return view(x)
  def __call__(self, x, i):
    m = self.model(x); j = eng().fresh_int('j')
    m.inst(j)
    return z3.Implies(z3.And(j >= 0, j < m.n), self.f(m, i, j))
  def assume(self, x, i):
    m = x.model; snap = m.copy()
    m.facts.append((snap, lambda s, j, i=i: z3.Implies(z3.And(j >= 0, j < s.n), self.f(s, i, j))))

class CoefUnit(Unit):
  """Units over coefficient sequences."""
  xnd = z3.IntVal(1)
  def start_path(self, e):
    self.pow_terms = {}
    self.rank = None
  def identity(self, a, b):
    if all(isinstance(x, (Coef, CSeq, ZPow)) for x in (a, b)): raise EngineLimit('identity of operands compared')
    return a is b
  def xnd_val(self): return conc_int(self.xnd) if conc_int(self.xnd) is not None else SInt(self.xnd)
  def lemmas(self, pc, goal): return pow_lemmas(self.pow_terms.values())
  def fits(self, c, n): return c.deg == n
  def is_dom(self, v): return isinstance(v, (Coef, ZPow)) or self.is_seq(v)
  def is_seq(self, v): return isinstance(v, CSeq) or isinstance(v, tuple) and len(v) > 0 and all(isinstance(x, Coef) for x in v)
  def havoc(self, name, v, loop):
    e = eng()
    if self.is_seq(v):
      m = CoefList(None, None, None, None, None, None); m.havoc(); return m.to_seq()
    if isinstance(v, ZPow): return ZPow(e.fresh_int('zpow'), e.fresh_bool('ziv'))
    nb, dg = e.fresh_int('nb'), e.fresh_int('deg'); e.assume(z3.And(nb >= 0, dg >= 0))
    return Coef(e.fresh_real(name), dg, nb, e.fresh_bool('iv'))
  def widen(self, loop, name, k, nk, v0, v): return 'dom' if nk == 'dom' and k in ('int', 'real') else None
  def list_model(self, v, name, loop): return CoefList.of(list.__iter__(v))
  def repeat(self, items, n):
    items = list(items)
    if len(items) != 1: raise EngineLimit('repetition of a longer list')
    n = z3.simplify(z3.If(iv(n) > 0, iv(n), I0))
    v = rt.VList(); v.model = CoefList.const(n, Coef.lift(items[0]))
    return v
  def to_tuple(self, x): return cseq(x)
  def to_list(self, x):
    v = rt.VList()
    if isinstance(x, rt.VList): v.model = x.model.copy() if x.model is not None else CoefList.of(list.__iter__(x)); return v
    s = cseq(x)
    v.model = s.model.copy() if getattr(s, 'model', None) is not None else CoefList.of_seq(s)
    return v
  def slice(self, s, i): return cseq(s).slice(i)
  def concat(self, a, b): return ccat(cseq(a), cseq(b))
  # invariant candidates
  totals = ()      # list of (label, fn(loop, i) -> real term) for sums of lists / coefficients
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    k = rt.kind(v)
    if k == 'list' or self.is_seq(v):
      M = view
      n0 = M(v).length()
      yield 'length const', lambda x, i: M(x).length() == n0
      yield 'length grows', lambda x, i: M(x).length() == n0 + i
      for label, f in self.totals_for(loop): yield 'sum ' + label, (lambda f: lambda x, i: M(x).tot == f(i))(f)
      for label, f in self.forall_for(loop): yield 'every element: ' + label, forall(self, loop, name, f)
    if k == 'dom' and isinstance(v, Coef) or k in ('int', 'real'):
      for label, f in self.totals_for(loop): yield 'sum ' + label, (lambda f: lambda x, i: Coef.lift(x).v == f(i))(f)
      for label, f in self.elem_for(loop): yield label, (lambda f: lambda x, i: f(Coef.lift(x), i))(f)
  def totals_for(self, loop):
    b = loop.it
    while isinstance(b, (rt.SymEnum,)): b = b.base
    if isinstance(b, CSeq):
      yield 'of the sequence so far', lambda i: b.prefix(i)
      yield 'of the sequence so far, negated', lambda i: -b.prefix(i)
  def forall_for(self, loop):
    yield 'belongs to its power', lambda m, i, j: m.elem(j).deg == j
    yield 'batch axes', lambda m, i, j: m.elem(j).nb >= 0
    b = loop.it
    while isinstance(b, (rt.SymEnum,)): b = b.base
    if isinstance(b, CSeq):
      same = lambda c, d, v: z3.And(c.v == v, c.deg == d.deg, c.nb == d.nb, c.iv == d.iv)
      yield 'copy of the sequence', lambda m, i, j: same(m.elem(j), b.at(j), b.at(j).v)
      yield 'negated copy of the sequence', lambda m, i, j: same(m.elem(j), b.at(j), -b.at(j).v)
  def elem_for(self, loop): return ()

# ------------------------------------------------------------ interval arithmetic at coefficient level
class StubIA:
  """Contract of IntervalArithmetic on coefficients (C02, C03, C04)."""
  def __init__(self, np_like): self.np_like = np_like
  def as_interval(self, a):
    if isinstance(a, Disp): return a
    if isinstance(a, Coef): return Coef(a.v, a.deg, a.nb, z3.BoolVal(True))
    if isinstance(a, tuple) and len(a) == 2 and all(isinstance(x, Disp) for x in a): return eng().unit.disp_of(a)
    raise EngineLimit('as_interval')
  def as_interval_or_ndarray(self, a):
    if isinstance(a, (Disp, ZPow)): return a
    return Coef.lift(a)
  def add(self, a, b): return add(a, b)
  def subtract(self, a, b): return add(a, self.negative(b), 'subtract')
  def negative(self, a):
    a = Coef.lift(a); return Coef(-a.v, a.deg, a.nb, a.iv)
  def multiply(self, a, b):
    if isinstance(b, ZPow) or isinstance(a, ZPow): return eng().unit.elementwise_term(a, b)
    a, b = Coef.lift(a), Coef.lift(b)
    eng().prove('multiply: one factor is a scalar, or both have no x axes', z3.Or(z3.And(a.deg == 0, a.nb == 0), z3.And(b.deg == 0, b.nb == 0), z3.And(a.deg == 0, b.deg == 0)))
    return term_product(a, b)
  def power(self, a, n):
    if isinstance(a, Disp):
      return ZPow(iv(n), z3.simplify(z3.And(a.iv, iv(n) != 0)))
    a = Coef.lift(a)
    eng().prove('power: no x axes', a.deg == 0)
    return term_power(a, iv(n))
  def outer_power(self, a, n, batch_dims=0):
    n = iv(n); e = eng()
    if e.branch(n < 0): raise ValueError(n)
    if isinstance(a, Disp):
      e.prove('outer_power of the displacement: no batch axes', iv(batch_dims) == 0)
      return ZPow(n, z3.simplify(z3.And(a.iv, n != 0)))
    a = Coef.lift(a)
    e.prove('outer_power: the batch axes are the axes before the x axes', z3.Or(n == 0, a.deg * e.unit.xnd + a.nb == 0, iv(batch_dims) == a.nb))
    return term_power(a, n)
  def tensordot(self, a, b, axes):
    e = eng()
    a = Coef.lift(a)
    if not isinstance(b, ZPow): raise EngineLimit('tensordot with something else than a power of the displacement')
    e.prove('tensordot: contracts exactly the axes of the power of the displacement', iv(axes) == b.k * e.unit.xnd)
    e.prove('tensordot: the coefficient has these x axes', z3.And(b.k >= 0, a.deg >= b.k))
    return Coef(a.v, z3.simplify(a.deg - b.k), a.nb, z3.simplify(z3.Or(a.iv, b.iv)))
  def arbitrary_bilinear(self, a, b, bilinear, assume_product=False):
    e = eng(); a, b = Coef.lift(a), Coef.lift(b)
    r = bilinear(Coef(a.v, a.deg, a.nb), Coef(b.v, b.deg, b.nb))
    if not isinstance(r, Coef): raise EngineLimit('bilinear callable')
    if assume_product is not False and not (assume_product is True or e.branch(bv(assume_product))): assume_product = False
    if assume_product: e.prove('assume_product: the bilinear map is a product', z3.BoolVal(r.product is not None))
    return Coef(r.v, r.deg, r.nb, z3.simplify(z3.Or(a.iv, b.iv)), r.product)
  def ndim(self, a):
    return a.ndim if isinstance(a, (Coef, ZPow, Disp)) else Coef.lift(a).ndim
  def shape(self, a):
    if isinstance(a, Disp): return XShape()
    return CShape(Coef.lift(a))

class StubNP:
  inf = float('inf')
  @staticmethod
  def asarray(x, dtype=None): return Coef.lift(x) if not isinstance(x, (Disp, ZPow)) else x
  array = asarray
  @staticmethod
  def ones_like(c):
    c = Coef.lift(c); return Coef(R1, c.deg, c.nb)
  @staticmethod
  def zeros_like(c):
    c = Coef.lift(c); return Coef(R0, c.deg, c.nb)
  @staticmethod
  def ndim(x): return x.ndim if not isinstance(x, (int, float)) else 0
  @staticmethod
  def shape(x):
    if isinstance(x, Disp): return XShape()
    return CShape(Coef.lift(x))
  @staticmethod
  def multiply(a, b): return StubIA(StubNP).multiply(a, b)
  @staticmethod
  def add(a, b): return add(a, b)
  @staticmethod
  def negative(a): return StubIA(StubNP).negative(a)
