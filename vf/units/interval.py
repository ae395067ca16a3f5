"""C02/C03: IntervalArithmetic elementwise operations at a generic element."""
import z3
from ..core import *
from ..load import World
from ..m1 import *

KINDS = [('arr', 'arr'), ('arr', 'iv'), ('iv', 'arr'), ('iv', 'iv')]

class IntervalOps(M1Unit):
  name = 'interval'
  functions = ['interval_arithmetic.IntervalArithmetic.' + m for m in
               ('add', 'subtract', 'negative', 'multiply', 'arbitrary_bilinear[assume_product]', 'power', 'as_interval',
                'as_interval_or_ndarray')]
  assumptions = ['np_like elementwise operations act on exact reals at each index of the broadcast result (floats as reals)',
                 'lemmas on integer powers (parity, monotonicity, sign): proved in lean/PowLemmas.lean; the axioms in vf/m1.py and vf/coef.py restate them']

  def run(self, e):
    w = self.world
    IA = w.get('autobound.interval_arithmetic').IntervalArithmetic
    ia = IA(NP1)
    ops = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y}
    cases = [(o, ka, kb) for o in ops for ka, kb in KINDS] + [('negative', k, None) for k in ('arr', 'iv')] + [
        ('power', k, None) for k in ('arr', 'iv')] + [('power_float', 'iv', None)]
    op, ka, kb = cases[e.choose(len(cases))]
    a = self.operand(e, 'a', ka)
    nm = f'{op}({ka}{"," + kb if kb else ""})'
    if kb:
      # the same object may be passed twice and still stand for two independent members
      alias = ka == kb and e.choose(2)
      b = a if alias else self.operand(e, 'b', kb)
      if alias: nm += ' same object'
      x, y = self.member(e, a, 'x'), self.member(e, b, 'y')
      st, r = call_contract(e, nm, lambda: getattr(ia, op)(a, b))
      f = ops[op]; exact = f(x, y)
      pts = [f(p, q) for p in self.ends(a) for q in self.ends(b)]
      wit = [z3.BoolVal(True)] * len(pts)
    elif op == 'negative':
      x = self.member(e, a, 'x')
      st, r = call_contract(e, nm, lambda: ia.negative(a))
      exact = -x; pts = [-p for p in self.ends(a)]; wit = [z3.BoolVal(True)] * len(pts)
    else:
      n = e.fresh_int('n'); e.assume(n >= 0)
      x = self.member(e, a, 'x')
      p = SInt(n) if op == 'power' else SReal(z3.ToReal(n))
      if op == 'power_float': self.float_exp = n
      st, r = call_contract(e, nm, lambda: ia.power(a, p))
      exact = POW(x, n); self.pow_terms[exact.get_id()] = (x, n, exact)
      pts, wit = [], []
      cand = [(q, z3.BoolVal(True)) for q in self.ends(a)]
      if ka == 'iv': cand.append((z3.RealVal(0), z3.And(a[0].r() <= 0, 0 <= a[1].r())))
      for q, c in cand:
        t = POW(q, n); self.pow_terms[t.get_id()] = (q, n, t)
        pts.append(t); wit.append(c)
    self.post(e, nm, ka, kb, r, exact, pts, wit)
    e.cover(nm)

  def real_power(self, x, pr):
    # exponent given as a float with integer value n
    n = self.float_exp
    t = POW(x, n); self.pow_terms[t.get_id()] = (x, n, t)
    return t

  def ends(self, v):
    return [v[0].r(), v[1].r()] if isinstance(v, tuple) else [v.r()]

  def post(self, e, nm, ka, kb, r, exact, pts, wit):
    anyiv = 'iv' in (ka, kb)
    if isinstance(r, tuple):
      if not anyiv and self.which == 'C03':
        e.fail(f'{nm}: plain arrays give a plain array')
      if len(r) != 2: e.fail(f'{nm}: interval is a pair')
      lo, hi = L(r[0]).r(), L(r[1]).r()
    else:
      lo = hi = L(r).r()
    if self.which == 'C02':
      e.prove(f'{nm}: lower end <= exact result', lo <= exact)
      e.prove(f'{nm}: exact result <= upper end', exact <= hi)
    else:
      e.prove(f'{nm}: lower end attained', z3.Or(*[z3.And(c, lo == p) for p, c in zip(pts, wit)]))
      e.prove(f'{nm}: upper end attained', z3.Or(*[z3.And(c, hi == p) for p, c in zip(pts, wit)]))

class C02(IntervalOps):
  name = 'interval elementwise soundness'; which = 'C02'
class C03(IntervalOps):
  name = 'interval elementwise exactness'; which = 'C03'

UNITS = {'C02': [C02], 'C03': [C03]}

# ---------------------------------------------------------------- C04
class SumArr(A):
  """An output element of a bilinear map, seen through one generic term of its sum of products.

  Only operations that act termwise are defined: `add` of two sums is the sum of
  the added terms.  min/max of sums is not a termwise operation."""
  def _lin(self, o, f):
    if not isinstance(o, SumArr): raise VNotTermwise('a sum of products combined with something else')
    return SumArr(f(self.r(), o.r()))
  def __add__(self, o): return self._lin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._lin(o, lambda a, b: b + a)
  def __sub__(self, o): return self._lin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._lin(o, lambda a, b: b - a)
  def __neg__(self): return SumArr(-self.r())
  def _no(self, *a): raise VNotTermwise('non-linear operation on a sum of products')
  __mul__ = __rmul__ = __truediv__ = __pow__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = _no

class VNotTermwise(Exception): pass

class NPSum(NP1):
  @staticmethod
  def minimum(a, b):
    if isinstance(a, SumArr) or isinstance(b, SumArr): raise VNotTermwise('minimum of sums of products')
    return NP1.minimum(a, b)
  @staticmethod
  def maximum(a, b):
    if isinstance(a, SumArr) or isinstance(b, SumArr): raise VNotTermwise('maximum of sums of products')
    return NP1.maximum(a, b)
  @staticmethod
  def tensordot(a, b, axes=2):
    u = eng().unit
    if a is not None and axes is not u.axes: eng().fail('tensordot: the caller\'s axes are passed on')
    p = L(a).r() * L(b).r()
    if isinstance(axes, int) and axes == 0: return A(p)
    return SumArr(p)

class Axes:
  """Opaque non-zero `axes` argument (an integer >= 1, or a pair of sequences of axes)."""
  def __init__(self): self.n = eng().fresh_int('axes'); eng().assume(self.n >= 1)
  def __eq__(self, o):
    if isinstance(o, int): return False if o <= 0 else SBool(self.n == o)
    raise EngineLimit('inspection of axes')
  def __ne__(self, o): return not (self == o)
  __hash__ = None
  def __iter__(self): raise EngineLimit('inspection of axes')

class C04Bilinear(M1Unit):
  name = 'interval bilinear maps'
  functions = ['interval_arithmetic.IntervalArithmetic.arbitrary_bilinear', 'interval_arithmetic.IntervalArithmetic.tensordot']
  assumptions = ['a bilinear callable passed to arbitrary_bilinear computes, at each output index, a sum with non-negative weights of products '
                 'of one element of each operand (weights +1 for contractions and convolutions); termwise order implies order of the sums (proved: lean/PolyLemmas.lean sum_order)']
  def run(self, e):
    IA = self.world.get('autobound.interval_arithmetic').IntervalArithmetic
    ia = IA(NPSum)
    mode = ['sum', 'product', 'tensordot sum', 'tensordot outer'][e.choose(4)]
    ka, kb = KINDS[e.choose(4)]
    alias = ka == kb and e.choose(2)
    a = self.operand(e, 'a', ka); b = a if alias else self.operand(e, 'b', kb)
    x, y = self.member(e, a, 'x'), self.member(e, b, 'y')
    w = e.fresh_real('weight'); e.assume(w >= 0)
    nm = f'{mode}({ka},{kb})' + (' same object' if alias else '')
    if mode == 'sum':
      fn = lambda: ia.arbitrary_bilinear(a, b, lambda p, q: SumArr(w * L(p).r() * L(q).r()))
      exact = w * x * y
    elif mode == 'product':
      fn = lambda: ia.arbitrary_bilinear(a, b, lambda p, q: A(L(p).r() * L(q).r()), True)
      exact = x * y
    else:
      self.axes = Axes() if mode == 'tensordot sum' else 0
      fn = lambda: ia.tensordot(a, b, self.axes)
      exact = x * y
    try:
      r = fn()
    except VNotTermwise as ex:
      e.fail(f'{nm}: end points of sums are formed termwise', str(ex))
    except (PathEnd, EngineLimit): raise
    except Exception as ex:
      e.fail(f'{nm}: no unexpected exception', repr(ex))
    if isinstance(r, tuple):
      if ka == kb == 'arr': e.fail(f'{nm}: arrays give an array')
      lo, hi = r[0].r(), r[1].r()
    else: lo = hi = r.r()
    e.prove(f'{nm}: lower end contains', lo <= exact)
    e.prove(f'{nm}: upper end contains', exact <= hi)
    if mode in ('product', 'tensordot outer'):
      pts = [p * q for p in ends_(a) for q in ends_(b)]
      e.prove(f'{nm}: lower end is an end-point product', z3.Or(*[lo == p for p in pts]))
      e.prove(f'{nm}: upper end is an end-point product', z3.Or(*[hi == p for p in pts]))
    e.cover(nm)

def ends_(v): return [v[0].r(), v[1].r()] if isinstance(v, tuple) else [v.r()]

# -- outer products: all ranks the equation alphabet admits, generic extents and indices
class T:
  """A tensor of concrete rank with opaque extents: element access by symbolic index tuples."""
  def __init__(self, ndim, at, prod=True): self.ndim, self.at = ndim, at
  shape = property(lambda s: Shape())
class NPIdx:
  @staticmethod
  def asarray(x): return x
  @staticmethod
  def ndim(x): return x.ndim
  @staticmethod
  def tensordot(a, b, axes):
    if axes != 0: raise EngineLimit('contraction in an outer product')
    return T(a.ndim + b.ndim, lambda idx: a.at(idx[:a.ndim]) + b.at(idx[a.ndim:]))
  @staticmethod
  def multiply(a, b): raise EngineLimit('broadcast multiply')
  @staticmethod
  def einsum(eq, a, b):
    ins, out = eq.split('->'); ia, ib = ins.split(',')
    for s, t in ((ia, a), (ib, b)):
      if len(s) != t.ndim: raise ValueError(f'einsum: {s} for rank {t.ndim}')
      if not all(c.isalpha() and c.isascii() for c in s): raise ValueError('einsum: invalid subscript')
      if len(set(s)) != len(s): raise EngineLimit('einsum diagonal')
    if not set(out) <= set(ia) | set(ib) or len(set(out)) != len(out): raise ValueError('einsum output')
    if set(ia) | set(ib) != set(out): raise EngineLimit('einsum sums over an index')
    def at(idx):
      m = dict(zip(out, idx))
      return a.at([m[c] for c in ia]) + b.at([m[c] for c in ib])
    return T(len(out), at)

class C04Outer(M1Unit):
  name = 'outer product index map'
  functions = ['interval_arithmetic._ndarray_outer_product', 'interval_arithmetic._stringify']
  assumptions = ['np_like.einsum/tensordot meet the documented index semantics']
  bounded = ('_ndarray_outer_product: ranks with ndim(a)+ndim(b)-batch_dims <= 26, which is every rank the equation alphabet a..z allows; extents and indices are unrestricted',)
  def run(self, e):
    f = self.world.get('autobound.interval_arithmetic')._ndarray_outer_product
    # elements are (name, index tuple) monomials; indices are opaque symbols
    for na in range(0, 27):
      good = []
      for nb in range(0, 27):
        for bd in range(0, min(na, nb) + 1):
          if na + nb - bd > 26: continue
          a = T(na, lambda idx: (('a', tuple(idx)),)); b = T(nb, lambda idx: (('b', tuple(idx)),))
          st, r = call_contract(e, f'outer_product', lambda: f(a, b, bd, NPIdx))
          idx = [f'i{k}' for k in range(na + nb - bd)]
          ok = getattr(r, 'ndim', None) == len(idx)
          if ok:
            want = sorted([('a', tuple(idx[:na])), ('b', tuple(idx[:bd] + idx[na:]))])
            ok = sorted(r.at(idx)) == want
          good.append((bool(ok), nb, bd))
      badc = [g for g in good if not g[0]]
      e.prove(f'c[I+J+K] == a[I+J]*b[I+K] for ndim(a)={na}, every ndim(b), every batch_dims', z3.BoolVal(not badc), str(badc[:3]))
    e.cover('outer product')

class OA(A):
  """Element of a running outer product of `count` factors at the generic index (i_1..i_count)."""
  def __init__(self, e, count, role=None): A.__init__(self, e); self.count, self.role = count, role

XS = z3.Function('x_at', z3.IntSort(), z3.RealSort())     # the member's element at i_j
LO = z3.Function('lo_at', z3.IntSort(), z3.RealSort()); HI = z3.Function('hi_at', z3.IntSort(), z3.RealSort())
PROD = z3.Function('prod_upto', z3.IntSort(), z3.RealSort())

class C04Power(M1Unit):
  name = 'outer power'
  functions = ['interval_arithmetic.IntervalArithmetic.outer_power', 'interval_arithmetic.IntervalArithmetic.outer_product',
               'interval_arithmetic.IntervalArithmetic._generalized_diag_interval', 'interval_arithmetic._generalized_diag_ndarray']
  assumptions = ['np_like.diag places a vector on the diagonal', 'power contract (C02)']
  def make_world(self):
    w = World()
    m = w.get('autobound.interval_arithmetic')
    m._ndarray_outer_product = self.outer_stub
    return w
  def start_path(self, e):
    M1Unit.start_path(self, e)
    self.the_ndim = None
  def elem(self, role, j):
    e = eng()
    e.axiom(z3.And(LO(j) <= XS(j), XS(j) <= HI(j)))
    if self.kind == 'arr': e.axiom(z3.And(LO(j) == XS(j)))
    return {'lo': LO, 'hi': HI, 'arr': XS}[role](j)
  def outer_stub(self, a, b, batch_dims, np_like):
    e = eng()
    if not isinstance(a, OA) or not isinstance(b, OA) or b.role is None:
      raise EngineLimit('outer product of unexpected operands')
    e.prove('outer_power: factors are multiplied along the given batch axes', iv(batch_dims) == iv(self.bd))
    j = z3.simplify(a.count + 1)
    t = self.elem(b.role, j)
    e.axiom(PROD(j) == PROD(a.count) * XS(j))
    return OA(a.r() * t, j)
  def ndim_of(self, a): return self.nd_
  def is_dom(self, v):
    return isinstance(v, A) or isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, A) for x in v)
  def havoc(self, name, v, loop):
    e = eng()
    if isinstance(v, tuple):
      c = e.fresh_int('count')
      return (OA(e.fresh_real('lo'), c), OA(e.fresh_real('hi'), c))
    return OA(e.fresh_real('v'), e.fresh_int('count')) if isinstance(v, OA) else A(e.fresh_real('v'))
  def templates(self, loop, name, v):
    yield from M1Unit.templates(self, loop, name, v)
    if self.is_dom(v):
      def count(x, i):
        xs = x if isinstance(x, tuple) else (x,)
        return z3.And(*[p.count == i + 1 for p in xs])
      def inside(x, i):
        lo, hi = x if isinstance(x, tuple) else (x, x)
        return z3.And(lo.r() <= PROD(i + 1), PROD(i + 1) <= hi.r())
      yield 'count', count
      yield 'contains product', inside
  class NP(NP1):
    @staticmethod
    def asarray(x, dtype=None):
      if isinstance(x, OA): return x
      return NP1.asarray(x)
    @staticmethod
    def _mm(a, b, ge):
      x, y = L(a).r(), L(b).r()
      r = z3.If(x >= y if ge else x <= y, x, y)
      if isinstance(a, OA) and isinstance(b, OA):
        if eng().valid(a.count == b.count, quick=True)[0] == 'proved': return OA(r, a.count)
      return A(r)
    @staticmethod
    def minimum(a, b): return C04Power.NP._mm(a, b, False)
    @staticmethod
    def maximum(a, b): return C04Power.NP._mm(a, b, True)
    @staticmethod
    def diag(a):
      u = eng().unit
      # element (i_1, i_2): a's element if i_1 == i_2, else 0
      return A(z3.If(u.isdiag, L(a).r(), z3.RealVal(0)))
    @staticmethod
    def power(a, p): return L(a) ** p
  def run(self, e):
    IA = self.world.get('autobound.interval_arithmetic').IntervalArithmetic
    ia = IA(C04Power.NP)
    self.kind = ['arr', 'iv'][e.choose(2)]
    one = z3.IntVal(1)
    self.nd_ = SInt(e.fresh_int('ndim')); e.assume(self.nd_.e >= 0)
    self.bd = SInt(e.fresh_int('batch_dims')); e.assume(z3.And(self.bd.e >= 0, self.bd.e <= self.nd_.e))
    n = e.fresh_int('exponent')
    # one index i_1 = ... = i_n when on the diagonal
    self.isdiag = e.fresh_bool('isdiag')
    a = (OA(self.elem('lo', one), one, 'lo'), OA(self.elem('hi', one), one, 'hi')) if self.kind == 'iv' else OA(self.elem('arr', one), one, 'arr')
    e.axiom(PROD(one) == XS(one))
    e.axiom(PROD(z3.IntVal(0)) == 1)
    # scalar operand or diagonal position: all factors are the same element
    t = POW(XS(one), n); self.pow_terms[t.get_id()] = (XS(one), n, t)
    same = z3.Or(self.nd_.e == 0, n == 1, z3.And(n == 2, self.isdiag))
    e.axiom(z3.Implies(z3.And(same, n >= 0), t == PROD(n)))
    e.axiom(z3.Implies(n == 1, self.isdiag))
    st, r = call_contract(e, 'outer_power', lambda: ia.outer_power(a, SInt(n), self.bd), raises=(ValueError,))
    if st == 'raise':
      e.prove('outer_power: raises ValueError only for a negative exponent', n < 0)
      e.cover('raises'); return
    e.prove('outer_power: a negative exponent is refused', n >= 0)
    lo, hi = r if isinstance(r, tuple) else (r, r)
    lo, hi = L(lo).r(), L(hi).r()
    if self.kind == 'arr': 
      if isinstance(r, tuple): e.fail('outer_power of an array is an array')
      e.prove('outer_power(arr): exact product', lo == PROD(n))
    else:
      e.prove('outer_power(iv): lower end contains the product', lo <= PROD(n))
      e.prove('outer_power(iv): upper end contains the product', PROD(n) <= hi)
    e.cover(f'outer_power {self.kind}')
