"""C05, C06: polynomials.py."""
import z3
from ..core import *
from .. import rt
from ..load import World
from ..m1 import POW
from ..unit import call_contract
from ..coef import *
from ..coef import iv_

S = z3.simplify
Z, R = z3.IntSort(), z3.RealSort()

def base_of(it):
  while True:
    if isinstance(it, (rt.SymEnum, rt.SymMapped, rt.SymGen)): it = it.base
    elif isinstance(it, rt.SymZip):
      bs = [base_of(x) for x in it.parts]
      it = next((b for b in bs if isinstance(b, (Part, KS))), bs[0])
    else: return it

# ---------------------------------------------------------------- C05
class EvalPoly(CoefUnit):
  name = 'evaluation of a polynomial'
  functions = ['polynomials.eval_polynomial']
  assumptions = ['callbacks: inner_product, outer_power and add meet their documented contracts (checked at the callers)']
  def widen(self, loop, name, k, nk, v0, v):
    self.wide[name] = v
    return CoefUnit.widen(self, loop, name, k, nk, v0, v)
  wide = {}
  def havoc(self, name, v, loop):
    if name in self.wide and not self.is_dom(v): v = self.wide[name]
    return CoefUnit.havoc(self, name, v, loop)
  def templates(self, loop, name, v):
    for label, f in CoefUnit.templates(self, loop, name, v): yield label, f
    zp = lambda x: x.k if isinstance(x, ZPow) else (I0 if isinstance(x, int) and x == 1 else None)
    if isinstance(v, ZPow) or isinstance(v, int) and v == 1:
      def f(x, i):
        k = zp(x)
        if k is None: raise EngineLimit('not a power')
        return k == z3.If(i == 0, I0, i - 1)
      yield 'power of the previous term', f
      def g(x, i):
        k = zp(x)
        if k is None: raise EngineLimit('not a power')
        return k == i
      yield 'power of this term', g
  def totals_for(self, loop):
    yield 'partial sum', lambda i: self.seq.prefix(i)
  def elem_for(self, loop):
    yield 'is a scalar', lambda c, i: c.deg == 0
  def run(self, e):
    f = self.world.get('autobound.polynomials').eval_polynomial
    n = e.fresh_int('n'); e.assume(n >= 1)
    self.seq = input_seq(e, 'V', n, nb=lambda k: I0)
    tok = Disp(F)
    def inner(c, z):
      if isinstance(z, (int, SInt)):
        e.prove('inner_product pairs coefficient 0 with the multiplicative identity', iv_(z) == 1); z = ZPow(I0, F)
      if not isinstance(c, Coef) or not isinstance(z, ZPow):
        e.fail('inner_product is applied to a coefficient and a power of z')
      e.prove('inner_product pairs coefficient i with z**i', c.deg == z.k)
      return Coef(c.v, I0, c.nb, z3.Or(c.iv, z.iv))
    def outer(z, k):
      if z is not tok: e.fail('outer_power is applied to z')
      e.prove('outer_power: non-negative exponent', iv_(k) >= 0)
      return ZPow(iv_(k), F)
    kw = {}
    if e.choose(2): kw = dict(add=lambda a, b: add(a, b), additive_identity=Coef(R0), multiplicative_identity=ZPow(I0, F))
    st, r = call_contract(e, 'eval_polynomial', lambda: f(self.seq, tok, inner, outer, **kw))
    r = Coef.lift(r)
    e.prove('eval_polynomial: the value is the sum of <c_i, z**i> over all i', r.v == self.seq.prefix(n))
    e.prove('eval_polynomial: the value is a scalar', r.deg == 0)
    e.cover('eval_polynomial')

class EvalEnclosure(CoefUnit):
  name = 'evaluation of enclosures'
  functions = ['polynomials.eval_taylor_enclosure', 'polynomials.eval_elementwise_taylor_enclosure']
  assumptions = ['IntervalArithmetic operations meet their contracts (C02, C04)', 'eval_polynomial meets its contract (unit "evaluation of a polynomial")']
  ew = False
  def make_world(self):
    w = World()
    m = w.get('autobound.polynomials')
    m.interval_arithmetic.IntervalArithmetic = StubIA
    self.real = dict(ew=m.eval_elementwise_taylor_enclosure, te=m.eval_taylor_enclosure)
    m.eval_polynomial = self.eval_stub
    return w
  def zpow(self, k): return ZPow(k, S(z3.And(self.z.iv, k != 0)))
  def term(self, j):
    return self.seq.V(j) * (powr(self.X, j) if self.ew else R1)
  def elementwise_term(self, a, b):
    e = eng()
    if isinstance(a, ZPow): a, b = b, a
    if not self.ew: e.fail('coefficients and powers of a vector are contracted, not multiplied')
    a = Coef.lift(a)
    if isinstance(b, Coef): return term_product(a, b)
    return Coef(a.v * powr(self.X, b.k), a.deg, a.nb, S(z3.Or(a.iv, b.iv)))
  def eval_stub(self, coefficients, z, inner_product, outer_power, add=None, additive_identity=0, multiplicative_identity=1):
    e = eng()
    add_ = add or (lambda a, b: a + b)
    s = cseq(coefficients)
    if s is not self.seq: raise EngineLimit('other coefficients')
    if not isinstance(z, Disp): e.fail('eval_polynomial: z is the displacement')
    e.prove('eval_polynomial: z is the displacement', z.iv == self.z.iv if z.end is None else F)
    ai = Coef.lift(additive_identity)
    e.prove('eval_polynomial: additive identity is a scalar zero array', z3.And(ai.scalar_zero(), z3.Not(ai.iv)))
    n = s.length()
    if e.choose(2):
      # contract of the callbacks at a generic term
      j = e.fresh_int('j'); e.assume(z3.And(j >= 0, j < n))
      c = s.at(j)
      if e.branch(j > 0):
        p = outer_power(z, SInt(j))
        if not isinstance(p, ZPow): e.fail('outer_power returns a power of the displacement')
        e.prove('outer_power(z, i) is the i-th power', z3.And(p.k == j, z3.Implies(z3.Not(self.z.iv), z3.Not(p.iv)), z3.Implies(z3.And(self.z.iv, j != 0), p.iv)))
        r = inner_product(c, p)
      else:
        mi = Coef.lift(multiplicative_identity)
        e.prove('multiplicative identity is the scalar one', z3.And(mi.v == 1, mi.deg == 0, mi.nb == 0, z3.Not(mi.iv)))
        one = ZPow(I0, F)
        r = inner_product(c, one if not self.ew else Coef(R1))
      r = Coef.lift(r)
      e.prove('inner_product(c_i, z**i): the term of the polynomial', z3.And(r.v == self.term(j), r.deg == 0))
      e.prove('inner_product of arrays is an array', z3.Implies(z3.And(z3.Not(c.iv), z3.Not(self.z.iv)), z3.Not(r.iv)))
      x, y = Coef(e.fresh_real('x'), I0, I0, e.fresh_bool('ivx')), Coef(e.fresh_real('y'), I0, I0, e.fresh_bool('ivy'))
      q = Coef.lift(add_(x, y))
      e.prove('add: the sum', q.v == x.v + y.v)
      e.prove('add: an array for arrays', z3.Implies(q.iv, z3.Or(x.iv, y.iv)))
      e.cover(f'callbacks {self.ew} {int(conc_int(self.xnd) or 0)}'); e._completed()
      raise PathEnd()
    some = e.fresh_bool('some_iv')
    e.axiom(z3.Implies(z3.And(self.exact, z3.Not(self.z.iv)), z3.Not(some)))
    return Coef(self.TOTAL, I0, e.fresh_int('nbr'), some)
  def run(self, e):
    self.ew = bool(e.choose(2))
    self.xnd = z3.IntVal(0 if self.ew else e.choose(3))
    n = e.fresh_int('n'); e.assume(n >= 1)
    self.exact = e.fresh_bool('all_arrays')
    self.z = Disp(e.fresh_bool('z_is_interval'))
    self.X = e.fresh_real('X')
    self.TOTAL = e.fresh_real('sum_of_terms')
    self.seq = input_seq(e, 'V', n, deg=(lambda k: I0) if self.ew else None)
    at = self.seq._at
    def at2(k):
      c = at(k)
      e.axiom(z3.Implies(self.exact, z3.Not(c.iv)))
      return c
    self.seq._at = at2
    st, r = call_contract(e, 'eval', lambda: self.real['ew' if self.ew else 'te'](self.seq, self.z, StubNP))
    r = Coef.lift(r)
    nm = 'eval_elementwise_taylor_enclosure' if self.ew else 'eval_taylor_enclosure'
    e.prove(f'{nm}: covers the sum of the terms of every member', r.v == self.TOTAL)
    e.prove(f'{nm}: arrays at a point give an array', z3.Implies(z3.And(self.exact, z3.Not(self.z.iv)), z3.Not(r.iv)))
    e.cover(f'{nm} {self.xnd}')

class Ranked:
  """An array or interval of which only the number of axes, and whether its last axes are those of a power of z, is known."""
  __vf__ = True
  def __init__(self, rank, fit=None, iv=F): self.rank, self.fit, self.iv = S(rank), fit, iv
  def __vf_isinstance__(self, cls):
    if cls is tuple or isinstance(cls, tuple) and tuple in cls: return eng().branch(self.iv)
    return False
  @property
  def ndim(self): return SInt(self.rank)
  @property
  def shape(self): return RankedShape(self)
  def __getitem__(self, i):
    if isinstance(i, int) and i in (0, 1): return Ranked(self.rank, self.fit)
    raise EngineLimit('index of an array')
class RankedShape:
  __vf__ = True
  def __init__(self, a): self.a = a
  def __vf_len__(self): return SInt(self.a.rank)
class RankedIA:
  def __init__(self, np_like): self.np_like = np_like
  def as_interval_or_ndarray(self, a): return a
  def as_interval(self, a): return a
  def ndim(self, a): return a.ndim if isinstance(a, Ranked) else 0
  def shape(self, a): return a.shape
  def outer_power(self, a, n, batch_dims=0):
    if isinstance(a, Ranked) and a is eng().unit.z: return Ranked(iv(n) * a.rank, iv=a.iv)
    raise EngineLimit('power of something else')
  def add(self, a, b): raise EngineLimit('sum of unfit terms')
  multiply = power = add
  def tensordot(self, a, b, axes):
    e, u = eng(), eng().unit
    n = iv(axes)
    if not (isinstance(a, Ranked) and isinstance(b, Ranked)): raise EngineLimit('tensordot')
    if e.branch(z3.Or(n > a.rank, n > b.rank)): raise ValueError('tuple index out of range')
    # of the last n axes of a and the first n of b: all of them match only if the coefficient fits, or if fewer than all are contracted
    if e.branch(z3.And(n == b.rank, z3.Not(a.fit))): raise ValueError('shape-mismatch for sum')
    return Ranked(a.rank + b.rank - 2 * n)
class EvalUnfit(Unit):
  name = 'evaluation of an enclosure that does not fit the variable'
  functions = ['polynomials.eval_taylor_enclosure']
  assumptions = ['tensordot refuses operands that have fewer axes than are contracted, or other extents along them (numpy, jax)',
                 'IntervalArithmetic.tensordot contracts the operands\' ends with np_like.tensordot (C04)', 'eval_polynomial meets its contract: a value is the sum of all terms']
  def make_world(self):
    w = World(); m = w.get('autobound.polynomials')
    m.interval_arithmetic.IntervalArithmetic = RankedIA
    self.real = m.eval_taylor_enclosure
    m.eval_polynomial = self.stub
    return w
  def stub(self, coefficients, z, inner_product, outer_power, add=None, additive_identity=0, multiplicative_identity=1):
    if coefficients is not self.seq or z is not self.z: raise EngineLimit('other coefficients')
    return inner_product(self.c, outer_power(z, SInt(self.j)))
  def run(self, e):
    xnd, self.j, r = e.fresh_int('x_rank'), e.fresh_int('j'), e.fresh_int('rank')
    e.assume(z3.And(xnd >= 1, self.j >= 1, r >= 0, self.j * xnd >= xnd))
    fit = e.fresh_bool('extents_fit'); e.assume(z3.Or(r < self.j * xnd, z3.Not(fit)))
    short = e.choose(2); e.assume(r < self.j * xnd if short else r >= self.j * xnd)
    self.c = Ranked(r, fit, e.fresh_bool('c_is_interval')); self.z = Ranked(xnd, iv=e.fresh_bool('z_is_interval'))
    self.seq = object()
    st, x = call_contract(e, 'eval_taylor_enclosure', lambda: self.real(self.seq, self.z, StubNP), raises=(ValueError, IndexError, NotImplementedError))
    nm = 'fewer axes than the power of the variable' if short else 'other extents than the variable'
    e.prove(f'eval_taylor_enclosure: a coefficient with {nm} is refused', z3.BoolVal(st == 'raise'))
    e.cover(f'refused: {nm}')

# ---------------------------------------------------------------- C06
BIL = z3.Function('BIL', R, R, R)

class Bilinear(CoefUnit):
  name = 'product of polynomials'
  functions = ['polynomials.arbitrary_bilinear']
  assumptions = ['the underlying operation is bilinear (instances of the bilinearity axioms)',
                 'callbacks: add and term_product_coefficient meet their documented contracts (checked at the callers)']
  def bil(self, x, y): return x * y if self.default else BIL(x, y)
  def fact(self, f): eng().axiom(f)
  # sums over rows: bil(sum_a(i), B); rows: bil(a_i, sum_b(j))
  def rowsA(self, i):
    A, B = self.A, self.B
    i = S(i)
    a = A.prefix(i)      # emits the prefix axioms around i
    T = self.TB
    e = eng()
    for k in (i, S(i - 1)):
      e.axiom(z3.Implies(z3.And(k >= 0, k < A.n), self.bil(A.PS(S(k + 1)), T) == self.bil(A.PS(k), T) + self.bil(A.V(k), T)))
    e.axiom(self.bil(R0, T) == 0)
    return self.bil(A.PS(i), T)
  def rowsB(self, j):
    A, B = self.A, self.B
    j = S(j); B.prefix(j); T = self.TA; e = eng()
    for k in (j, S(j - 1)):
      e.axiom(z3.Implies(z3.And(k >= 0, k < B.n), self.bil(T, B.PS(S(k + 1))) == self.bil(T, B.PS(k)) + self.bil(T, B.V(k))))
    e.axiom(self.bil(T, R0) == 0)
    return self.bil(T, B.PS(j))
  def rowA(self, o, j):
    A, B = self.A, self.B
    o, j = S(o), S(j); B.prefix(j); x = A.V(o); e = eng()
    for k in (j, S(j - 1)):
      e.axiom(z3.Implies(z3.And(k >= 0, k < B.n), self.bil(x, B.PS(S(k + 1))) == self.bil(x, B.PS(k)) + self.bil(x, B.V(k))))
    e.axiom(self.bil(x, R0) == 0); e.axiom(z3.And(B.PS(I0) == 0, A.PS(I0) == 0))
    return self.bil(x, B.PS(j))
  def rowB(self, o, i):
    A, B = self.A, self.B
    o, i = S(o), S(i); A.prefix(i); y = B.V(o); e = eng()
    for k in (i, S(i - 1)):
      e.axiom(z3.Implies(z3.And(k >= 0, k < A.n), self.bil(A.PS(S(k + 1)), y) == self.bil(A.PS(k), y) + self.bil(A.V(k), y)))
    e.axiom(self.bil(R0, y) == 0); e.axiom(z3.And(B.PS(I0) == 0, A.PS(I0) == 0))
    return self.bil(A.PS(i), y)
  same = False
  def identity(self, a, b):
    if all(x is self.A or x is self.B for x in (a, b)): return a is b
    return CoefUnit.identity(self, a, b)
  def which(self, loop):
    b = base_of(loop.it)
    if b is self.A and self.same: return 'b' if any(base_of(l.it) is self.A for l in loop.outer) else 'a'
    return 'a' if b is self.A else 'b' if b is self.B else '?'
  def totals_for(self, loop):
    w = self.which(loop)
    outs = [(self.which(l), l.k) for l in loop.outer]
    if w == '?': yield 'zero', lambda i: R0
    if not outs:
      if w == 'a': yield 'rows of a', self.rowsA
      if w == 'b' or self.same: yield 'rows of b', self.rowsB
    elif len(outs) == 1:
      ow, o = outs[0]
      if ow == 'a' and w == 'b': yield 'part of a row of a', lambda j: self.rowsA(o) + self.rowA(o, j)
      if ow == 'b' and w == 'a' or self.same: yield 'part of a row of b', lambda j: self.rowsB(o) + self.rowB(o, j)
  def forall_for(self, loop):
    yield 'belongs to its power or is zero', lambda m, i, j: z3.Or(m.elem(j).deg == j, m.elem(j).scalar_zero())
    yield 'array below the lowest interval', lambda m, i, j: z3.Implies(j < self.low, z3.Not(m.elem(j).iv))
    yield 'no batch axes from nowhere', lambda m, i, j: m.elem(j).nb >= 0
    yield 'the zero it started with', lambda m, i, j: z3.And(m.elem(j).scalar_zero(), z3.Not(m.elem(j).iv))
    w = self.which(loop); outs = [(self.which(l), l.k) for l in loop.outer]
    if w == '?': return
    other = self.B.n if w == 'a' else self.A.n
    if not outs: yield 'touched', lambda m, i, j: z3.Implies(z3.And(i >= 1, j <= i + other - 2), m.elem(j).deg == j)
    elif len(outs) == 1:
      o = outs[0][1]; N = self.B.n if w == 'b' else self.A.n
      yield 'touched', lambda m, i, j: z3.Implies(z3.Or(z3.And(o >= 1, j <= o + N - 2), z3.And(j >= o, j < o + i)), m.elem(j).deg == j)
  def run(self, e):
    f = self.world.get('autobound.polynomials').arbitrary_bilinear
    na, nb = e.fresh_int('na'), e.fresh_int('nb'); e.assume(z3.And(na >= 1, nb >= 1))
    self.low = e.fresh_int('low')
    self.default = bool(e.choose(2))
    self.same = bool(e.choose(2))
    self.A = input_seq(e, 'A', na, low=self.low)
    if self.same: self.B = self.A; e.assume(nb == na)
    else: self.B = input_seq(e, 'B', nb, low=self.low)
    self.TA, self.TB = self.A.PS(na), self.B.PS(nb)
    kw = {}
    if not self.default:
      def tpc(c0, c1, i, j):
        i, j = iv_(i), iv_(j)
        e.prove('term_product_coefficient: i and j are the powers of the two coefficients', z3.And(c0.deg == i, c1.deg == j))
        return Coef(BIL(c0.v, c1.v), S(i + j), imax(c0.nb, c1.nb), z3.Or(c0.iv, c1.iv))
      kw = dict(add=lambda a, b: add(a, b), additive_identity=Coef(R0), term_product_coefficient=tpc)
    st, r = call_contract(e, 'arbitrary_bilinear', lambda: f(self.A, self.B, **kw))
    r = cseq(r)
    want = na + nb - 1
    e.prove('arbitrary_bilinear: one coefficient for each degree up to the maximum', r.length() == want)
    e.prove('arbitrary_bilinear: the polynomial equals the bilinear operation applied to the two polynomials', r.total() == self.bil(self.TA, self.TB))
    k = e.fresh_int('k'); e.assume(z3.And(k >= 0, k < want))
    c = r.at(k)
    e.prove('arbitrary_bilinear: coefficient k is built from terms of degree k', c.deg == k)
    e.prove('arbitrary_bilinear: coefficients below the lowest interval are arrays', z3.Implies(k < self.low, z3.Not(c.iv)))
    e.cover(f'arbitrary_bilinear {self.default} {self.same}')

class PartSeq(rt.SymIter):
  """Contract of _iter_partitions(i, m, n): NP(i) partitions, each exactly once."""
  def __init__(self, u, i): self.u, self.i = u, i
  def length(self): eng().axiom(self.u.NP(self.i) >= 0); return self.u.NP(self.i)
  def at(self, t): return Part(self.u, self.i, S(t))
class Part(rt.SymIter):
  def __init__(self, u, i, t): self.u, self.i, self.t = u, i, t
  def length(self): return self.u.n
  def p(self, j):
    u, e = self.u, eng(); j = S(j); p = u.P(self.i, self.t, j)
    W = lambda x: u.W(self.i, self.t, S(x)); Q = lambda x: u.Q(self.i, self.t, S(x))
    e.axiom(z3.And(p >= 0, p <= u.m))
    e.axiom(z3.Implies(z3.And(j >= 0, j < u.n), z3.And(W(j + 1) == W(j) + j * p, W(j) >= 0, j * p >= 0, W(j + 1) <= self.i, Q(j + 1) == Q(j) * powr(u.A.V(j), p))))
    e.axiom(z3.Implies(z3.And(j >= 1, p >= 1), j * p >= j))
    e.axiom(z3.And(W(I0) == 0, Q(I0) == 1, W(u.n) == self.i))
    p0 = u.P(self.i, self.t, I0)       # sum_j (j-1) p_j == i - m < 0 needs p_0 > 0
    t0 = powr(u.A.V(I0), p0)
    e.axiom(z3.And(p0 >= 0, z3.Implies(self.i < u.m, p0 >= 1), Q(z3.IntVal(1)) == t0, z3.Implies(z3.And(p0 >= 1, u.A.V(I0) == 0), t0 == 0)))
    return p
  def at(self, j): return SInt(self.p(j))
  def __getitem__(self, j): return self.at(rt.norm_index(iv(j), self.length()))
  def __vf_sum__(self, start=0): return SInt(self.u.m) + start
  def __vf_isinstance__(self, cls): return cls is tuple or isinstance(cls, tuple) and tuple in cls

class Power(CoefUnit):
  name = 'integer power of a polynomial'
  functions = ['polynomials.integer_power']
  assumptions = ['multinomial theorem: the coefficients sum_p multinomial(p) prod_j a_j^p_j over all partitions are those of the power (proved: lean/PolyLemmas.lean power_coeff)',
                 'for 0 <= i <= (n-1) m at least one partition exists (proved: parts_nonempty); for i < m each uses the first coefficient (proved: no_constant)',
                 'callbacks meet their documented contracts (checked at the callers)']
  def make_world(self):
    w = World(); m = w.get('autobound.polynomials')
    self.real = m.integer_power
    m._iter_partitions = self.parts
    m._multinomial_coefficient = self.mult
    return w
  def parts(self, n, m, k):
    e = eng()
    e.prove('_iter_partitions is called for the degree, the exponent and the number of coefficients',
            z3.And(iv_(m) == self.m, iv_(k) == self.n))
    e.prove('_iter_partitions: precondition', z3.And(iv_(n) >= 0, self.m >= 0, self.n >= 1))
    i = S(iv_(n))
    e.axiom(z3.Implies(z3.And(i >= 0, i <= (self.n - 1) * self.m), self.NP(i) >= 1))
    return PartSeq(self, i)
  def mult(self, ks):
    if not isinstance(ks, Part): raise EngineLimit('multinomial coefficient of something else than a partition')
    return SInt(self.MU(ks.i, ks.t))
  def CS_(self, i, t):
    e = eng(); i, t = S(i), S(t)
    e.axiom(self.CS(i, I0) == 0)
    for k in (t, S(t - 1)):
      e.axiom(z3.Implies(k >= 0, self.CS(i, S(k + 1)) == self.CS(i, k) + z3.ToReal(self.MU(i, k)) * self.Q(i, k, self.n)))
    return self.CS(i, t)
  def CF(self, i):
    i = S(i); return self.CS_(i, self.NP(i))
  def templates(self, loop, name, v):
    yield from CoefUnit.templates(self, loop, name, v)
    b = base_of(loop.it); k = rt.kind(v)
    if isinstance(b, Part):
      def Qx(j):
        if conc_int(j) != 0: b.p(S(j - 1))
        b.p(j); return self.Q(b.i, b.t, S(j))
      def Wx(j):
        if conc_int(j) != 0: b.p(S(j - 1))
        b.p(j); return self.W(b.i, b.t, S(j))
      if k == 'int': yield 'weighted sum', lambda x, j: iv(x) == Wx(j)
      if k in ('int', 'dom'):
        yield 'product so far', lambda x, j: Coef.lift(x).v == Qx(j)
        yield 'degree so far', lambda x, j: Coef.lift(x).deg == Wx(j)
        def zero(x, j): Qx(j); return z3.Implies(z3.And(self.A.V(I0) == 0, b.i < self.m, j >= 1), Qx(j) == 0)
        yield 'zero so far', zero
        yield 'array so far', lambda x, j: z3.Implies(b.i < self.low, z3.Not(Coef.lift(x).iv))
        yield 'scalar batch', lambda x, j: Coef.lift(x).nb >= 0
    if isinstance(b, PartSeq) and k in ('int', 'dom'):
      yield 'sum so far', lambda x, t: Coef.lift(x).v == self.CS_(b.i, t)
      yield 'degree', lambda x, t: z3.If(t == 0, Coef.lift(x).scalar_zero(), Coef.lift(x).deg == b.i)
      yield 'zero', lambda x, t: z3.Implies(z3.And(self.A.V(I0) == 0, b.i < self.m), Coef.lift(x).v == 0)
      yield 'array', lambda x, t: z3.Implies(b.i < self.low, z3.Not(Coef.lift(x).iv))
      yield 'batch', lambda x, t: Coef.lift(x).nb >= 0
  def forall_for(self, loop):
    yield 'is the power coefficient', lambda m, i, j: m.elem(j).v == self.CF(j)
    yield 'has its degree', lambda m, i, j: m.elem(j).deg == j
    yield 'zero below the exponent', lambda m, i, j: z3.Implies(z3.And(self.A.V(I0) == 0, j < self.m), m.elem(j).v == 0)
    yield 'array below the lowest interval', lambda m, i, j: z3.Implies(j < self.low, z3.Not(m.elem(j).iv))
  def run(self, e):
    F3 = lambda nm, *s: z3.Function(nm, *s)
    self.NP = F3('n_partitions', Z, Z); self.P = F3('part', Z, Z, Z, Z); self.W = F3('wsum', Z, Z, Z, Z)
    self.Q = F3('prod', Z, Z, Z, R); self.MU = F3('multinomial', Z, Z, Z); self.CS = F3('csum', Z, Z, R)
    self.n, self.m = e.fresh_int('n'), e.fresh_int('m'); e.assume(self.n >= 1)
    self.low = e.fresh_int('low')
    self.A = input_seq(e, 'A', self.n, low=self.low)
    self.default = bool(e.choose(2))
    kw = {}
    if not self.default:
      def tpc(c0, c1, i, j):
        c0, c1 = Coef.lift(c0), Coef.lift(c1); i, j = iv_(i), iv_(j)
        e.prove('term_product_coefficient: i and j are the powers of the two coefficients', z3.And(c0.deg == i, c1.deg == j))
        return Coef(c0.v * c1.v, S(i + j), imax(c0.nb, c1.nb), z3.Or(c0.iv, c1.iv))
      def tpow(c, i, j):
        c = Coef.lift(c); i, j = iv_(i), iv_(j)
        e.prove('term_power_coefficient: i is the power of the coefficient, the exponent is not negative', z3.And(c.deg == i, j >= 0))
        return Coef(powr(c.v, j), S(i * j), c.nb, z3.And(c.iv, j != 0))
      def sp(k, c):
        c = Coef.lift(c); return Coef(rv(k) * c.v, c.deg, c.nb, c.iv)
      kw = dict(add=lambda a, b: add(a, b), additive_identity=Coef(R0), multiplicative_identity=Coef(R1),
                term_product_coefficient=tpc, term_power_coefficient=tpow, scalar_product=sp)
    st, r = call_contract(e, 'integer_power', lambda: self.real(self.A, SInt(self.m), **kw), raises=(ValueError,))
    if st == 'raise':
      e.prove('integer_power: ValueError only for a negative exponent', self.m < 0); e.cover('raise'); return
    e.prove('integer_power: a negative exponent is refused', self.m >= 0)
    r = cseq(r)
    if e.branch(self.m == 0):
      e.prove('integer_power: exponent 0 gives the constant polynomial one', z3.And(r.length() == 1, r.at(I0).v == 1, r.at(I0).deg == 0))
      e.cover('zero'); return
    e.prove('integer_power: one coefficient for each degree up to the maximum', r.length() == (self.n - 1) * self.m + 1)
    k = e.fresh_int('k'); e.assume(z3.And(k >= 0, k <= (self.n - 1) * self.m))
    c = r.at(k)
    e.prove('integer_power: coefficient k is the sum over all partitions of multinomial coefficient times product of powers', c.v == self.CF(k))
    e.prove('integer_power: coefficient k is built from terms of degree k', c.deg == k)
    e.prove('integer_power: without constant coefficient, the coefficients below the exponent vanish', z3.Implies(z3.And(self.A.V(I0) == 0, k < self.m), c.v == 0))
    e.prove('integer_power: coefficients below the lowest interval are arrays', z3.Implies(k < self.low, z3.Not(c.iv)))
    e.cover(f'integer_power {self.default}')

class PTup:
  """A tuple of integers: length, sum, sum of j * p_j, all entries >= 0, equal to the Skolem tuple's first `len` entries."""
  __vf__ = __vf_cat__ = True
  def __init__(self, n, s, w, ok, eq): self.n, self.s, self.w, self.ok, self.eq = n, s, w, ok, eq
  def __add__(self, o):
    u = eng().unit
    r = self
    for z in o:
      z = iv(z)
      r = PTup(r.n + 1, r.s + z, r.w + r.n * z, z3.And(r.ok, z >= 0), z3.And(r.eq, u.q_at(r.n, z)))
    return r
  def __radd__(self, o):
    r = self
    for z in reversed(tuple(o)):
      z = iv(z)
      r = PTup(r.n + 1, r.s + z, r.w + r.s, z3.And(r.ok, z >= 0), eng().fresh_bool('eq'))
    return r
  @staticmethod
  def of(o):
    return o if isinstance(o, PTup) else PTup(I0, I0, I0, z3.BoolVal(True), z3.BoolVal(True)) + o

class SubParts(rt.SymIter):
  """Contract of the recursive call for (n', m', k')."""
  def __init__(self, u, n, m, k):
    self.u, self.n, self.m, self.k = u, S(n), S(m), S(k)
    # functions of the arguments, so that calls in different iterations are different sequences
    self.key = (self.n, self.m)
  def length(self): eng().axiom(self.u.LEN(*self.key) >= 0); return self.u.LEN(*self.key)
  def cnt(self, t):
    """How many of the first t elements equal the Skolem prefix."""
    u, e = self.u, eng(); t = S(t)
    for x in (t, S(t - 1)):
      e.axiom(z3.Implies(x >= 0, u.CNT(*self.key, S(x + 1)) == u.CNT(*self.key, x) + z3.If(u.EQ(*self.key, x), 1, 0)))
    e.axiom(u.CNT(*self.key, I0) == 0)
    e.axiom(u.CNT(*self.key, u.LEN(*self.key)) == z3.If(u.valid_prefix(self.n, self.m), 1, 0))
    return u.CNT(*self.key, t)
  def at(self, t):
    u = self.u; t = S(t)
    return PTup(self.k, self.m, self.n, z3.BoolVal(True), u.EQ(*self.key, t))

class Partitions(CoefUnit):
  name = 'enumeration of partitions'
  functions = ['polynomials._iter_partitions']
  assumptions = ['induction on k: the recursive call meets the contract for k-1']
  def make_world(self):
    w = World(); m = w.get('autobound.polynomials')
    self.real = m._iter_partitions
    m._iter_partitions = self.rec
    return w
  def rec(self, n, m, k):
    e = eng(); n, m, k = iv_(n), iv_(m), iv_(k)
    e.prove('_iter_partitions: recursive call has a smaller k (termination)', z3.And(k < self.k, k >= 1))
    e.prove('_iter_partitions: recursive call meets the precondition', z3.And(n >= 0, m >= 0))
    e.prove('_iter_partitions: recursive call has one coefficient less', k == self.k - 1)
    return SubParts(self, n, m, k)
  def q_at(self, pos, z):
    # entry `pos` of the Skolem tuple; only entries 0 (k == 1) and k-1 are tracked
    return z3.If(pos == self.k - 1, self.q == z, eng().fresh_bool('q'))
  def valid_prefix(self, n, m): return z3.And(self.qok, self.qs == m, self.qw == n)
  def valid(self): return z3.And(self.qok, self.q >= 0, self.qs + self.q == self.m, self.qw + (self.k - 1) * self.q == self.n)
  def lemmas(self, pc, goal):
    k, q, n = self.k, self.q, self.n
    out = [z3.Implies(z3.And(k >= 2, q >= 0), (k - 1) * q >= q)]
    return out
  def templates(self, loop, name, v):
    yield from CoefUnit.templates(self, loop, name, v)
    b = base_of(loop.it)
    if name == '@count':
      outs = [l.k for l in loop.outer]
      full = lambda i: z3.If(z3.And(self.q >= 0, self.q < i), z3.If(self.valid_prefix(self.n - (self.k - 1) * self.q, self.m - self.q), 1, 0), 0)
      if not isinstance(b, SubParts): yield 'occurrences so far', lambda x, i: iv(x) == full(i)
      elif len(outs) == 1:
        o = outs[0]
        yield 'occurrences so far', lambda x, t: iv(x) == full(o) + z3.If(self.q == o, b.cnt(t), 0)
  def run(self, e):
    self.LEN = z3.Function('len_sub', Z, Z, Z); self.CNT = z3.Function('cnt_sub', Z, Z, Z, Z); self.EQ = z3.Function('eq_sub', Z, Z, Z, z3.BoolSort())
    n, m, k = e.fresh_int('n'), e.fresh_int('m'), e.fresh_int('k')
    self.n, self.m, self.k = n, m, k
    self.q, self.qs, self.qw, self.qok = e.fresh_int('q_last'), e.fresh_int('q_sum'), e.fresh_int('q_wsum'), e.fresh_bool('q_ok')
    e.assume(z3.Implies(self.qok, z3.And(self.qs >= 0, self.qw >= 0)))
    e.assume(z3.Implies(k == 1, z3.And(self.qok, self.qs == 0, self.qw == 0)))     # the empty prefix
    e.ghosts['count'] = I0
    def go():
      for y in self.real(SInt(n), SInt(m), SInt(k)):
        y = PTup.of(y)
        e.prove('_iter_partitions: yields tuples of length k', y.n == k)
        e.prove('_iter_partitions: yields tuples with sum m and weighted sum n', z3.And(y.s == m, y.w == n, y.ok))
        e.ghosts['count'] = e.ghosts['count'] + z3.If(y.eq, 1, 0)
        e.cover('yield')
    st, r = call_contract(e, '_iter_partitions', go, raises=(ValueError,))
    if st == 'raise':
      e.prove('_iter_partitions: ValueError only for invalid arguments', z3.Or(n < 0, m < 0, k <= 0)); e.cover('raise'); return
    e.prove('_iter_partitions: invalid arguments are refused', z3.And(n >= 0, m >= 0, k >= 1))
    e.prove('_iter_partitions: every partition occurs exactly once and nothing else occurs', e.ghosts['count'] == z3.If(self.valid(), 1, 0))
    e.cover('done')

FACT = z3.Function('fact', Z, Z)
class KS(rt.SymIter):
  """Non-negative integers: head, length, sum, product of factorials."""
  def __init__(self, n, head, s, pf): self.n, self.head, self.s, self.pf = n, head, s, pf
  def length(self): return self.n
  def __bool__(self): return eng().branch(self.n > 0)
  V, SM, PF = z3.Function('ks', Z, Z), z3.Function('sum_ks', Z, Z), z3.Function('prod_fact_ks', Z, Z)
  base = False     # the argument itself: entries and partial sums by position
  def at(self, k):
    if eng().valid(k == 0, quick=True)[0] == 'proved': return SInt(self.head)
    if not self.base: raise EngineLimit('entry of a tuple')
    k = S(k); self.facts(k); return SInt(self.V(k))
  def facts(self, k):
    k = S(k); e = eng(); V, SM, PF = self.V, self.SM, self.PF
    e.axiom(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(V(k) >= 0, SM(S(k + 1)) == SM(k) + V(k), PF(S(k + 1)) == PF(k) * FACT(V(k)), SM(k) >= 0, SM(S(k + 1)) <= self.s)))
    e.axiom(z3.And(SM(I0) == 0, PF(I0) == 1, SM(self.n) == self.s, PF(self.n) == self.pf, FACT(I0) == 1, z3.Implies(self.n >= 1, V(I0) == self.head)))
  def __vf_sum__(self, start=0): return SInt(self.s) + start
  def __getitem__(self, i):
    if isinstance(i, slice):
      if i.step is None and i.stop is None and conc_int(iv(i.start)) == 1:
        e = eng()
        h, pf = e.fresh_int('head'), e.fresh_int('pf')
        e.assume(z3.And(h >= 0, self.s - self.head >= h))
        e.axiom(self.pf == FACT(self.head) * pf)
        return KS(S(z3.If(self.n > 0, self.n - 1, 0)), h, S(self.s - self.head), pf)
      raise EngineLimit('slice')
    return self.at(rt.norm_index(iv(i), self.n))
  def __vf_isinstance__(self, cls): return cls is tuple

class Multinomial(CoefUnit):
  name = 'multinomial coefficient'
  functions = ['polynomials._multinomial_coefficient']
  assumptions = ['math.comb(n, k) is the binomial coefficient, so math.comb(n, k) * k! * (n-k)! == n! (proved: lean/PolyLemmas.lean comb_factorial)', 'induction on the length of the argument']
  def make_world(self):
    w = World(); m = w.get('autobound.polynomials'); self.real = m._multinomial_coefficient
    m._multinomial_coefficient = self.rec
    return w
  def comb(self, n, k):
    e = eng(); n, k = iv(n), iv(k)
    e.prove('comb: arguments in range', z3.And(k >= 0, n >= k))
    c = e.fresh_int('comb')
    e.axiom(c * (FACT(k) * FACT(S(n - k))) == FACT(n))
    self.combs.append((c, k)); return SInt(c)
  def rec(self, ks):
    e = eng()
    if not isinstance(ks, KS): raise EngineLimit('argument')
    e.prove('_multinomial_coefficient: recursive call has a shorter, non-empty argument', z3.And(ks.n >= 1, ks.n < self.ks.n))
    r = e.fresh_int('sub')
    e.axiom(r * ks.pf == FACT(ks.s))
    for c, k in self.combs: e.axiom((c * FACT(k)) * (r * ks.pf) == (c * FACT(k)) * FACT(ks.s))
    return SInt(r)
  def start_path(self, e):
    CoefUnit.start_path(self, e); self.combs = []
  def templates(self, loop, name, v):
    yield from CoefUnit.templates(self, loop, name, v)
    it = base_of(loop.it)
    if rt.kind(v) == 'int' and it is self.ks:
      def at(f):
        def g(x, i): self.ks.facts(i); self.ks.facts(S(i - 1)); return f(iv(x), S(i))
        return g
      yield 'sum of the entries so far', at(lambda x, i: x == KS.SM(i))
      def coeff(x, i):
        for c, k in self.combs:      # instance: r * PF(i-1) == SM(i-1)!, so (r * c) * PF(i) == SM(i)!
          for r in self.before: eng().axiom(z3.Implies(x == r * c, x * (KS.PF(S(i - 1)) * FACT(k)) == (r * KS.PF(S(i - 1))) * (c * FACT(k))))
        if not self.combs: self.before.append(x)
        return x * KS.PF(i) == FACT(KS.SM(i))
      yield 'multinomial coefficient of the entries so far', at(coeff)
      yield 'sum of the entries left', at(lambda x, i: x == self.ks.s - KS.SM(i))
      def rest(x, i):
        left = FACT(S(self.ks.s - KS.SM(i)))
        for c, k in self.combs:      # instance: r * (PF(i-1) * left(i-1)!) == s! and c * (k! * left(i)!) == left(i-1)!
          for r in self.before2: eng().axiom(z3.Implies(x == r * c, x * ((KS.PF(S(i - 1)) * FACT(k)) * left) == r * (KS.PF(S(i - 1)) * (c * (FACT(k) * left)))))
        if not self.combs: self.before2.append(x)
        return x * (KS.PF(i) * left) == FACT(self.ks.s)
      yield 'multinomial coefficient of the entries so far and the rest', at(rest)
  def run(self, e):
    n, h, s, pf = e.fresh_int('len'), e.fresh_int('k0'), e.fresh_int('sum'), e.fresh_int('pf')
    e.assume(z3.And(n >= 0, h >= 0, s >= h, z3.Implies(n == 1, z3.And(s == h, pf == FACT(h)))))
    self.ks = KS(n, h, s, pf); self.ks.base = True; self.before = []; self.before2 = []
    st, r = call_contract(e, '_multinomial_coefficient', lambda: self.real(self.ks), raises=(ValueError,))
    if st == 'raise': e.prove('_multinomial_coefficient: refuses only the empty tuple', n == 0); e.cover('raise'); return
    e.prove('_multinomial_coefficient: the empty tuple is refused', n >= 1)
    e.prove('_multinomial_coefficient: result * prod k_j! == (sum k_j)!', iv(r) * pf == FACT(s))
    e.cover('done')
