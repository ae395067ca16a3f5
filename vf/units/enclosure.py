"""C07, C08, C09: enclosure_arithmetic.py."""
import z3
from ..core import *
from .. import rt
from ..load import World
from ..m1 import POW
from ..unit import Unit, call_contract
from ..coef import *
from ..coef import iv_
from . import poly

S = z3.simplify
Z, R = z3.IntSort(), z3.RealSort()
If, And, Or, Not, Implies = z3.If, z3.And, z3.Or, z3.Not, z3.Implies
imin = lambda a, b: S(If(a <= b, a, b))
PWR = z3.Function('real_power', R, R, R)       # value ** p for exponents handled by primitive_enclosures

class Spec:
  """Contract of an enclosure-valued result: length, member's value, degree and arrays-where condition."""
  def __init__(self, n, total, arr=None, zero=None, deg=None):
    self.n, self.total, self.arr, self.zero, self.deg = n, total, arr, zero, deg or (lambda k: k)

class EncUnit(CoefUnit):
  aspects = ('C07', 'C08')
  methods = ()
  assumptions = ['IntervalArithmetic and polynomials meet their contracts (C02, C04-C06)']
  def ob(self, asp, name, goal):
    if asp in self.aspects: eng().prove(name, goal)
    else: eng().assume(goal)
  def make_world(self):
    w = World(); m = w.get('autobound.enclosure_arithmetic'); self.m = m
    m.interval_arithmetic.IntervalArithmetic = StubIA
    self.real = {k: getattr(m, k) for k in ('enclose_enclosure', 'as_taylor_enclosure', '_pairwise_batched_multiply', '_elementwise_term_product_coefficient',
                                            '_elementwise_term_power_coefficient', 'map_over_enclosure', 'expand_multiple_dims')}
    m.polynomials.eval_taylor_enclosure = self.eval_stub
    m.polynomials.arbitrary_bilinear = self.bilinear_stub
    m.polynomials.integer_power = self.power_stub
    m._pairwise_batched_multiply = self.pairwise_stub
    m.primitive_enclosures.pow_enclosure = lambda p, *a: self.pow_prim(p, *a)
    m.as_taylor_enclosure = self.as_te_stub
    m.enclose_enclosure = self.enclose_stub
    return w
  def start_path(self, e):
    CoefUnit.start_path(self, e)
    self.xnd = e.fresh_int('x_ndim'); e.assume(self.xnd >= 0)
    self.D = e.fresh_int('D'); e.assume(self.D >= 0)
    self.tr = Disp(z3.BoolVal(True))
    self.lem = []
  def lemmas(self, pc, goal): return CoefUnit.lemmas(self, pc, goal) + self.lem
  def arith(self):
    a = self.m.TaylorEnclosureArithmetic(SInt(self.D), self.tr, StubNP)
    return a
  # ---------------- inputs / results
  def enclosure(self, e, name, strict=True):
    n, low = e.fresh_int('n_' + name), e.fresh_int('low_' + name)
    e.assume(n >= 1)
    s = input_seq(e, name, n, low=low)
    s.low = low; s.T = s.PS(n); s.spec = Spec(n, s.T)
    if not strict:
      DG = z3.Function('deg_' + name, Z, Z); s.DG = DG; at = s._at
      self.strict = e.fresh_bool('strict_' + name)
      st = self.strict
      def at2(k):
        c = at(k)
        c = Coef(c.v, DG(k), c.nb, c.iv)
        e.axiom(Or(c.deg == k, And(Not(st), c.scalar_zero())))
        return c
      s._at = at2; s.strict = st
    return s
  def spec_seq(self, spec, name='r'):
    """A sequence about which only the contract is known."""
    e = eng()
    s = input_seq(e, e.fresh_name(name), spec.n, deg=spec.deg)
    at = s._at
    def at2(k):
      c = at(k)
      if spec.arr is not None: e.axiom(Implies(And(k >= 0, spec.arr(k)), Not(c.iv)))
      if spec.zero is not None: e.axiom(Implies(And(k >= 0, spec.zero(k)), c.v == 0))
      return c
    s._at = at2
    e.axiom(s.PS(spec.n) == spec.total)
    s.T = spec.total; s.spec = spec
    return s
  def check(self, name, r, spec):
    e = eng()
    r = cseq(r)
    self.ob('C08', f'{name}: at most max_degree + 1 coefficients', r.length() <= self.D + 1)
    self.ob('C08', f'{name}: number of coefficients', r.length() == spec.n)
    self.ob('C07', f'{name}: encloses the value for every member of the operands', r.total() == spec.total)
    k = e.fresh_int('k'); e.assume(And(k >= 0, k < spec.n))
    c = r.at(k)
    self.ob('C07', f'{name}: coefficient k has the axes of the k-th power', c.deg == spec.deg(k))
    if spec.arr is not None: self.ob('C08', f'{name}: coefficients stay arrays where neither truncation nor an interval operand forces an interval', Implies(spec.arr(k), Not(c.iv)))
    if spec.zero is not None: self.ob('C07', f'{name}: vanishing coefficients', Implies(spec.zero(k), c.v == 0))
    return r, k, c
  def trunc(self, n): return S(If(n <= self.D + 1, n, self.D + 1))
  def arr_low(self, low, n):
    """arrays below `low`, except for the last coefficient if terms beyond max_degree were folded into it."""
    return lambda k: And(k < low, Not(And(k == self.D, n > self.D + 1)))
  # ---------------- specifications (shared by callers and by the units that verify them)
  def sp_enclose(self, A, T=None):
    n = A.length()
    return Spec(self.trunc(n), A.total())
  def sp_add(self, A, B, sign=1):
    n = S(If(A.n >= B.n, A.n, B.n))
    return Spec(self.trunc(n), A.T + B.T, self.arr_low(imin(A.low, B.low), n), deg=getattr(self, 'add_deg', None))
  def sp_neg(self, A): return Spec(self.trunc(A.n), -A.T, self.arr_low(A.low, A.n))
  def sp_mul(self, A, B):
    n = S(A.n + B.n - 1)
    return Spec(self.trunc(n), A.T * B.T, self.arr_low(imin(A.low, B.low), n))
  def sp_pow(self, A, p):
    n = S(If(p == 0, z3.IntVal(1), (A.n - 1) * p + 1))
    return Spec(self.trunc(n), powr(A.T, p), self.arr_low(A.low, n), zero=lambda k: And(A.V0() == 0, k < p, k < self.D))
  # ---------------- callee contracts
  def as_te_stub(self, a, np_like):
    e = eng()
    if np_like is not StubNP: raise EngineLimit('other back end')
    return cseq(a)
  def enclose_stub(self, enclosure, trust_region, max_degree, np_like):
    e = eng(); A = cseq(enclosure); D = S(iv_(max_degree))
    e.prove('enclose_enclosure: the trust region of this arithmetic is used', z3.BoolVal(trust_region is self.tr and np_like is StubNP))
    e.prove('enclose_enclosure: precondition: degree not negative', D >= 0)
    n = A.length()
    big = n > D + 1
    if not e.branch(S(big)): return A
    k = e.fresh_int('k'); e.assume(And(k >= D, k < n))
    e.prove('enclose_enclosure: precondition: coefficient k has the axes of the k-th power', A.at(k).deg == k)
    nb = e.fresh_int('nbl'); e.assume(nb >= 0)
    last = Coef(A.total() - A.prefix(D), D, nb, z3.BoolVal(True))
    def at(k):
      if e.branch(S(k < D)): return A.at(k)
      return last
    def prefix(k):
      if e.branch(S(k <= D)): return A.prefix(k)
      return A.total()
    return CSeq(S(D + 1), at, prefix)
  def eval_stub(self, s, x_minus_x0, np_like):
    e = eng(); s = cseq(s)
    if isinstance(x_minus_x0, Disp): e.prove('eval_taylor_enclosure: evaluated over the whole trust region', z3.BoolVal(x_minus_x0.end is None and x_minus_x0 is self.tr))
    else: raise EngineLimit('evaluation at something else')
    k = e.fresh_int('k'); e.assume(And(k >= 0, k < s.length()))
    base = self.eval_base
    e.prove('eval_taylor_enclosure: precondition: consecutive powers', s.at(k).deg >= k)
    nb = e.fresh_int('nbl'); e.assume(nb >= 0)
    d = S(s.at(k).deg - k)
    dd = e.fresh_int('restdeg'); e.assume(dd == d)
    return Coef(s.total(), dd, nb, z3.BoolVal(True))
  eval_base = None
  def pairwise_stub(self, u, v, p, q, np_like):
    e = eng(); u, v = Coef.lift(u), Coef.lift(v); p, q = iv_(p), iv_(q)
    e.prove('_pairwise_batched_multiply: p and q are the numbers of x axes of the factors', And(p == u.deg * self.xnd, q == v.deg * self.xnd))
    return Coef(u.v * v.v, S(u.deg + v.deg), imax(u.nb, v.nb), F, product=(u, v))
  def callbacks(self, e, add_, zero, tpc, A, B):
    i, j = e.fresh_int('i'), e.fresh_int('j')
    x = Coef(e.fresh_real('x'), i, e.fresh_int('nbx'), e.fresh_bool('ivx')); y = Coef(e.fresh_real('y'), j, e.fresh_int('nby'), e.fresh_bool('ivy'))
    e.assume(And(i >= 0, j >= 0, x.nb >= 0, y.nb >= 0))
    if e.choose(2):
      r = Coef.lift(tpc(x, y, SInt(i), SInt(j)))
      e.prove('term_product_coefficient callback meets its contract', And(r.v == x.v * y.v, r.deg == i + j))
      self.ob('C08', 'term_product_coefficient callback: arrays give an array', Implies(r.iv, Or(x.iv, y.iv)))
    else:
      y = Coef(y.v, i, y.nb, y.iv)
      r = Coef.lift(add_(x, y))
      e.prove('add callback meets its contract', And(r.v == x.v + y.v, r.deg == i))
      self.ob('C08', 'add callback: arrays give an array', Implies(r.iv, Or(x.iv, y.iv)))
      z = Coef.lift(zero); e.prove('additive identity is a scalar zero array', And(z.scalar_zero(), Not(z.iv)))
  def bilinear_stub(self, a, b, add=None, additive_identity=0, term_product_coefficient=None):
    e = eng(); a, b = cseq(a), cseq(b)
    if a is not self.A and a is not self.B or b is not self.A and b is not self.B: raise EngineLimit('other operands')
    if e.choose(2):
      self.callbacks(e, add or (lambda x, y: x + y), additive_identity, term_product_coefficient or (lambda x, y, i, j: x * y), a, b)
      e.cover('callbacks of arbitrary_bilinear'); e._completed(); raise PathEnd()
    low = imin(a.low, b.low)
    return self.spec_seq(Spec(S(a.n + b.n - 1), a.T * b.T, lambda k: k < low), 'product')
  def power_stub(self, a, exponent, add=None, additive_identity=0, multiplicative_identity=1, term_product_coefficient=None, term_power_coefficient=None, scalar_product=None):
    e = eng(); a = cseq(a); p = S(iv_(exponent))
    if a is not self.A: raise EngineLimit('other operand')
    if e.branch(p < 0): raise ValueError(exponent)
    c = e.choose(3)
    one = Coef.lift(multiplicative_identity)
    if c == 0:
      self.callbacks(e, add or (lambda x, y: x + y), additive_identity, term_product_coefficient or (lambda x, y, i, j: x * y), a, a)
      e.cover('callbacks of integer_power'); e._completed(); raise PathEnd()
    if c == 1:
      i, j = e.fresh_int('i'), e.fresh_int('j')
      x = Coef(e.fresh_real('x'), i, e.fresh_int('nbx'), e.fresh_bool('ivx')); e.assume(And(i >= 0, j >= 0, x.nb >= 0))
      r = Coef.lift((term_power_coefficient or (lambda c, i, j: c**j))(x, SInt(i), SInt(j)))
      e.prove('term_power_coefficient callback meets its contract', And(r.v == powr(x.v, j), r.deg == If(j == 0, 0, i * j)))
      self.ob('C08', 'term_power_coefficient callback: an array for arrays and for exponent 0', Implies(r.iv, And(x.iv, j != 0)))
      k = e.fresh_int('mult'); e.assume(k >= 0)
      r = Coef.lift(scalar_product(SInt(k), x) if scalar_product else SInt(k) * x)
      e.prove('scalar_product callback meets its contract', And(r.v == z3.ToReal(k) * x.v, r.deg == i))
      self.ob('C08', 'scalar_product callback: arrays give an array', Implies(r.iv, x.iv))
      e.prove('multiplicative identity is one', And(one.v == 1, one.deg == 0))
      self.ob('C08', 'multiplicative identity is an array', Not(one.iv))
      e.cover('more callbacks of integer_power'); e._completed(); raise PathEnd()
    n = S(If(p == 0, z3.IntVal(1), (a.n - 1) * p + 1))
    V0 = a.at(I0).v
    self.lem.append(Implies(And(a.n >= 1, p >= 0), (a.n - 1) * p >= 0))
    return self.spec_seq(Spec(n, powr(a.T, p), lambda k: k < a.low, zero=lambda k: And(V0 == 0, k < p)), 'power')
  def pow_prim(self, p, *a): raise EngineLimit('pow_enclosure')

def split(name, cls):
  """The C07 and the C08 obligations of a unit."""
  out = []
  for asp in ('C07', 'C08'):
    c = type(name + asp, (cls,), dict(aspects=(asp,))); c.__module__ = __name__
    globals()[name + asp] = c

# ---------------------------------------------------------------- units
class Enclose(EncUnit):
  name = 'lowering the degree'
  functions = ['enclosure_arithmetic.enclose_enclosure', 'enclosure_arithmetic.TaylorEnclosureArithmetic._truncate_if_necessary']
  def run(self, e):
    A = self.A = self.enclosure(e, 'A')
    if e.choose(2):
      # the method passes its own degree and trust region
      ar = self.arith()
      st, r = call_contract(e, '_truncate_if_necessary', lambda: ar._truncate_if_necessary(A))
    else:
      st, r = call_contract(e, 'enclose_enclosure', lambda: self.real['enclose_enclosure'](A, self.tr, SInt(self.D), StubNP))
    r, k, c = self.check('enclose_enclosure', r, self.sp_enclose(A))
    x = A.at(k)
    self.ob('C08', 'enclose_enclosure: coefficients below the target degree are unchanged',
            Implies(Or(k < self.D, A.n <= self.D + 1), And(c.v == x.v, c.deg == x.deg, c.nb == x.nb, c.iv == x.iv)))
    e.cover('enclose_enclosure')

class AsTE(EncUnit):
  name = 'conversion of coefficients'
  functions = ['enclosure_arithmetic.as_taylor_enclosure']
  def run(self, e):
    A = self.enclosure(e, 'A')
    st, r = call_contract(e, 'as_taylor_enclosure', lambda: self.real['as_taylor_enclosure'](A, StubNP))
    r = cseq(r)
    k = e.fresh_int('k'); e.assume(And(k >= 0, k < A.n))
    c, x = r.at(k), A.at(k)
    e.prove('as_taylor_enclosure: same number of coefficients', r.length() == A.n)
    e.prove('as_taylor_enclosure: same coefficients', And(c.v == x.v, c.deg == x.deg, c.nb == x.nb, c.iv == x.iv, r.total() == A.T))
    e.cover('as_taylor_enclosure')

class Add(EncUnit):
  name = 'sum of enclosures'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.add']
  def A_(self, s, k):
    c = s.at(k); return If(k < s.n, c.v, R0)
  def totals_for(self, loop):
    yield from EncUnit.totals_for(self, loop)
    pre = lambda s, i: If(i <= s.n, s.prefix(i), s.T)
    yield 'both prefixes', lambda i: pre(self.A, i) + pre(self.B, i)
    b = poly.base_of(loop.it) if loop.it is not None else None
    if b is self.B: yield 'A and a prefix of B', lambda i: self.A.T + pre(self.B, i)
    if b is self.A: yield 'B and a prefix of A', lambda i: self.B.T + pre(self.A, i)
  def forall_for(self, loop):
    A, B = self.A, self.B
    b = poly.base_of(loop.it) if loop.it is not None else None
    for nm, X, Y in (('A', A, B), ('B', B, A)):     # a copy of one operand, to which the other one is added in place
      def so_far(m, i, j, X=X, Y=Y):
        c, x, y = m.elem(j), X.at(j), Y.at(j); new = And(j < i, j < Y.n)
        return And(c.v == x.v + If(new, y.v, R0), c.deg == If(new, self.add_deg(j), x.deg), Or(new, c.nb == x.nb), Implies(c.iv, Or(x.iv, And(new, y.iv))))
      if b is Y: yield f'{nm} with the other operand added so far', so_far
    yield 'sum of the coefficients', lambda m, i, j: m.elem(j).v == self.A_(A, j) + self.A_(B, j)
    yield 'degree', lambda m, i, j: m.elem(j).deg == self.add_deg(j)
    yield 'array', lambda m, i, j: Implies(m.elem(j).iv, Or(And(j < A.n, A.at(j).iv), And(j < B.n, B.at(j).iv)))
  def add_deg(self, k):
    a, b = self.A.at(k), self.B.at(k)
    return If(And(k < self.A.n, k < self.B.n), If(a.deg >= b.deg, a.deg, b.deg), If(k < self.A.n, a.deg, b.deg))
  def run(self, e):
    A, B = self.A, self.B = self.enclosure(e, 'A', strict=False), self.enclosure(e, 'B', strict=False)
    n = If(A.n >= B.n, A.n, B.n)
    e.assume(Implies(n > self.D + 1, And(A.strict, B.strict)))
    st, r = call_contract(e, 'add', lambda: self.arith().add(A, B))
    r, k, c = self.check('add', r, self.sp_add(A, B))
    e.prove('add: operands of the same degree give that degree', Implies(And(k < A.n, k < B.n, Or(A.at(k).deg == k, B.at(k).deg == k)), c.deg == k))
    e.cover('add')

class Negative(EncUnit):
  name = 'negation of an enclosure'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.negative']
  def run(self, e):
    A = self.A = self.enclosure(e, 'A')
    st, r = call_contract(e, 'negative', lambda: self.arith().negative(A))
    self.check('negative', r, self.sp_neg(A)); e.cover('negative')

class Subtract(EncUnit):
  name = 'difference of enclosures'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.subtract']
  assumptions = ['add and negative meet their contracts']
  def run(self, e):
    A, B = self.A, self.B = self.enclosure(e, 'A'), self.enclosure(e, 'B')
    ar = self.arith()
    def neg(x):
      if x is not B and x is not A: raise EngineLimit('negative of something else')
      r = self.spec_seq(self.sp_neg(x), 'neg'); r.low = If(x.n > self.D + 1, imin(x.low, self.D), x.low); return r
    def add_(x, y):
      x, y = cseq(x), cseq(y)
      return self.spec_seq(self.sp_add(x, y), 'sum')
    ar.negative, ar.add = neg, add_
    st, r = call_contract(e, 'subtract', lambda: ar.subtract(A, B))
    n = S(If(A.n >= B.n, A.n, B.n))
    self.check('subtract', r, Spec(self.trunc(n), A.T - B.T, self.arr_low(imin(A.low, B.low), n))); e.cover('subtract')

class Multiply(EncUnit):
  name = 'product of enclosures'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.multiply', 'enclosure_arithmetic._elementwise_term_product_coefficient',
               'enclosure_arithmetic.TaylorEnclosureArithmetic._validate_taylor_enclosure']
  def run(self, e):
    A, B = self.A, self.B = self.enclosure(e, 'A'), self.enclosure(e, 'B')
    st, r = call_contract(e, 'multiply', lambda: self.arith().multiply(A, B))
    self.check('multiply', r, self.sp_mul(A, B)); e.cover('multiply')

class Power(EncUnit):
  name = 'power of an enclosure'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.power', 'enclosure_arithmetic._elementwise_term_power_coefficient']
  def pow_prim(self, p, *a): self.seen = p; raise EngineLimit('called')
  def run(self, e):
    A = self.A = self.enclosure(e, 'A'); A.V0 = lambda: A.at(I0).v
    kind = e.choose(3)
    p = e.fresh_int('p')
    ar = self.arith()
    if kind == 0: e.assume(p >= 0); ex = SInt(p)
    elif kind == 1: e.assume(p >= 0); ex = SReal(z3.ToReal(p))
    else:
      q = e.fresh_real('p'); e.assume(Or(q < 0, Not(z3.IsInt(q)))); ex = SReal(q)
    used = []
    def gef(get):
      def fun(arg, arg_trust_region=None):
        if arg is not A: e.fail('power: the function is applied to the operand')
        if arg_trust_region is not None: e.fail('power: the range of the operand is derived')
        x0, tr, np_ = object(), object(), object()
        got = []
        self.pow_prim = lambda pp, *rest: got.append((pp, rest)) or 'E'
        out = get(x0, tr, SInt(self.D), np_)
        ok = out == 'E' and got[0][1][0] is x0 and got[0][1][1] is tr and got[0][1][3] is np_
        e.prove('power: enclosure of the power function at the requested point, range, degree', And(z3.BoolVal(ok), iv_(got[0][1][2]) == self.D))
        e.prove('power: enclosure of the power with this exponent', rv(got[0][0]) == (q if kind == 2 else z3.ToReal(p)))
        n = e.fresh_int('n'); e.assume(And(n >= 1, n <= self.D + 1))
        used.append(1)
        return self.spec_seq(Spec(n, PWR(A.T, rv(ex))), 'composed')
      return fun
    ar.get_elementwise_fun = gef
    st, r = call_contract(e, 'power', lambda: ar.power(A, ex))
    if kind == 2 or used:
      r = cseq(r)
      self.ob('C07', 'power: encloses the power of every member', r.total() == PWR(A.T, rv(ex)))
      self.ob('C08', 'power: at most max_degree + 1 coefficients', r.length() <= self.D + 1)
      if kind != 2: self.ob('C08', 'power: non-negative integer powers stay polynomial', F)
      e.cover('elementwise'); return
    self.check('power', r, self.sp_pow(A, p)); e.cover(f'power {kind}')

class Divide(EncUnit):
  name = 'quotient of enclosures'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.divide']
  assumptions = ['multiply and power meet their contracts']
  def run(self, e):
    A, B = self.A, self.B = self.enclosure(e, 'A'), self.enclosure(e, 'B')
    ar = self.arith(); inv = PWR(B.T, z3.RealVal(-1))
    e.assume(And(B.T != 0, inv * B.T == 1))
    def pw(x, p):
      if x is not B: e.fail('divide: the divisor is raised to the power -1')
      e.prove('divide: the divisor is raised to the power -1', rv(p) == -1)
      n = e.fresh_int('n'); e.assume(And(n >= 1, n <= self.D + 1))
      r = self.spec_seq(Spec(n, inv), 'inverse'); r.low = I0; return r
    def mul(x, y): return self.spec_seq(self.sp_mul(cseq(x), cseq(y)), 'product')
    ar.power, ar.multiply = pw, mul
    st, r = call_contract(e, 'divide', lambda: ar.divide(A, B))
    r = cseq(r)
    self.ob('C07', 'divide: encloses the quotient', And(r.total() == A.T * inv, r.total() * B.T == A.T))
    self.ob('C08', 'divide: at most max_degree + 1 coefficients', r.length() <= self.D + 1)
    e.cover('divide')

class ArbBilinear(poly.Bilinear, EncUnit):
  name = 'bilinear combination of enclosures'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.arbitrary_bilinear']
  assumptions = EncUnit.assumptions + ['bilinearity axioms of the underlying operation', 'pairwise_batched_bilinear meets its documented contract']
  aspects = EncUnit.aspects
  make_world = EncUnit.make_world
  def start_path(self, e): EncUnit.start_path(self, e); self.default = False
  def which(self, loop):
    b = poly.base_of(loop.it)
    if b is self.A or loop.n is not None and S(loop.n).eq(S(rt.SymRange(0, SInt(self.A.n)).length())): return 'a'
    if b is self.B or loop.n is not None and S(loop.n).eq(S(rt.SymRange(0, SInt(self.B.n)).length())): return 'b'
    return '?'
  def forall_for(self, loop):
    A, B, D = self.A, self.B, self.D
    yield 'belongs to its power or is zero', lambda m, i, j: Or(m.elem(j).deg == j, m.elem(j).scalar_zero())
    yield 'batch', lambda m, i, j: m.elem(j).nb >= 0
    yield 'array', lambda m, i, j: Implies(self.arr(j), Not(m.elem(j).iv))
    w = self.which(loop); outs = [l.k for l in loop.outer]
    def touched(o, t, N, k):
      return If(k < D, Or(And(o >= 1, k <= o + N - 2), And(k >= o, k < o + t)), Or(And(o >= 1, o + N - 2 >= D), And(t >= 1, o + t - 1 >= D)))
    if not outs:
      N = B.n if w == 'a' else A.n
      yield 'touched', lambda m, i, j: Implies(touched(i, I0, N, j), m.elem(j).deg == j)
    elif len(outs) == 1:
      N = B.n if w == 'b' else A.n; o = outs[0]
      yield 'touched', lambda m, i, j: Implies(touched(o, i, N, j), m.elem(j).deg == j)
  def run(self, e):
    A, B = self.A, self.B = self.enclosure(e, 'A'), self.enclosure(e, 'B')
    self.TA, self.TB = A.T, B.T
    n = S(A.n + B.n - 1)
    self.arr = self.arr_low(imin(A.low, B.low), n)
    def pbb(u, v, p, q):
      u, v, p, q = Coef.lift(u), Coef.lift(v), iv_(p), iv_(q)
      e.prove('pairwise_batched_bilinear: p and q are the numbers of x axes of the factors', And(p == u.deg * self.xnd, q == v.deg * self.xnd))
      return Coef(poly.BIL(u.v, v.v), S(u.deg + v.deg), imax(u.nb, v.nb))
    st, r = call_contract(e, 'arbitrary_bilinear', lambda: self.arith().arbitrary_bilinear(A, B, pbb))
    self.check('arbitrary_bilinear', r, Spec(self.trunc(n), poly.BIL(A.T, B.T), self.arr)); e.cover('arbitrary_bilinear')

class Compose(EncUnit):
  name = 'composition of enclosures'
  aspects = ('C09', 'C08')
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.compose_enclosures']
  assumptions = ['power, add and _pairwise_batched_multiply meet their contracts (C07)']
  EV = z3.Function('E_partial', Z, R)
  def ob(self, asp, name, goal): EncUnit.ob(self, 'C09' if asp == 'C07' else asp, name, goal)
  def ev(self, i):
    e = eng(); i = S(i); e.axiom(self.EV(I0) == 0)
    for k in (i, S(i - 1)):
      e.axiom(Implies(k >= 0, self.EV(S(k + 1)) == self.EV(k) + self.E.V(k) * powr(self.DIFF, k)))
    return self.EV(i)
  def nout(self, i): return If(i == 0, z3.IntVal(1), self.trunc((self.A.n - 1) * (i - 1) + 1))
  def nl(self, i):
    A, E = self.A, self.E
    for k in (S(i), S(i - 1), S(i + 1)):
      a = (A.n - 1) * k
      self.lem += [Implies(And(A.n >= 2, k >= 0), a >= k), Implies(And(A.n >= 1, k >= 0), a >= 0), Implies(A.n == 1, a == 0), (A.n - 1) * (k + 1) == a + A.n - 1,
                   Implies(And(k <= E.n - 1, A.n >= 1), a <= (A.n - 1) * (E.n - 1))]
  def inner(self, loop):
    b = poly.base_of(loop.it)
    return b if isinstance(b, CSeq) and hasattr(b, 'exponent') else None
  def outer_loop(self, loop):
    """A loop over the elementwise coefficients or their positions: number of iterations -> position."""
    b = poly.base_of(loop.it)
    if b is self.E: return lambda i: i
    if isinstance(b, rt.SymRange) and not loop.outer: return lambda i: S(iv(b.start) + i * b.step)
    return None
  def totals_for(self, loop):
    b = self.inner(loop)
    if b is not None:
      yield 'coefficient times partial sum', lambda i: self.E.V(b.exponent) * b.prefix(i)
    elif self.outer_loop(loop) is not None:
      o = self.outer_loop(loop)
      yield 'sum of the terms so far', lambda i: self.ev(o(i))
  def forall_for(self, loop):
    b = self.inner(loop); A, E, D = self.A, self.E, self.D
    if b is not None:
      p = b.exponent
      yield 'product', lambda m, i, j: m.elem(j).v == E.V(p) * b.at(j).v
      yield 'degree or zero', lambda m, i, j: Or(m.elem(j).deg == j, And(m.elem(j).scalar_zero(), Not(m.elem(j).iv), j < p, j < D))
      yield 'array', lambda m, i, j: Implies(m.elem(j).iv, And(Or(E.at(p).iv, b.at(j).iv), Or(j >= p, j >= D)))
      yield 'batch', lambda m, i, j: m.elem(j).nb >= 0
    elif self.outer_loop(loop) is not None:
      yield 'has its degree', lambda m, i, j: m.elem(j).deg == j
      yield 'array', lambda m, i, j: Implies(self.arr(j), Not(m.elem(j).iv))
      yield 'batch', lambda m, i, j: m.elem(j).nb >= 0
  def templates(self, loop, name, v):
    yield from EncUnit.templates(self, loop, name, v)
    if self.is_seq(v) and self.outer_loop(loop) is not None:
      o = self.outer_loop(loop)
      def f(x, i): self.nl(o(i)); return view(x).length() == self.nout(o(i))
      yield 'length', f
  def run(self, e):
    A = self.A = self.enclosure(e, 'A')
    nE, lowE = e.fresh_int('nE'), e.fresh_int('lowE'); e.assume(nE >= 0)
    E = self.E = input_seq(e, 'E', nE, low=lowE, deg=lambda k: I0)
    self.DIFF = S(A.T - A.at(I0).v)
    self.lem.append(self.ev(I0) == 0)
    A.prefix(z3.IntVal(1))
    n0 = S((A.n - 1) * (nE - 1) + 1)
    self.arr = lambda k: And(k < lowE, k < A.low, Not(And(k == self.D, Or(n0 > self.D + 1, nE > self.D + 1))))
    self.nl(S(nE - 1))
    ar = self.arith()
    def power(x, p):
      x = cseq(x); p = S(iv_(p))
      e.prove('compose: powers of the argument minus its value at x0', And(x.total() == self.DIFF, x.length() == A.n))
      k = e.fresh_int('k'); e.assume(And(k >= 0, k < A.n)); c = x.at(k)
      e.prove('compose: the difference has the coefficients of the argument', And(If(k == 0, And(c.deg == 0, c.v == 0, Not(c.iv)), And(c.v == A.at(k).v, c.deg == k))))
      self.ob('C08', 'compose: the difference has the coefficients of the argument (arrays stay arrays)', Implies(And(k >= 1, Not(A.at(k).iv)), Not(c.iv)))
      e.prove('compose: non-negative power', p >= 0)
      self.nl(p)
      n = S(If(p == 0, z3.IntVal(1), (A.n - 1) * p + 1))
      r = self.spec_seq(Spec(self.trunc(n), powr(self.DIFF, p), self.arr_low(A.low, n), zero=lambda k: And(k < p, k < self.D)), 'poly')
      r.exponent = p
      return r
    def add_(x, y):
      x, y = cseq(x), cseq(y)
      k = e.fresh_int('k'); e.assume(k >= 0)
      n = S(If(x.length() >= y.length(), x.length(), y.length()))
      e.prove('compose: no operand of add exceeds the maximum degree', n <= self.D + 1)
      for s in (x, y):
        if e.branch(S(k < s.length())):
          c = s.at(k); e.prove('compose: precondition of add: coefficient k has the axes of the k-th power or is a scalar zero', Or(c.deg == k, c.scalar_zero()))
      def at(k):
        if e.branch(S(And(k < x.length(), k < y.length()))):
          c, d = x.at(k), y.at(k)
          return Coef(c.v + d.v, imax(c.deg, d.deg), imax(c.nb, d.nb), S(Or(c.iv, d.iv)))
        if e.branch(S(k < x.length())): return x.at(k)
        return y.at(k)
      def prefix(k):
        i, j = x.length(), y.length()
        if k.eq(S(n)): return x.total() + y.total()
        return If(k <= i, x.prefix(k), x.total()) + If(k <= j, y.prefix(k), y.total())
      return CSeq(n, at, prefix)
    ar.power, ar.add = power, add_
    st, r = call_contract(e, 'compose_enclosures', lambda: ar.compose_enclosures(E, A), raises=(ValueError,))
    if st == 'raise': e.prove('compose_enclosures: refuses only an empty elementwise enclosure', nE == 0); e.cover('raise'); return
    self.nl(nE); self.ev(nE)
    e.prove('compose_enclosures: an empty elementwise enclosure is refused', nE >= 1)
    self.check('compose_enclosures', r, Spec(self.nout(nE), self.ev(nE), self.arr)); e.cover('compose')

class ElementwiseFun(EncUnit):
  name = 'elementwise function of an enclosure'
  aspects = ('C09',)
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.get_elementwise_fun']
  assumptions = ['compose_enclosures and enclose_enclosure meet their contracts', 'the elementwise enclosure passed in is valid (C10)']
  def enclose_stub(self, enclosure, trust_region, max_degree, np_like):
    e = eng(); A = cseq(enclosure)
    e.prove('get_elementwise_fun: range derived over the trust region', z3.BoolVal(trust_region is self.tr))
    d = iv_(max_degree); e.prove('get_elementwise_fun: range is a degree 0 enclosure', d == 0)
    return CSeq(z3.IntVal(1), lambda k: Coef(A.total(), I0, I0, z3.BoolVal(True) if self.more else A.at(I0).iv), lambda k: If(k >= 1, A.total(), R0))
  def run(self, e):
    A = self.A = self.enclosure(e, 'A')
    self.more = e.branch(A.n > 1)
    a0 = A.at(I0)
    given = e.choose(2)
    TRV = A.T
    tr_in = Coef(TRV, I0, I0, e.fresh_bool('tr_is_interval')) if given else None
    calls = []
    def get(x0, tr, degree, np_like):
      if not (isinstance(tr, tuple) and len(tr) == 2 or isinstance(tr, Coef)): e.fail('get_elementwise_fun: the range is an interval')
      if isinstance(tr, tuple):
        x, y = tr
        e.prove('get_elementwise_fun: a one-point range is doubled into an interval', And(x.v == TRV, y.v == TRV, Not(x.iv), Not(y.iv)))
      else:
        e.prove('get_elementwise_fun: the range contains the value of the argument', tr.v == TRV)
        e.prove('get_elementwise_fun: the range is an interval', tr.iv)
      e.prove('get_elementwise_fun: an enclosure of the maximum degree is requested', iv_(degree) == self.D)
      x0 = Coef.lift(x0)
      e.prove("get_elementwise_fun: the enclosure is taken at the argument's value at x0", Implies(Not(a0.iv), x0.v == a0.v))
      e.prove('get_elementwise_fun: the expansion point is an array', Not(x0.iv))
      calls.append(1); return 'E'
    ar = self.arith()
    def comp(E, arg):
      e.prove('get_elementwise_fun: composes the elementwise enclosure with the argument', z3.BoolVal(E == 'E' and arg is A))
      return 'RESULT'
    ar.compose_enclosures = comp
    st, r = call_contract(e, 'get_elementwise_fun', lambda: ar.get_elementwise_fun(get)(*((A, tr_in) if given else (A,))), raises=(AssertionError,))
    if st == 'raise':
      e.prove('get_elementwise_fun: only an interval-valued expansion point with positive degree is refused', And(a0.iv, self.D != 0)); e.cover('refused'); return
    e.prove('get_elementwise_fun: an interval-valued expansion point is only used at degree 0', Implies(a0.iv, self.D == 0))
    e.prove('get_elementwise_fun: returns the composition', z3.BoolVal(r == 'RESULT' and len(calls) == 1))
    e.cover(f'elementwise {given}')

for _n, _c in list(globals().items()):
  if isinstance(_c, type) and issubclass(_c, EncUnit) and _n in ('Enclose', 'Add', 'Negative', 'Subtract', 'Multiply', 'Power', 'Divide', 'ArbBilinear'): split(_n, _c)
class ComposeC08(Compose): aspects = ('C08',)
class ComposeC09(Compose): aspects = ('C09',)

# ---------------------------------------------------------------- axis layout of _pairwise_batched_multiply
class IdxTup:
  """Index tuple built from symbolic repetitions."""
  def __init__(self, segs): self.segs = segs
  def __add__(self, o): return IdxTup(self.segs + (o.segs if isinstance(o, IdxTup) else [(x, z3.IntVal(1)) for x in o]))
  def __radd__(self, o): return IdxTup([(x, z3.IntVal(1)) for x in o] + self.segs)
class Lay:
  """Array seen through the layout of its axes: segments (label, length); label None: axes of length 1."""
  __array_priority__ = 1000
  def __init__(self, segs, name): self.segs, self.nm = segs, name
  @property
  def ndim(self): return SInt(z3.Sum([n for _, n in self.segs]))
  def __getitem__(self, idx):
    e = eng()
    if isinstance(idx, tuple): idx = IdxTup([(x, z3.IntVal(1)) for x in idx])
    if not isinstance(idx, IdxTup): raise EngineLimit('index')
    rest, out = list(self.segs), []
    for x, n in idx.segs:
      if x is Ellipsis: out += rest; rest = []
      elif x is None:
        e.prove('index: number of inserted axes is not negative', n >= 0); out.append((None, n))
      elif isinstance(x, slice) and x == slice(None):
        # keep exactly n axes: must be the boundary of a segment
        got = I0; take = []
        while True:
          if e.valid(got == n, quick=True)[0] == 'proved': break
          if not rest: e.fail('index: the axes are inserted between batch axes and x axes')
          take.append(rest[0]); got = S(got + rest[0][1]); rest = rest[1:]
          if e.valid(got > n, quick=True)[0] == 'proved': e.fail('index: the axes are inserted between batch axes and x axes')
        out += take
      else: raise EngineLimit('index')
    return Lay(out + rest, self.nm)
  def __mul__(self, o): return LayProd(self, o)
class LayProd:
  def __init__(self, a, b): self.a, self.b = a, b

class Pairwise(Unit):
  name = 'axis layout of the batched product'
  functions = ['enclosure_arithmetic._pairwise_batched_multiply', 'enclosure_arithmetic.expand_multiple_dims']
  assumptions = ['numpy-like indexing (slices, None, Ellipsis) and broadcasting align axes from the right']
  def make_world(self):
    w = World(); m = w.get('autobound.enclosure_arithmetic'); self.f = m._pairwise_batched_multiply; return w
  def repeat(self, items, n):
    n = iv(n)
    return IdxTup([(x, S(If(n > 0, n, 0))) for x in items]) if len(items) == 1 else (_ for _ in ()).throw(EngineLimit('repeat'))
  class NP:
    @staticmethod
    def asarray(x): return x
    @staticmethod
    def multiply(a, b): return a * b
    @staticmethod
    def ndim(a): return a.ndim
  def run(self, e):
    p, q, bu, bv_ = [e.fresh_int(x) for x in ('p', 'q', 'batch_u', 'batch_v')]
    e.assume(And(p >= 0, q >= 0, bu >= 0, bv_ >= 0))
    u, v = Lay([('Bu', bu), ('I', p)], 'u'), Lay([('Bv', bv_), ('J', q)], 'v')
    st, r = call_contract(e, '_pairwise_batched_multiply', lambda: self.f(u, v, SInt(p), SInt(q), Pairwise.NP))
    if not isinstance(r, LayProd): raise EngineLimit('not a product of the two arrays')
    e.prove('the result is the product of u and v', z3.BoolVal({r.a.nm, r.b.nm} == {'u', 'v'}))
    x, y = (r.a, r.b) if r.a.nm == 'u' else (r.b, r.a)
    def shape(l, want, nm):
      segs = list(l.segs)
      e.prove(f'{nm}: axes are batch axes, axes I, axes J, in this order', z3.BoolVal([s[0] for s in segs] == [w[0] for w in want]))
      if len(segs) == len(want): e.prove(f'{nm}: lengths of the groups of axes', And(*[a[1] == b[1] for a, b in zip(segs, want)]))
    shape(x, [('Bu', bu), ('I', p), (None, q)], 'u')
    shape(y, [('Bv', bv_), (None, p), ('J', q)], 'v')
    e.cover('pairwise')

# ---------------------------------------------------------------- refusal of malformed enclosures
TAILOK = z3.Function('tail_ok', Z, z3.BoolSort())
class BadShape(Unit):
  name = 'validation of enclosure axes'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic._validate_taylor_enclosure', 'enclosure_arithmetic.TaylorEnclosureArithmetic.__init__',
               'enclosure_arithmetic.TaylorEnclosureArithmetic.multiply', 'enclosure_arithmetic.TaylorEnclosureArithmetic.power']
  assumptions = ['shape comparison is elementwise tuple equality']
  def make_world(self):
    w = World(); self.m = w.get('autobound.enclosure_arithmetic')
    self.m.interval_arithmetic.IntervalArithmetic = self.IA
    return w
  class Sh:
    def __init__(self, k): self.k = k
    def __vf_len__(self): return SInt(eng().unit.ND(self.k))
    def __getitem__(self, s):
      if not isinstance(s, slice) or s.stop is not None or s.step is not None: raise EngineLimit('shape index')
      return BadShape.Tail(self.k, iv(s.start))
  class Tail:
    def __init__(self, k, start): self.k, self.start = k, start
    def __eq__(self, o):
      u, e = eng().unit, eng()
      if not isinstance(o, XShapeRep): raise EngineLimit('shape comparison')
      nd, want = u.ND(self.k), o.n * u.xnd
      st = If(self.start < 0, If(nd + self.start < 0, 0, nd + self.start), If(self.start > nd, nd, self.start))
      n = nd - st                                   # number of axes kept by the slice
      eq = e.fresh_bool('eq')
      e.axiom(Implies(n != want, Not(eq)))          # tuples of different lengths differ
      e.axiom(Implies(And(n == want, o.n == self.k), eq == And(nd >= self.k * u.xnd, TAILOK(self.k))))
      e.axiom(Implies(And(n == want, want == 0), eq))
      return SBool(eq)
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
  class IA:
    def __init__(self, np_like): pass
    def as_interval(self, a): return a
    def shape(self, a):
      if isinstance(a, Disp): return XShape()
      return BadShape.Sh(a)
    def negative(self, a): raise EngineLimit('x')
  class Seq(rt.SymIter):
    def __init__(self, n): self.n = n
    def length(self): return self.n
    def at(self, k): return BadShape.El(S(k))
    def __getitem__(self, i): return self.at(iv(i))
  def state_templates(self, loop, st):
    if loop.n is not None: yield 'no bad coefficient so far', lambda s, i: Implies(self.J < i, self.ok(self.J))
  def ok(self, k): return And(self.ND(k) >= k * self.xnd, Or(k * self.xnd == 0, TAILOK(k)))
  def xnd_val(self): return SInt(self.xnd)
  def lemmas(self, pc, goal): return [self.J * self.xnd >= 0]
  def run(self, e):
    self.ND = z3.Function('ndim', Z, Z)
    self.xnd = e.fresh_int('x_ndim'); e.assume(self.xnd >= 0)
    self.J = e.fresh_int('J'); n = e.fresh_int('n'); e.assume(And(self.J >= 0, self.J < n))
    e.axiom(self.ND(self.J) >= 0)
    tr = Disp(z3.BoolVal(True))
    class NPS:
      @staticmethod
      def shape(x): return XShape()
      @staticmethod
      def ndim(x): return SInt(self.xnd)
    ar = self.m.TaylorEnclosureArithmetic(2, tr, NPS)
    s = rt_seq = BadShape.Seq(n)
    s.at = lambda k: S(k)
    class V(BadShape.IA):
      def shape(_, a):
        if isinstance(a, Disp): return XShape()
        e.axiom(self.ND(a) >= 0); e.axiom(a * self.xnd >= 0)
        return BadShape.Sh(a)
    ar.set_arithmetic = V(None)
    st, r = call_contract(e, '_validate_taylor_enclosure', lambda: ar._validate_taylor_enclosure(s), raises=(ValueError,))
    if st == 'raise': e.cover('refused'); return
    e.prove('a coefficient whose last axes are not those of a power of x is refused', self.ok(self.J))
    e.cover('accepted')
class BadInit(Unit):
  name = 'initialiser of the enclosure arithmetic'
  functions = ['enclosure_arithmetic.TaylorEnclosureArithmetic.__init__']
  def make_world(self):
    w = World(); self.m = w.get('autobound.enclosure_arithmetic'); self.m.interval_arithmetic.IntervalArithmetic = BadShape.IA; return w
  def run(self, e):
    same = e.fresh_bool('same_shape')
    class Shp:
      def __ne__(s, o): return SBool(Not(same))
      def __eq__(s, o): return SBool(same)
    class NPS:
      @staticmethod
      def shape(x): return Shp()
    d = [2, 0, 1.0, 2.5, '1', None][e.choose(6)]
    st, r = call_contract(e, '__init__', lambda: self.m.TaylorEnclosureArithmetic(d, (1, 2), NPS), raises=(ValueError,))
    if st == 'raise': e.prove('only mismatched end points or a non-integer degree are refused', Or(Not(same), z3.BoolVal(not isinstance(d, int)))); e.cover('refused'); return
    e.prove('end points of different shapes are refused', same)
    e.prove('a degree that is not an int is refused', z3.BoolVal(isinstance(d, int)))
