"""C15, C16: rules for JAX primitives (autobound/jax/jax_bound.py: _pushforward_funs and what it uses)."""
import types as _pytypes
import z3
from ..core import *
from .. import rt
from ..load import World
from ..m1 import A, L, NP1
from ..seq import Seq
from ..unit import Unit, call_contract
from . import bound as Bd
from .bound import Arr, BUnit, ObjList, ObjSeq, everyL, objview, new_obj, F, TokPrim, KINDS

Z, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
And, Or, Not, Implies, If, Fn, S = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Function, z3.simplify
I = z3.IntVal

# ---------------------------------------------------------------- tuples of integers
class IntSeq(Seq):
  """A tuple of integers of symbolic length; elem is a function on positions."""
  def __init__(self, n, elem): self.n, self.elem = S(n), elem
  def at(self, k): return SInt(S(self.elem(k)))
  @staticmethod
  def lift(x):
    if isinstance(x, IntSeq): return x
    if isinstance(x, rt.SymRange): return IntSeq(x.length(), lambda k: iv(x.at(k)))
    if isinstance(x, (tuple, list)):
      xs = [iv(v) for v in x]
      def el(k):
        r = xs[-1] if xs else I(0)
        for j in range(len(xs) - 2, -1, -1): r = If(k == j, xs[j], r)
        return r
      return IntSeq(I(len(xs)), el)
    if isinstance(x, Seq): return IntSeq(x.length(), lambda k: iv(x.at(k)))
    if isinstance(x, rt.SymChain):
      r = IntSeq.lift(())
      for p in x.parts: r = r + IntSeq.lift(p)
      return r
    if isinstance(x, rt.ConcSeq): return IntSeq.lift(x.items)
    if isinstance(x, rt.VList) and x._sym() and isinstance(x.model, rt.View): return IntSeq.lift(x.model.seq)
    raise EngineLimit('tuple of integers')
  def __add__(self, o):
    o = IntSeq.lift(o); a = self
    return IntSeq(a.n + o.n, lambda k: If(k < a.n, a.elem(k), o.elem(k - a.n)))
  def __radd__(self, o): return IntSeq.lift(o) + self
  def __mul__(self, i):
    i = iv(i); a = self
    if eng().branch(a.n == 0): return IntSeq(I(0), lambda k: I(0))
    if eng().branch(a.n == 1): return IntSeq(If(i > 0, i, 0), lambda k: a.elem(I(0)))
    m = eng().fresh_int('mod')
    return IntSeq(If(i > 0, i * a.n, 0), lambda k: a.elem(k % a.n))
  __rmul__ = __mul__
  def slice(self, s):
    w = Seq.slice(self, s); a = self; lo = S(self._lo(s))
    return IntSeq(w.length(), lambda k: a.elem(k + lo))
  def _lo(self, s):
    if s.start is None: return I(0)
    v, n = iv(s.start), self.n
    c = conc_int(v)
    v = (n + c if c < 0 else v) if c is not None else If(v < 0, n + v, v)
    return If(v < 0, 0, If(v > n, n, v))
  def _eq(self, o):
    o = IntSeq.lift(o); e = eng(); b = e.fresh_bool('tuples_equal'); d = e.fresh_int('difference')
    for k in [d] + list(e.unit.skolems): e.axiom(Implies(b, And(self.n == o.n, Implies(And(k >= 0, k < self.n), self.elem(k) == o.elem(k)))))
    e.axiom(Implies(Not(b), Or(self.n != o.n, And(d >= 0, d < self.n, self.elem(d) != o.elem(d)))))
    return b
  def __eq__(self, o): return SBool(self._eq(o)) if isinstance(o, (Seq, tuple, list)) else False
  def __ne__(self, o): return SBool(Not(self._eq(o))) if isinstance(o, (Seq, tuple, list)) else True
  __hash__ = None
  def __bool__(self): return eng().branch(self.n > 0)
  def __vf_len__(self): return SInt(self.n)
def same_at(a, b, j):
  """The tuples agree in length and at position j."""
  a, b = IntSeq.lift(a), IntSeq.lift(b)
  return And(a.n == b.n, Implies(And(j >= 0, j < a.n), a.elem(j) == b.elem(j)))

class CArr(Arr):
  """Coefficient k of an enclosure of a variable (one end of it, if it is an interval)."""
  def __init__(self, e, k, stage=0): Arr.__init__(self, e); self.k, self.stage = k, stage
  @property
  def shape(self):
    if self.stage: raise EngineLimit('shape of a result')
    return eng().unit.coef_shape(self.k)
  @property
  def ndim(self): return SInt(self.shape.n)
class CoefSeq(Seq):
  """An enclosure with any number of coefficients."""
  def __init__(self, n, cv, lv, hv, ivf): self.n, self.cv, self.lv, self.hv, self.ivf = n, cv, lv, hv, ivf
  def at(self, k):
    k = S(k)
    if eng().branch(self.ivf(k)): return (CArr(self.lv(k), k), CArr(self.hv(k), k))
    return CArr(self.cv(k), k)
def coef_term(x):
  if isinstance(x, tuple):
    if len(x) != 2: raise EngineLimit('interval')
    return new_obj(IV0=z3.BoolVal(True), L0=L(x[0]).r(), H0=L(x[1]).r())
  return new_obj(IV0=z3.BoolVal(False), C0=L(x).r())
class CoefList(ObjList):
  """Model of the list of coefficients under construction."""
  def _kind(self, x): 
    if not isinstance(x, (A, tuple)) or isinstance(x, tuple) and not all(isinstance(y, A) for y in x): raise EngineLimit('coefficient')
  def append(self, x):
    t = coef_term(x); self.arr = z3.Store(self.arr, self.n, t); self.n = S(self.n + 1)
  def store(self, k, x): self.arr = z3.Store(self.arr, k, coef_term(x))
  def copy(self): return CoefList(self.n, self.arr, 'coef', self.facts)
  def read(self, k):
    t = self.term(S(k))
    return (Arr(F.L0(t)), Arr(F.H0(t))) if eng().branch(F.IV0(t)) else Arr(F.C0(t))

class RUnit(BUnit):
  """Common parts: an enclosure of symbolic length, shapes as tuples of symbolic length."""
  skolems = ()
  tr = None
  xnd_cases = 2
  def start_path(self, e):
    self.J = z3.Int('J'); self.K = z3.Int('K'); self.skolems = (self.J,)
    e.assume(self.J >= 0)
    self.xnd = z3.Int('x_ndim'); e.assume(And(self.xnd >= 0, self.xnd <= 1))
    self.xshape = IntSeq(self.xnd, Fn('x_shape', Z, Z))
    n = lambda s: self.nonneg(e, s)
    self.opshape = IntSeq(n('operand_ndim'), Fn('operand_shape', Z, Z)); self.outshape = IntSeq(n('result_ndim'), Fn('result_shape', Z, Z))
    self.n = z3.Int('n_coefs'); e.assume(self.n >= 1)
    self.enc = CoefSeq(self.n, Fn('c', Z, R), Fn('l', Z, R), Fn('h', Z, R), Fn('is_interval', Z, B))
  def nonneg(self, e, s):
    v = z3.Int(s); e.assume(v >= 0); return v
  def xdims(self, k): return IntSeq(k * self.xnd, lambda j: self.xshape.elem(I(0)))
  def coef_shape(self, k): return self.opshape + self.xdims(k)
  def to_tuple(self, x): return IntSeq.lift(x)
  def to_list(self, x): return IntSeq.lift(x)
  def to_set(self, x):
    x = IntSeq.lift(x); e = eng()
    return SetOf(x)
  def list_model(self, v, name, loop):
    m = CoefList(I(0), z3.Const('list0', z3.ArraySort(Z, Bd.ObjS)), 'coef')
    for x in list.__iter__(v): m.append(x)
    return m
  def templates(self, loop, name, v):
    if rt.kind(v) == 'list':
      yield 'length', lambda x, i: self.view(x).n == i
      yield 'whole length', lambda x, i: self.view(x).n == loop.n
      yield 'each coefficient', everyC(lambda t, j: self.coef_ok(t, j))
    else: yield from Unit.templates(self, loop, name, v)
  def view(self, x):
    if isinstance(x, rt.VList) and x._sym(): return x.model
    m = CoefList(I(0), z3.Const('list0', z3.ArraySort(Z, Bd.ObjS)), 'coef')
    for y in (list.__iter__(x) if isinstance(x, list) else x): m.append(y)
    return m
  def coef_ok(self, t, j):
    """Default: the coefficients are the coefficients of the operand."""
    f = self.enc
    return And(F.IV0(t) == f.ivf(j), If(f.ivf(j), And(F.L0(t) == self.out(f.lv(j)), F.H0(t) == self.out(f.hv(j))), F.C0(t) == self.out(f.cv(j))))
  def out(self, v): return v
  def check_result(self, e, name, r):
    m = r.m if isinstance(r, ObjSeq) else self.view(r)
    e.prove(f'{name}: as many coefficients as the operand', m.n == self.n)
    e.assume(And(self.K >= 0, self.K < self.n))
    e.prove(f'{name}: each coefficient of the result comes from the same coefficient of the operand', self.coef_ok(m.term(self.K), self.K))
  def interm(self, enc=None, tr=None): return self.jb._IntermediateEnclosure(enclosure=enc if enc is not None else self.enc, trust_region=tr)
class everyC:
  def __init__(self, f): self.f = f
  def __call__(self, x, i):
    m = eng().unit.view(x); j = eng().fresh_int('j'); t = m.term(j)
    return Implies(And(j >= 0, j < m.n), self.f(t, j))
  def assume(self, x, i): x.model.facts.append((x.model.copy(), self.f))
class SetOf:
  """set(x): its size is that of x if all elements are distinct."""
  def __init__(self, x): self.x = x
  def __vf_len__(self):
    e = eng(); x = self.x; i, j = e.fresh_int('i'), e.fresh_int('j')
    if any(x is d for d in getattr(e.unit, 'distinct', ())): return SInt(x.n)
    r = And(i >= 0, i < x.n, j >= 0, j < x.n, i != j)
    if e.valid(Implies(r, x.elem(i) != x.elem(j)))[0] == 'proved': return SInt(x.n)
    n = e.fresh_int('size'); e.assume(And(n >= 0, n <= x.n)); return SInt(n)

class SetAr:
  def __init__(self, u): self.u = u
  def shape(self, a):
    if a is self.u.tr: return self.u.xshape
    if isinstance(a, tuple): a = a[0]
    if isinstance(a, CArr): return a.shape
    raise EngineLimit('shape')
  ndim = lambda self, a: SInt(self.shape(a).n)

# ---------------------------------------------------------------- axes of coefficients
class Validate(RUnit):
  name = 'validation of the axes of a result'
  functions = ['jax_bound._validate_taylor_enclosure']
  assumptions = ['jnp.shape(a) is the shape of a']
  def start_path(self, e):
    RUnit.start_path(self, e)
    self.nd, self.shp = Fn('ndim', Z, Z), Fn('shape', Z, Z, Z)
  def coef_shape(self, k):
    eng().axiom(And(self.nd(k) >= 0, k * self.xnd >= 0)); return IntSeq(self.nd(k), lambda j: self.shp(k, j))
  def good(self, k, j):
    w = k * self.xnd
    return And(self.nd(k) >= w, Implies(And(j >= 0, j < w), self.shp(k, self.nd(k) - w + j) == self.xshape.elem(I(0))))
  def state_templates(self, loop, st): yield 'coefficients so far', lambda s, i: Implies(self.K < i, self.good(self.K, self.J))
  def run(self, e):
    e.assume(And(self.K >= 0, self.K < self.n)); e.branch(self.xnd == 0)
    self.jax.numpy.shape = staticmethod(lambda a: SetAr(self).shape(a))
    try: st, r = call_contract(e, '_validate_taylor_enclosure', lambda: self.jb._validate_taylor_enclosure(self.enc, self.xshape), raises=(ValueError,))
    finally: del self.jax.numpy.shape
    if st == 'raise': e.cover('refused'); return
    e.prove('_validate_taylor_enclosure: accepts only coefficients that end with the axes of the power of x', self.good(self.K, self.J))
    e.cover('accepted')

class BroadcastTE(RUnit):
  name = 'broadcasting of coefficients to the shape of the variable'
  functions = ['jax_bound._broadcast_taylor_enclosure']
  assumptions = ['jnp.broadcast_to adds leading axes and stretches axes of length one']
  def broadcast_to(self, array, shape):
    a = array
    e = eng()
    if not isinstance(a, CArr): raise EngineLimit('coefficient')
    e.prove('_broadcast_taylor_enclosure: coefficient k gets the axes of the variable followed by those of the k-th power of x', same_at(shape, self.outshape + self.xdims(a.k), self.J))
    return CArr(a.e, a.k, 1)
  def run(self, e):
    e.branch(self.xnd == 0)
    self.jax.numpy.broadcast_to = staticmethod(self.broadcast_to)
    try: st, r = call_contract(e, '_broadcast_taylor_enclosure', lambda: self.jb._broadcast_taylor_enclosure(self.enc, self.outshape, self.xshape))
    finally: del self.jax.numpy.broadcast_to
    self.check_result(e, '_broadcast_taylor_enclosure', r); e.cover('done')

class RuleUnit(RUnit):
  """A rule is taken from the table built by _pushforward_funs."""
  def arith(self):
    u = self
    self.tr = object()
    class Ar:
      trust_region = u.tr
      set_arithmetic = SetAr(u)
      np_like = Bd.JNP
      def arbitrary_bilinear(s, a, b, f): return u.bilinear(a, b, f)
      def get_elementwise_fun(s, g): return lambda *a, **k: u.elementwise(g, *a, **k)
      def __getattr__(s, n):
        if n.startswith('__') or n not in ('add', 'subtract', 'multiply', 'divide', 'negative', 'power'): raise AttributeError(n)
        return lambda *a: u.op(n, *a)
    return Ar()
  def table(self): return self.jb._pushforward_funs(self.arith())
  def rule(self, name):
    t = self.table()
    for p, f in t.items():
      if pname(p) == name: return p, f
    return None, None
  def bilinear(self, *a): raise EngineLimit('bilinear')
  def elementwise(self, *a, **k): raise EngineLimit('elementwise')
  def op(self, *a): raise EngineLimit('operation')
def pname(p): return str(p.t) if isinstance(p, Bd.PrimT) else p.name

class BroadcastInDim(RuleUnit):
  name = 'rule for broadcast_in_dim'
  functions = ['jax_bound._broadcast_in_dim_pushforward_fun', 'jax_bound._pushforward_funs']
  assumptions = ['lax.broadcast_in_dim places operand axis i at result axis broadcast_dimensions[i]', 'the operand has the shape recorded for it (postcondition of _broadcast_taylor_enclosure)']
  def broadcast_to(self, array, shape):
    a = array
    if not isinstance(a, CArr) or a.stage > 1: raise EngineLimit('coefficient')
    eng().prove('broadcast_in_dim: coefficients keep their axes', same_at(shape, self.opshape + self.xdims(a.k), self.J)); return CArr(a.e, a.k)
  def bid(self, operand, shape, broadcast_dimensions, *rest, **kw):
    e = eng(); a, dims = operand, broadcast_dimensions
    if not isinstance(a, CArr) or a.stage: raise EngineLimit('coefficient')
    dims = IntSeq.lift(dims)
    e.prove('broadcast_in_dim: coefficient k gets the axes of the result followed by those of the k-th power of x', same_at(shape, self.outshape + self.xdims(a.k), self.J))
    bd = self.bd; want = bd + IntSeq(a.k * self.xnd, lambda j: self.outshape.n + j)
    e.prove('broadcast_in_dim: axes of the operand go where the primitive puts them, axes of x stay last', same_at(dims, want, self.J))
    return CArr(a.e, a.k, 2)
  def run(self, e):
    self.bd = IntSeq(self.opshape.n, Fn('broadcast_dimensions', Z, Z)); e.branch(self.xnd == 0)
    j = self.jax
    j.numpy.broadcast_to = staticmethod(self.broadcast_to); j.lax.broadcast_in_dim = self.bid
    p, f = self.rule('broadcast_in_dim_p')
    if f is None: e.cover('no rule'); return
    st, r = call_contract(e, 'broadcast_in_dim', lambda: f(self.interm(), shape=self.outshape, broadcast_dimensions=self.bd, sharding=None))
    self.check_result(e, 'broadcast_in_dim', r); e.cover('done')

class NArr:
  """An array of which the number of axes and their roles matter."""
  __vf__ = True
  def __init__(self, n, role, shape=None): self.n, self.role, self._shape = n, role, shape
  @property
  def ndim(self): return SInt(self.n)
  @property
  def shape(self): return IntSeq(self.n, Fn(f'shape_{self.role}', Z, Z)) if self._shape is None else self._shape
  def __vf_isinstance__(self, cls): return False
class DotGeneral(RuleUnit):
  name = 'rule for dot_general'
  functions = ['jax_bound._dot_general_pushforward_fun', 'jax_bound._pushforward_funs']
  assumptions = ['dot_general returns the batch axes, then the remaining axes of the left operand in order, then those of the right operand', 'dimension numbers refer to distinct axes of the operands',
                 'arbitrary_bilinear meets its contract (C07)']
  def start_path(self, e):
    RUnit.start_path(self, e)
    nn = lambda s: self.nonneg(e, s)
    self.nb, self.nc, self.fl, self.fr, self.p, self.q = [nn(s) for s in ('n_batch', 'n_contracting', 'free_left', 'free_right', 'p', 'q')]
    sq = lambda s, n: IntSeq(n, Fn(s, Z, Z))
    self.dn = tuple(tuple(sq(f'{s}_{t}', n) for s in ('left', 'right')) for t, n in (('contracting', self.nc), ('batch', self.nb)))
    self.distinct = [x for y in self.dn for x in y]
    self.params = dict(dimension_numbers=self.dn, precision='precision', preferred_element_type='element type', out_sharding='sharding')
  def bilinear(self, a, b, f): self.got = (a, b, f); self.result = object(); return self.result
  def bind(self, a, b, **kw):
    e = eng()
    e.prove('dot_general: operands are passed in order', z3.BoolVal(a is self.a and b is self.b))
    e.prove('dot_general: parameters are passed on', z3.BoolVal(set(kw) == set(self.params) and all(kw[k] is self.params[k] for k in kw)))
    self.calls += 1
    return NArr(S(self.nb + self.fl + self.p + self.fr + self.q), 'product')
  def transpose(self, x, axes=None):
    e = eng()
    if not isinstance(x, NArr) or x.role != 'product' or axes is None: raise EngineLimit('transpose')
    ax = IntSeq.lift(axes); J = self.J; nb, fl, fr, p, q = self.nb, self.fl, self.fr, self.p, self.q
    n = nb + fl + p + fr + q
    e.prove('dot_general: all axes of the product are kept', ax.n == n)
    want = If(J < nb + fl, J, If(J < nb + fl + fr, J + p, If(J < nb + fl + fr + p, J - fr, J)))
    e.prove('dot_general: axes of the product first, then those of x of the left operand, then those of the right operand', Implies(J < n, ax.elem(J) == want))
    return NArr(n, 'ordered')
  def run(self, e):
    self.calls = 0
    self.jax.numpy.transpose = staticmethod(self.transpose)
    p, f = self.rule('dot_general_p')
    if f is None: e.cover('no rule'); return
    p.__class__.bind = property(lambda s: self.bind if pname(s) == 'dot_general_p' else None)
    ea, eb = object(), object()
    st, r = call_contract(e, 'dot_general', lambda: f(self.interm(ea), self.interm(eb), **self.params))
    e.prove('dot_general: the bilinear combination of the left and the right enclosure', z3.BoolVal(r is getattr(self, 'result', None) and self.got[0] is ea and self.got[1] is eb))
    self.a, self.b = NArr(S(self.nb + self.nc + self.fl + self.p), 'left'), NArr(S(self.nb + self.nc + self.fr + self.q), 'right')
    st, r = call_contract(e, 'dot_general on coefficients', lambda: self.got[2](self.a, self.b, SInt(self.p), SInt(self.q)))
    noswap = Or(self.p == 0, self.fr == 0)
    ok = isinstance(r, NArr) and (r.role == 'ordered' or r.role == 'product')
    if not ok: e.fail('dot_general: the product of the coefficients')
    if r.role == 'product': e.prove('dot_general: axes of the product first, then those of x of the left operand, then those of the right operand', noswap)
    e.cover('done')

class Conv(RuleUnit):
  name = 'rule for conv_general_dilated'
  functions = ['jax_bound._conv_general_dilated_pushforward_fun', 'jax_bound._pushforward_funs']
  assumptions = ['conv_general_dilated refuses operands whose rank differs from that of its dimension numbers', 'arbitrary_bilinear meets its contract (C07)']
  bilinear = DotGeneral.bilinear
  def bind(self, a, b, **kw):
    e = eng()
    if not isinstance(a, NArr) or not isinstance(b, NArr): raise EngineLimit('operand')
    if not e.branch(And(a.n == self.rank, b.n == self.rank)): raise TypeError('rank of an operand')
    self.bound.append((a, b, kw))
    return NArr(self.rank, 'product')
  def transpose(self, x, axes=None):
    if not isinstance(x, NArr): raise EngineLimit('transpose')
    return NArr(x.n, x.role + ' transposed')
  def reshape(self, x, shape):
    if not isinstance(x, NArr): raise EngineLimit('reshape')
    return NArr(IntSeq.lift(shape).n, x.role + ' reshaped')
  def run(self, e):
    self.rank = self.nonneg(e, 'rank'); p, q = self.nonneg(e, 'p'), self.nonneg(e, 'q')
    e.assume(self.rank >= 2)
    self.bound = []
    self.jax.numpy.transpose, self.jax.numpy.reshape = staticmethod(self.transpose), staticmethod(self.reshape)
    pr, f = self.rule('conv_general_dilated_p')
    if f is None: e.cover('no rule'); return
    pr.__class__.bind = property(lambda s: self.bind if pname(s) == 'conv_general_dilated_p' else None)
    params = dict(window_strides='w', padding='p', dimension_numbers='d')
    ea, eb = object(), object()
    st, r = call_contract(e, 'conv_general_dilated', lambda: f(self.interm(ea), self.interm(eb), **params))
    e.prove('conv_general_dilated: the bilinear combination of the left and the right enclosure', z3.BoolVal(r is getattr(self, 'result', None) and self.got[0] is ea and self.got[1] is eb))
    a, b = NArr(S(self.rank + p), 'left'), NArr(S(self.rank + q), 'right')
    st, r = call_contract(e, 'conv_general_dilated on coefficients', lambda: self.got[2](a, b, SInt(p), SInt(q)), raises=(NotImplementedError, TypeError, ValueError))
    if st == 'raise':
      e.prove('conv_general_dilated: coefficients without axes of x are not refused', Or(p > 0, q > 0)); e.cover('refused'); return
    e.prove('conv_general_dilated: coefficients with axes of x are refused', And(p == 0, q == 0))
    ok = len(self.bound) == 1 and self.bound[0][0] is a and self.bound[0][1] is b and self.bound[0][2] == params and isinstance(r, NArr) and r.role == 'product'
    e.prove('conv_general_dilated: applies the primitive to the coefficients', z3.BoolVal(ok)); e.cover('done')

# ---------------------------------------------------------------- primitives applied to each coefficient
LINEAR = {'convert_element_type_p': ('new_dtype', 'weak_type', 'sharding'), 'reshape_p': ('new_sizes', 'dimensions', 'sharding'), 'reduce_sum_p': ('axes', 'out_sharding'),
          'reduce_window_sum_p': ('window_dimensions', 'window_strides', 'padding', 'base_dilation', 'window_dilation'), 'squeeze_p': ('dimensions',), 'transpose_p': ('permutation',),
          'copy_p': (), 'rev_p': ('dimensions',), 'slice_p': ('start_indices', 'limit_indices', 'strides'), 'cumsum_p': ('axis', 'reverse')}
INEX, LIN = Fn('inexact', Z, B), Fn('linear', R, R)
class DtTok:
  """An element type; all that matters is whether it is inexact."""
  def __init__(self, b): self.b = b
class PassThru(RuleUnit):
  name = 'primitives applied to each coefficient'
  functions = ['jax_bound._pass_thru_pushforward_fun', 'enclosure_arithmetic.map_over_enclosure', 'jax_bound._pushforward_funs']
  assumptions = ['reshape, reduce_sum, reduce_window_sum, squeeze, transpose and conversion between inexact types are linear and monotone; their axes are counted from the first and a number of axes or of elements that does not fit is refused',
                 'coefficients of one enclosure have one element type']
  def out(self, v): return LIN(v) if self.lin else v
  def run(self, e):
    j = self.jax
    t = self.table()
    names = sorted(pname(p) for p in t if pname(p) in LINEAR)
    c = e.choose(max(1, len(names)))
    if not names: e.cover('none'); return
    nm = names[c]; p, f = self.rule(nm)
    inx, newx = z3.Bool('operand_is_inexact'), z3.Bool('target_is_inexact')
    j.numpy.result_type = staticmethod(lambda x: DtTok(inx))
    j.numpy.inexact = 'inexact'; j.numpy.floating = 'floating'
    j.numpy.issubdtype = staticmethod(lambda d, k: SBool(d.b) if isinstance(d, DtTok) and k == 'inexact' else (_ for _ in ()).throw(EngineLimit('element type')))
    params = {k: object() for k in LINEAR[nm]}
    if nm == 'convert_element_type_p': params['new_dtype'] = DtTok(newx)
    self.lin = True
    def bind(x, **kw):
      if not isinstance(x, CArr) or x.stage: raise EngineLimit('operand')
      e.prove(f'{nm}: the parameters of the equation', z3.BoolVal(set(kw) == set(params) and all(kw[k] is params[k] for k in kw)))
      return CArr(LIN(x.e), x.k, 1)
    p.__class__.bind = property(lambda s: bind if pname(s) == nm else None)
    st, r = call_contract(e, nm, lambda: f(self.interm(), **params), raises=(NotImplementedError,))
    if st == 'raise':
      e.prove(f'{nm}: only a conversion that rounds is refused', And(z3.BoolVal(nm == 'convert_element_type_p'), inx, Not(newx))); e.cover('refused'); return
    if nm == 'convert_element_type_p': e.prove(f'{nm}: a conversion that rounds is refused', Not(And(inx, Not(newx))))
    self.check_result(e, nm, r); e.cover(nm)

# ---------------------------------------------------------------- the table
POW = Fn('power', R, R, R)
class Tok:
  """An enclosure in a rule for one or two operands."""
  def __init__(self, v, n=None): self.v = v
  def __vf_len__(self): return SInt(eng().fresh_int('len'))
SPECS = {'add_p': (2, lambda x, y: x + y), 'sub_p': (2, lambda x, y: x - y), 'mul_p': (2, lambda x, y: x * y), 'div_p': (2, lambda x, y: x / y), 'neg_p': (1, lambda x: -x),
         'square_p': (1, lambda x: x * x)}
ELEM = {'abs_p': ('abs',), 'cbrt_p': ('pow', 1/3), 'exp_p': ('exp',), 'log_p': ('log',), 'logistic_p': ('sigmoid',), 'rsqrt_p': ('pow', -.5), 'sqrt_p': ('pow', .5)}
NNF = {'sigmoid': ('sigmoid',), 'softplus': ('softplus',), 'swish': ('swish',), 'silu': ('swish',)}
class Rules(RuleUnit):
  name = 'table of rules'
  functions = ['jax_bound._pushforward_funs', 'jax_bound._elementwise_pushforward_fun', 'jax_bound._ELEMENTWISE_PRIMITIVE_ENCLOSURES', 'jax_bound._PASS_THRU_PRIMITIVES']
  assumptions = ['operations of the arithmetic and elementwise enclosures meet their contracts (C07-C11)', '1/3 stands for one third', 'division by zero is not considered']
  def make_world(self):
    j = Bd.bound_jax(self); self.jax = j
    class P(TokPrim):
      def __init__(s, name): TokPrim.__init__(s, name); s.bind = ('bind', s)
    j.extend.core.Primitive = P
    w = World({'jax': j, 'jax.extend': j.extend, 'jax.numpy': Bd.JNP, 'numpy': NP1})
    pe = w.get('autobound.primitive_enclosures')
    for n in ('abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'): setattr(pe, f'{n}_enclosure', self.recorder(n))
    pe.pow_enclosure = lambda exponent, *a: ('pow', exponent) + a
    self.jb = w.get('autobound.jax.jax_bound')
    return w
  def recorder(self, n): return lambda *a: (n,) + a
  def op(self, n, *a):
    v = []
    for x in a[:1] if n == 'power' else a:
      if not isinstance(x, Tok): eng().fail(f'{n}: operands are enclosures')
      v.append(x.v)
    if n == 'power': return Tok(POW(v[0], rv(a[1]) if not isinstance(a[1], A) else L(a[1]).r()))
    return Tok({'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y, 'negative': lambda x: -x}[n](*v))
  def elementwise(self, g, enc, tr=None):
    e = eng(); self.seen.append((g, enc, tr)); t = Tok(e.fresh_real('f_of_x')); t.made = True; return t
  def run(self, e):
    jb = self.jb
    self.make_jaxpr = lambda f: lambda x, *a: _pytypes.SimpleNamespace(jaxpr=('jaxpr of', f))
    t = self.table(); keys = sorted(t, key=pname)
    c = e.choose(len(keys)); p = keys[c]; nm = pname(p); f = t[p]
    nnp = {}
    for rule in jb._JAXPR_REWRITE_RULES:
      r = rule()
      if isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, tuple) and x[0] == 'jaxpr of' for x in r) and isinstance(r[1][1], tuple): nnp[r[1][1][1]] = getattr(r[0][1], '__name__', None)
    x, y = z3.Real('x'), z3.Real('y'); ex, ey = Tok(x), Tok(y)
    ix, iy = self.interm(ex, tr=object()), self.interm(ey, tr=object())
    e.cover(nm)
    if nm in SPECS:
      k, spec = SPECS[nm]
      if nm == 'div_p': e.assume(y != 0)
      st, r = call_contract(e, nm, lambda: f(*(ix, iy)[:k]))
      if not isinstance(r, Tok): e.fail(f'{nm}: returns an enclosure')
      e.prove(f'{nm}: encloses the result of the primitive', r.v == spec(*(x, y)[:k]))
    elif nm == 'integer_pow_p':
      n = z3.Int('n'); st, r = call_contract(e, nm, lambda: f(ix, y=SInt(n)))
      if not isinstance(r, Tok): e.fail(f'{nm}: returns an enclosure')
      e.prove(f'{nm}: the power with the exponent of the equation', r.v == POW(x, z3.ToReal(n)))
    elif nm == 'pow_p':
      k = e.choose(4); v = z3.Real('exponent')
      enc = [(Arr(v),), ((Arr(v), Arr(z3.Real('upper'))),), (Arr(v), Arr(z3.Real('slope'))), (Arr(v), (Arr(z3.Real('slope')), Arr(z3.Real('slope1'))))][k]
      st, r = call_contract(e, nm, lambda: f(ix, self.interm(enc, tr=(Arr(v), Arr(v)))), raises=(NotImplementedError, ValueError, TypeError))
      if k: e.prove('pow_p: an exponent that is not constant is refused', z3.BoolVal(st == 'raise'))
      else:
        if st == 'raise': e.fail('pow_p: a constant exponent is not refused', str(r))
        if not isinstance(r, Tok): e.fail(f'{nm}: returns an enclosure')
        e.prove('pow_p: the power with that exponent', r.v == POW(x, v))
    elif nm in ELEM or p in nnp:
      want = ELEM.get(nm) or NNF.get(nnp[p])
      if want is None: e.fail(f'{nm}: a function with a known enclosure', str(nnp[p]))
      self.seen = []
      st, r = call_contract(e, nm, lambda: f(ix, accuracy=None))
      if len(self.seen) != 1 or not isinstance(r, Tok) or not hasattr(r, 'made'): e.fail(f'{nm}: applies an elementwise function to the enclosure')
      g, enc, tr = self.seen[0]
      e.prove(f'{nm}: applied to the enclosure of the operand', z3.BoolVal(enc is ex))
      e.prove(f'{nm}: the range passed on is that of the operand', z3.BoolVal(tr is None or tr is ix.trust_region))
      X, TR, D, NP = object(), object(), object(), object()
      st, q = call_contract(e, nm, lambda: g(X, TR, D, NP))
      ok = isinstance(q, tuple) and len(q) == len(want) + 4 and q[:len(want)] == want and q[-4] is X and q[-3] is TR and q[-2] is D and q[-1] is NP
      e.prove(f'{nm}: uses the enclosure of the same function', z3.BoolVal(ok), repr(q[:len(want)]) if isinstance(q, tuple) else repr(q))
    elif nm in LINEAR or nm in ('dot_general_p', 'conv_general_dilated_p', 'broadcast_in_dim_p'): pass       # units PassThru, DotGeneral, Conv, BroadcastInDim
    else: e.fail(f'{nm}: a primitive for which a rule is specified')
