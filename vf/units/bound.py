"""C01, C15, C16, C17: autobound/jax/jax_bound.py.

Variables, primitives, parameters and enclosures are uninterpreted; a fixed but arbitrary point of the trust
region and a fixed but arbitrary position of arrays are considered.  Numbers of equations, operands and results
are symbolic.
"""
import types as _pytypes
import z3
from ..core import *
from .. import rt
from ..load import World
from ..m1 import A, L, NP1
from ..seq import Seq
from ..unit import Unit, call_contract, captured, same_captured
from . import graph as G
from .graph import SymMap
from .jaxpr import (AtomS, ParS, PrimS, ShS, AvS, ISV, AV, SH, CNT, Atom, AtomSeq, EqnSeq, Var, Literal, Jaxpr, ClosedJaxpr, AbstractValue, Eqn, Term)

Z, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
And, Or, Not, Implies, If, Fn, S = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Function, z3.simplify
ObjS = z3.DeclareSort('Obj')
FIELDS = dict(T=R, NN=Z, IV0=B, C0=R, L0=R, H0=R, BLO=R, BHI=R, SHPOK=B, SHP=ShS, VLD=B, HASTR=B, LO=R, HI=R)
F = _pytypes.SimpleNamespace(**{k: Fn(k.lower(), ObjS, s) for k, s in FIELDS.items()})
VAL = Fn('value', AtomS, R)              # the true value of a variable at the point considered
# ghost: the ends of the range that the degree 0 rule gives for a variable, and whether it was computed by a rule
DLO, DHI, COMP = Fn('degree0_lo', AtomS, R), Fn('degree0_hi', AtomS, R), Fn('computed', AtomS, B)
KNOWN = Fn('has_rule', PrimS, B)
imin, imax = lambda a, b: If(a <= b, a, b), lambda a, b: If(a >= b, a, b)
ENCF = [k for k in FIELDS if k not in ('HASTR', 'LO', 'HI')]

class Arr(A):
  """The element of a whole array, whose shape may be known."""
  def __init__(self, e, shp=None): A.__init__(self, e); self.shp = shp
  @property
  def shape(self): return ShapeT(self.shp) if self.shp is not None else self._no()
  def _no(self): raise EngineLimit('shape of an array')
  def __vf_len__(self):
    e = eng(); n = e.fresh_int('len')
    if e.branch(e.fresh_bool('is_scalar')): raise TypeError('len() of unsized object')
    e.assume(n >= 0); return SInt(n)
  def __getitem__(self, i):
    return Arr(eng().fresh_real('part'))
  def __vf_isinstance__(self, cls): return False
  def __vf_float__(self): return SReal(self.r())
class ShapeT(Term):
  pass
class XArr(Arr):
  """The reference point x0."""
  @property
  def ndim(self): return SInt(eng().unit.xnd)
  @property
  def shape(self): return XShape()
class XShape:
  def __getitem__(self, i):
    if conc_int(iv(i)) != 0: raise EngineLimit('axis of x0')
    if not eng().branch(eng().unit.xnd >= 1): raise IndexError('tuple index out of range')
    return XDim()
  def __vf_len__(self): return SInt(eng().unit.xnd)
class XDim: pass
class Eye: 
  """The identity matrix over the axes of x0."""
  def __vf_isinstance__(self, cls): return False
class Enc:
  """A Taylor enclosure of which only the contract is known."""
  __vf__ = True
  def __init__(self, t):
    self.t = t; e = eng()
    e.axiom(And(F.NN(t) >= 1, Implies(F.NN(t) == 1, If(F.IV0(t), And(F.L0(t) <= F.T(t), F.T(t) <= F.H0(t)), F.C0(t) == F.T(t))), F.BLO(t) <= F.T(t), F.T(t) <= F.BHI(t)))
    e.axiom(Implies(F.NN(t) == 1, And(F.BLO(t) == If(F.IV0(t), F.L0(t), F.C0(t)), F.BHI(t) == If(F.IV0(t), F.H0(t), F.C0(t)))))
  def __vf_isinstance__(self, cls): return cls is tuple or isinstance(cls, tuple) and tuple in cls
  def __vf_len__(self): return SInt(F.NN(self.t))
  def __getitem__(self, i):
    e = eng(); i = iv(i)
    if conc_int(i) == -1:
      if not e.branch(F.NN(self.t) == 1): raise EngineLimit('last coefficient')
      i = z3.IntVal(0)
    if conc_int(i) != 0: raise EngineLimit('coefficient of an opaque enclosure')
    if e.branch(F.IV0(self.t)): return (Arr(F.L0(self.t)), Arr(F.H0(self.t)))
    return Arr(F.C0(self.t), F.SHP(self.t))
def valid(t, v): return If(F.NN(t) == 1, If(F.IV0(t), And(F.L0(t) <= v, v <= F.H0(t)), F.C0(t) == v), F.T(t) == v)
def shaped(t, a): return And(F.SHPOK(t), F.SHP(t) == SH(AV(a)))
def trok(t, v): return Implies(F.HASTR(t), And(F.LO(t) <= v, v <= F.HI(t)))
def narrow(t, src=None):
  s = t if src is None else src
  return Implies(And(F.HASTR(t), Or(F.NN(s) > 1, F.IV0(s))), And(F.LO(t) >= imin(F.BLO(s), F.C0(s)), F.HI(t) <= imax(F.BHI(s), F.C0(s))))
def narrow0(t, a): return Implies(And(F.HASTR(t), COMP(a)), And(F.LO(t) >= imin(DLO(a), F.C0(t)), F.HI(t) <= imax(DHI(a), F.C0(t))))

def new_obj(**fields):
  e = eng(); t = z3.Const(e.fresh_name('obj'), ObjS)
  e.axiom(And([z3.BoolVal(True)] + [getattr(F, k)(t) == v for k, v in fields.items()]))
  return t
def enc_term(x):
  """Term for an enclosure (opaque, or built by the code under verification)."""
  e = eng(); u = e.unit
  if isinstance(x, Enc): return x.t
  if isinstance(x, rt.VList) and not x._sym(): x = tuple(list.__iter__(x))
  if not isinstance(x, tuple) or not x: raise EngineLimit('enclosure')
  c = x[0]
  if isinstance(c, tuple):
    if len(c) != 2: raise EngineLimit('interval')
    lo, hi = L(c[0]).r(), L(c[1]).r(); f = dict(IV0=z3.BoolVal(True), L0=lo, H0=hi)
  else:
    lo = hi = L(c).r(); f = dict(IV0=z3.BoolVal(False), C0=lo)
    if isinstance(c, XArr): f.update(SHPOK=z3.BoolVal(True), SHP=u.shx)
    elif getattr(c, 'shp', None) is not None: f.update(SHPOK=z3.BoolVal(True), SHP=c.shp)
  if c is u.region: f.update(SHPOK=z3.BoolVal(True), SHP=u.shx)
  if len(x) == 1: return new_obj(NN=z3.IntVal(1), VLD=z3.BoolVal(True), BLO=lo, BHI=hi, **f)
  if len(x) == 2 and not isinstance(c, tuple):
    d = x[1]
    if isinstance(d, Eye): k = z3.RealVal(1)
    elif isinstance(d, tuple): raise EngineLimit('interval')
    else:
      k = L(d).r()
      if not e.branch(u.xnd == 0): f.update(SHPOK=z3.BoolVal(False)); k = e.fresh_real('contracted')
    ends = [lo + k * (L(r).r() - u.x0.r()) for r in u.region]
    return new_obj(NN=z3.IntVal(2), T=lo + k * u.dx, BLO=imin(*ends), BHI=imax(*ends), **f)
  raise EngineLimit('enclosure')
def interm_term(x):
  u = eng().unit
  if not isinstance(x, u.jb._IntermediateEnclosure): raise EngineLimit('intermediate')
  s = enc_term(x.enclosure); t = new_obj(**{k: getattr(F, k)(s) for k in ENCF})
  tr = x.trust_region
  if tr is None: eng().axiom(Not(F.HASTR(t)))
  else:
    if not isinstance(tr, tuple) or len(tr) != 2: raise EngineLimit('trust region')
    eng().axiom(And(F.HASTR(t), F.LO(t) == L(tr[0]).r(), F.HI(t) == L(tr[1]).r()))
  return t
def tr_term(x):
  if x is None: return new_obj(HASTR=z3.BoolVal(False))
  if not isinstance(x, tuple) or len(x) != 2: raise EngineLimit('trust region')
  return new_obj(HASTR=z3.BoolVal(True), LO=L(x[0]).r(), HI=L(x[1]).r())
KINDS = {'interm': interm_term, 'enc': enc_term, 'tr': tr_term, 'val': lambda x: new_obj(C0=L(x).r(), T=L(x).r(), **(dict(SHP=x.shp) if getattr(x, 'shp', None) is not None else {}))}
def kind_of(x):
  u = eng().unit
  if isinstance(x, u.jb._IntermediateEnclosure): return 'interm'
  if isinstance(x, Enc): return 'enc'
  if isinstance(x, A): return 'val'
  if x is None: return 'tr'
  if isinstance(x, tuple) and x:
    return 'enc' if isinstance(x[0], (tuple, Enc)) or len(x) == 1 else 'tr'
  raise EngineLimit(f'list element of type {type(x).__name__}')
def wrap(kind, t):
  e = eng(); u = e.unit
  tr = lambda: (Arr(F.LO(t)), Arr(F.HI(t))) if e.branch(F.HASTR(t)) else None
  if kind == 'interm': return u.jb._IntermediateEnclosure(enclosure=Enc(t), trust_region=tr())
  if kind == 'enc': return Enc(t)
  if kind == 'tr': return tr()
  return Arr(F.C0(t), F.SHP(t))

class ObjList:
  """Model of a list: its length and a term for every position."""
  def __init__(self, n, arr, kind, facts=(), learn=None): self.n, self.arr, self.kind, self.facts, self.learn = n, arr, kind, list(facts), learn
  def length(self): return self.n
  def copy(self): return ObjList(self.n, self.arr, self.kind, self.facts, self.learn)
  def havoc(self):
    e = eng(); self.n = e.fresh_int('len'); self.arr = z3.Const(e.fresh_name('list'), z3.ArraySort(Z, ObjS)); self.facts = []
    e.assume(self.n >= 0)
  def inst(self, k):
    for snap, f in self.facts: eng().axiom(Implies(And(k >= 0, k < snap.n), f(z3.Select(snap.arr, k), k)))
  def term(self, k): self.inst(k); return z3.Select(self.arr, k)
  def _kind(self, x):
    k = kind_of(x)
    if self.kind is None:
      self.kind = k; e = eng()
      if self.learn is not None and e.unit.protos.get(self.learn) != k: e.unit.protos[self.learn] = k; e.changed = e.changed or True
    elif self.kind != k: raise EngineLimit(f'list of {self.kind} gets {k}')
  def append(self, x):
    self._kind(x); t = KINDS[self.kind](x)
    self.arr = z3.Store(self.arr, self.n, t); self.n = S(self.n + 1)
  def store(self, k, x):
    self._kind(x); t = KINDS[self.kind](x); self.arr = z3.Store(self.arr, k, t)
  def read(self, k):
    k = S(k)
    if self.kind is None: raise EngineLimit('element of unknown type')
    return wrap(self.kind, self.term(k))
  def to_seq(self):
    m = self.copy(); return ObjSeq(m)
class ObjSeq(Seq):
  def __init__(self, m): self.m = m
  def length(self): return self.m.n
  def at(self, k): return self.m.read(S(k))
class everyL:
  """Invariant candidate for every element of a list."""
  def __init__(self, f): self.f = f
  def __call__(self, x, i):
    m = objview(x)
    if m is None: return None
    j = eng().fresh_int('j'); t = m.term(j)
    return Implies(And(j >= 0, j < m.n), self.f(t, j))
  def assume(self, x, i): x.model.facts.append((x.model.copy(), self.f))
def objview(x):
  if isinstance(x, rt.VList) and x._sym(): return x.model
  if isinstance(x, (rt.VList, tuple, list)):
    m = ObjList(z3.IntVal(0), z3.Const('list0', z3.ArraySort(Z, ObjS)), None)
    for v in (list.__iter__(x) if isinstance(x, list) else x): m.append(v)
    return m
  return None

class ObjMap(SymMap):
  """The environment: from variables to intermediate enclosures."""
  def __init__(self):
    SymMap.__init__(self, val=z3.Const('env0', z3.ArraySort(AtomS, ObjS)))
  def vf_havoc(self, loop):
    e = eng()
    self.dom = z3.Const(e.fresh_name('dom'), z3.ArraySort(AtomS, B)); self.val = z3.Const(e.fresh_name('env'), z3.ArraySort(AtomS, ObjS)); self.facts = []
  def key(self, u):
    eng().unit.stage = None; return SymMap.key(self, u)
  def __getitem__(self, u):
    t = self.key(u)
    if not eng().branch(z3.Select(self.dom, t)): raise KeyError('variable')
    return wrap('interm', S(z3.Select(self.val, t)))
  def get(self, u, d=None): return self[u] if u in self else d
  def copy(self):
    r = ObjMap.__new__(ObjMap); r.VarS = self.VarS; r.version = 0; r.dom, r.val, r.facts, r.M = self.dom, self.val, list(self.facts), None; return r
  def __setitem__(self, u, v):
    t = self.key(u); o = interm_term(v); self.version += 1
    eng().unit.on_store(u, v, o)
    self.dom, self.val = z3.Store(self.dom, t, z3.BoolVal(True)), z3.Store(self.val, t, o)

class PrimT(Term):
  @property
  def bind(self): return Bind(self)
  @property
  def multiple_results(self): return SBool(eng().fresh_bool('multiple_results'))
class Params:
  """The parameters of an equation (passed on as a whole)."""
  __vf_params__ = True
  def __init__(self, q): self.q = q
def operands(args):
  """Positional arguments as an ObjList-like view."""
  if len(args) == 1 and args[0][0]:
    x = args[0][1]
    if isinstance(x, ObjSeq): return x.m
    m = objview(x)
    if m is not None: return m
  elif not any(s for s, _ in args): return objview(tuple(x for _, x in args))
  raise EngineLimit('arguments')
def one_params(kws, eqn, what):
  e = eng()
  if len(kws) != 1 or kws[0][0] is not None or not isinstance(kws[0][1], Params): e.fail(f'{what}: gets exactly the parameters of the equation')
  e.prove(f'{what}: gets the parameters of the equation', kws[0][1].q == eqn)
class Bind:
  def __init__(self, p): self.p = p
  def __vf_call__(self, args, kws):
    e = eng(); u = e.unit; q = u.current(); f = u.JF
    m = operands(args); what = 'evaluation of a primitive on constants'
    one_params(kws, q, what)
    e.prove(f'{what}: the primitive of the equation', self.p.t == f['prim'](q))
    e.prove(f'{what}: all operands', m.n == f['ni'](q))
    j = e.fresh_int('j'); t = m.term(j)
    e.prove(f'{what}: each operand is the value of the variable', Implies(And(j >= 0, j < m.n), F.C0(t) == VAL(f['ei'](q, j))))
    no = f['no'](q)
    out = lambda k: Arr(VAL(f['eo'](q, k)), SH(AV(f['eo'](q, k))))
    if e.branch(no == 1): return out(z3.IntVal(0))
    return Seq(no, lambda k: out(S(k)))
class Rule:
  """The entry of the primitive table; its contract is C15."""
  def __init__(self, p, ar): self.p, self.ar = p, ar
  def __vf_call__(self, args, kws):
    e = eng(); u = e.unit; q = u.current(); f = u.JF
    what = 'degree 0 rule' if self.ar.deg0 else 'rule'
    m = operands(args); one_params(kws, q, what)
    e.prove(f'{what}: the primitive of the equation', self.p.t == f['prim'](q))
    e.prove(f'{what}: all operands', m.n == f['ni'](q))
    j = e.fresh_int('j'); t = m.term(j); a = f['ei'](q, j); inr = And(j >= 0, j < m.n)
    e.prove(f'{what}: precondition: each operand encloses the value of the variable', Implies(inr, valid(t, VAL(a))))
    e.prove(f'{what}: precondition: a trust region contains the value of the variable', Implies(inr, trok(t, VAL(a))))
    const = lambda s: And(F.NN(s) == 1, Not(F.IV0(s)))
    if self.ar.deg0:
      e.prove(f'{what}: precondition: operands are ranges', Implies(inr, F.NN(t) == 1))
      if u.operands is not None: e.prove(f'{what}: precondition: constants are passed as constants', Implies(And(inr, const(u.operands.term(j))), const(t)))
    else:
      e.prove(f'{what}: precondition: the first coefficients of the operands are numbers', Implies(inr, Not(F.IV0(t))))
      e.prove(f'{what}: precondition: coefficients have the axes of the variable and of x', Implies(inr, shaped(t, a)))
    no = f['no'](q)
    arr = z3.Const(e.fresh_name('results'), z3.ArraySort(Z, ObjS))
    deg0 = self.ar.deg0
    def fact(t, k):
      o = f['eo'](q, k)
      base = And(F.T(t) == VAL(o), F.NN(t) == 1 if deg0 else And(F.NN(t) >= 1, Not(F.IV0(t))), Not(F.HASTR(t)))
      if deg0 and u.prop: base = And(base, COMP(o), F.BLO(t) == DLO(o), F.BHI(t) == DHI(o), If(F.IV0(t), And(F.L0(t) == DLO(o), F.H0(t) == DHI(o)), And(F.C0(t) == DLO(o), F.C0(t) == DHI(o))))
      return base
    mo, m = m, ObjList(no, arr, 'enc')
    m.facts.append((m.copy(), fact))
    if not deg0 or not u.prop: u.results = m
    if not deg0 and u.prop: u.operands = mo
    u.stage = 'rule'
    e.cover(what)
    if e.branch(no == 1): return m.read(z3.IntVal(0))
    return ObjSeq(m)
class RuleTable:
  def __init__(self, ar): self.ar = ar
  def get(self, p, d=None):
    if not isinstance(p, PrimT): raise EngineLimit('primitive')
    return Rule(p, self.ar) if eng().branch(KNOWN(p.t)) else d
  def __getitem__(self, p):
    r = self.get(p)
    if r is None: raise KeyError(p)
    return r
  def __contains__(self, p): return self.get(p) is not None

class JNP(NP1):
  """jax.numpy"""
  ndarray = object
  @staticmethod
  def asarray(x, dtype=None):
    x = x if isinstance(x, A) else L(x)
    if dtype is None or dtype in (float, 'float', 'inexact'): return x
    # conversion to another type may drop the fraction
    return Arr(eng().fresh_real('converted'), getattr(x, 'shp', None))
  @staticmethod
  def result_type(*a): return 'float' if any(t in (float, 'float') for t in a if isinstance(t, (type, str))) else 'type of ' + '/'.join(str(type(t).__name__) for t in a)
  @staticmethod
  def shape(x): return x.shape
  @staticmethod
  def ndim(x): return x.ndim
  @staticmethod
  def minimum(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): raise TypeError('minimum requires ndarray or scalar arguments')
    return NP1.minimum(a, b)
  @staticmethod
  def maximum(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): raise TypeError('maximum requires ndarray or scalar arguments')
    return NP1.maximum(a, b)
  @staticmethod
  def eye(n):
    if isinstance(n, XDim): return Eye()
    raise EngineLimit('eye')
class Closed:
  def __init__(self, u, s, means): self.u, self.s, self.means = u, s, means
  @property
  def jaxpr(self): return JX(self.u, self.s, self, self.means)
  @property
  def consts(self): return Consts(self)
class Consts(Seq):
  def __init__(self, c): self.c = c
  def length(self): n = z3.Int(f'n_consts_{self.c.s}'); eng().axiom(n >= 0); return n
  def at(self, k):
    v = Fn(f'const_{self.c.s}', Z, R)(S(k)); return Arr(v, Fn(f'const_shape_{self.c.s}', Z, ShS)(S(k)))
class JX:
  """A Jaxpr that computes what the user's function computes, given the constants of its closed Jaxpr."""
  def __init__(self, u, s, closed, means):
    self.s, self.closed, self.means, self.u = s, closed, means, u
    e = eng()
    n = lambda g: z3.Int(f'n_{g}_{s}')
    f = self.f = dict(prim=Fn(f'prim_{s}', Z, PrimS), ei=Fn(f'ein_{s}', Z, Z, AtomS), eo=Fn(f'eout_{s}', Z, Z, AtomS), ni=Fn(f'nin_{s}', Z, Z), no=Fn(f'nout_{s}', Z, Z),
                      cv=Fn(f'constvar_{s}', Z, AtomS), iv=Fn(f'invar_{s}', Z, AtomS), ov=Fn(f'outvar_{s}', Z, AtomS), ne=n('eqns'), ncv=n('constvars'), niv=n('invars'), nov=n('outvars'))
    if u.jaxprs is not None: u.jaxprs.append(self)
    def lit(t): 
      e.axiom(Implies(Not(ISV(t)), LITV(t) == VAL(t)))
    def cax(k):
      if means: e.axiom(Implies(And(k >= 0, k < f['ncv']), And(ISV(f['cv'](k)), VAL(f['cv'](k)) == Fn(f'const_{closed.s}', Z, R)(k), SH(AV(f['cv'](k))) == Fn(f'const_shape_{closed.s}', Z, ShS)(k))))
    def iax(k):
      if means: e.axiom(Implies(k == 0, And(ISV(f['iv'](k)), VAL(f['iv'](k)) == u.xval, SH(AV(f['iv'](k))) == u.shx, Not(COMP(f['iv'](k))))))
    def oax(k):
      lit(f['ov'](k))
      if means: e.axiom(Implies(k == 0, VAL(f['ov'](k)) == u.fx))
    self.constvars = AtomSeq(f['ncv'], f['cv'], cax); self.invars = AtomSeq(f['niv'], f['iv'], iax); self.outvars = AtomSeq(f['nov'], f['ov'], oax)
    def eqn(k):
      e.axiom(And(f['ni'](k) >= 0, f['no'](k) >= 0))
      ins = AtomSeq(f['ni'](k), lambda i: f['ei'](k, i), lambda i: lit(f['ei'](k, i))); outs = AtomSeq(f['no'](k), lambda i: f['eo'](k, i), lambda i: e.axiom(Implies(And(i >= 0, i < f['no'](k)), ISV(f['eo'](k, i)))))
      return Eqn(primitive=PrimT(f['prim'](k)), params=Params(k), invars=ins, outvars=outs)
    self.eqns = JEqns(f['ne'], eqn, self); e.axiom(f['ne'] >= 0)
class JEqns(EqnSeq):
  def __init__(self, n, f, j): EqnSeq.__init__(self, n, f); self.j = j
  def at(self, k):
    self.j.u.JF = self.j.f; return EqnSeq.at(self, k)
LITV = Fn('literal_value', AtomS, R)
class TokPrim:
  def __init__(self, name): self.name = name
  def def_abstract_eval(self, f): self.abstract_eval = f
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return lambda *a, **k: None
  bind = None
def bound_jax(unit):
  ns = _pytypes.SimpleNamespace
  class HPrim(PrimT):
    __hash__ = object.__hash__
    def __eq__(self, o): return self is o if isinstance(o, HPrim) else Term.__eq__(self, o)
    def __ne__(self, o): return not self is o if isinstance(o, HPrim) else Term.__ne__(self, o)
  class Lax:
    def __init__(self): self.d = {}
    def __getattr__(self, n):
      if n.startswith('__'): raise AttributeError(n)
      if n.endswith('_p'): return self.d.setdefault(n, HPrim(z3.Const(n, PrimS)))
      raise EngineLimit(f'jax.lax.{n}')
  lax = Lax()
  def nnf(name):
    def f(x): raise EngineLimit(name)
    f.__name__ = name; return f
  core = ns(Var=Var, Literal=Literal, Jaxpr=Jaxpr, ClosedJaxpr=ClosedJaxpr, Primitive=TokPrim, primitives=ns(jit_p=HPrim(z3.Const('jit_p', PrimS))))
  jex = ns(core=core)
  jcore = ns(AbstractValue=AbstractValue, ShapedArray=lambda *a: None, new_jaxpr_eqn=None)
  return ns(core=jcore, extend=jex, lax=lax, nn=ns(sigmoid=nnf('sigmoid'), softplus=nnf('softplus'), swish=nnf('swish')), numpy=JNP, make_jaxpr=lambda f: unit.make_jaxpr(f))

class BUnit(Unit):
  key_sort = AtomS
  jaxprs = None
  eager_restart = False
  scalar_mode = False
  def __init__(self): Unit.__init__(self); self.protos = {}
  def mkdict(self, d): return d
  def make_world(self):
    j = bound_jax(self); self.jax = j
    w = World({'jax': j, 'jax.extend': j.extend, 'jax.numpy': JNP, 'numpy': NP1})
    self.jb = w.get('autobound.jax.jax_bound')
    return w
  def is_dom(self, v): return isinstance(v, A)
  def ndim_of(self, a): raise EngineLimit('ndim')
  def wrap(self, t): return Atom(t)
  def literal(self, t): return Arr(LITV(t), SH(AV(t)))

# ---------------------------------------------------------------- taylor_bounds
class BoundFun(BUnit):
  name = 'propagation of enclosures through a program'
  functions = ['jax_bound.taylor_bounds.bound_fun', 'jax_bound._intersect_intervals', 'jax_bound._IntermediateEnclosure', 'jax_bound._constant_intermediate_enclosure', 'jax_bound._has_jit_eqn']
  assumptions = ['rules of primitives meet their contract (C15)', 'enclose_enclosure meets its contract (C07)', '_rewrite_jaxpr and _eval_with_jit_inlined meet their contracts',
                 'jax.make_jaxpr(f)(x0) computes what f computes; Jaxprs are well formed and in single assignment form', 'Primitive.bind computes the value of the primitive',
                 "operands and results of an equation have the shapes recorded for the variables; a variable's range has the shape of the variable",
                 'exact real arithmetic']
  case = 0
  def current(self):
    for l in eng().loop_stack[::-1]:
      if isinstance(l.it, EqnSeq): return l.k
    raise EngineLimit('rule used outside of the loop over equations')
  def start_path(self, e):
    self.results = self.operands = self.stage = None; self.njx = 0; self.JF = None
    self.jaxprs = []; self.nin, self.nout = z3.Int('n_inputs'), z3.Int('n_outputs')   # of the user's function
    self.xnd = z3.Int('x_ndim'); e.assume(self.xnd >= 0)
    x0, dx, lo, hi = z3.Real('x0'), z3.Real('dx'), z3.Real('region_lo'), z3.Real('region_hi')
    self.dx = dx; self.shx = z3.Const('shape_of_x', ShS); self.fx = z3.Real('f_of_x')
    self.xval = x0 + dx
    self.x0 = XArr(x0, self.shx); self.region = (Arr(lo, self.shx), Arr(hi, self.shx))
    e.assume(And(lo <= x0, x0 <= hi, lo <= x0 + dx, x0 + dx <= hi))
  # callees
  def f(self, *a): raise EngineLimit('call of f')
  def make_jaxpr(self, f):
    unit = self
    def factory(*args):
      e = eng()
      if len(args) != 1: raise EngineLimit('arguments of make_jaxpr')
      unit.njx += 1; s = f'C{unit.njx}'
      e.prove('the program is traced at x0', z3.BoolVal(args[0] is unit.x0))
      if f is unit.userf: return Closed(unit, s, True)
      r = f(Tracer())
      ok = isinstance(r, (list, tuple)) and len(r) == 1 and isinstance(r[0] if isinstance(r, tuple) else list.__getitem__(r, 0), OutTok)
      if not ok: e.fail('the program with inlined calls has the outputs of the original program', repr(r))
      return Closed(unit, s, True)
    return factory
  def rewrite(self, j):
    if not isinstance(j, JX): raise EngineLimit('Jaxpr')
    self.njx += 1
    return JX(self, f'J{self.njx}', j.closed, j.means)
  def inline(self, j, consts, *args):
    e = eng()
    if not isinstance(j, JX): raise EngineLimit('Jaxpr')
    e.prove('inlining of calls: evaluates with the constants of the Jaxpr', z3.BoolVal(isinstance(consts, Consts) and consts.c is j.closed or isinstance(consts, Consts) and consts.c.s == j.closed.s))
    e.prove('inlining of calls: evaluates at the argument', z3.BoolVal(len(args) == 1 and isinstance(args[0], Tracer)))
    return [OutTok()]
  def table(self, ar):
    if not isinstance(ar, Arith): raise EngineLimit('arithmetic')
    return RuleTable(ar)
  def enclose(self, enc, tr, deg, np_like):
    e = eng()
    self.check_region(tr); d = iv(deg)
    if conc_int(d) != 0: raise EngineLimit('enclose_enclosure at another degree')
    t = enc_term(enc); Enc(t) if isinstance(enc, Enc) else None
    one = F.NN(t) == 1
    r = new_obj(NN=z3.IntVal(1), IV0=Or(Not(one), F.IV0(t)), C0=F.C0(t), L0=F.BLO(t), H0=F.BHI(t), T=F.T(t), BLO=F.BLO(t), BHI=F.BHI(t))
    return Enc(r)
  def check_region(self, tr):
    e = eng()
    if not (isinstance(tr, tuple) and len(tr) == 2 and all(isinstance(x, A) for x in tr)): raise EngineLimit('trust region')
    e.prove('displacements range over the trust region minus x0', And(tr[0].r() == self.region[0].r() - self.x0.r(), tr[1].r() == self.region[1].r() - self.x0.r()))
  def validate(self, enc, xs):
    e = eng(); 
    if not isinstance(xs, XShape): e.fail('_validate_taylor_enclosure: the axes of x0 are those expected')
    if isinstance(enc, Enc):
      if e.branch(e.fresh_bool('axes_are_wrong')): self.stage = None; raise ValueError('axes')
      e.axiom(F.VLD(enc.t))
    self.stage = None
  def broadcast(self, enc, shape, xs):
    e = eng(); t = enc_term(enc)
    if not isinstance(xs, XShape): e.fail('_broadcast_taylor_enclosure: the axes of x0 are added')
    if not isinstance(shape, Term): raise EngineLimit('shape')
    e.prove('_broadcast_taylor_enclosure: precondition: coefficient k ends with the axes of the k-th power of x', F.VLD(t))
    r = new_obj(**{k: getattr(F, k)(t) for k in ENCF if k not in ('SHPOK', 'SHP')}, SHPOK=z3.BoolVal(True), SHP=shape.t)
    return Enc(r)
  def repeat(self, items, n):
    if items == (None,):
      n = iv(n); m = ObjList(S(If(n > 0, n, 0)), z3.Const(eng().fresh_name('nones'), z3.ArraySort(Z, ObjS)), 'tr'); m.facts.append((m.copy(), lambda t, j: Not(F.HASTR(t)))); return ObjSeq(m)
    raise EngineLimit('repeat')
  def list_model(self, v, name, loop):
    m = objview(v)
    learn = (loop.site, name)
    if m.kind is None: m.kind = self.protos.get(learn)
    m.learn = learn
    return m
  def mkdict(self, d): return d if d else ObjMap()
  def dictcomp(self, lc):
    if not isinstance(lc, rt.LazyComp): return rt.map_update(ObjMap(), lc)
    out = ObjMap()
    Lp = rt.Loop(lc.it, lc.site, ('@out',))
    Lp.enter({'@out': out})
    if Lp.body():
      x = Lp.item()
      if lc.keep(x):
        a, b = lc.elem(x); out[a] = b
      Lp.step({'@out': out})
    Lp.exit()
    return out
  def on_store(self, u, v, o):
    if not self.prop or not any(isinstance(l.it, EqnSeq) for l in eng().loop_stack): return
    e = eng(); a = u.t
    e.prove('a range is recorded for each intermediate quantity', F.HASTR(o))
    e.prove('the range of an intermediate quantity contains its value', trok(o, VAL(a)))
    e.prove('the range of an intermediate quantity is not wider than its enclosure (except for the value at x0)', narrow(o))
    e.prove('the range of an intermediate quantity is not wider than the one computed from the ranges of the operands (except for the value at x0)', narrow0(o, a))
  def templates(self, loop, name, v):
    if rt.kind(v) == 'list':
      yield 'length', lambda x, i: objview(x).n == i
      yield 'whole length', lambda x, i: objview(x).n == loop.n
      q = next((l.k for l in eng().loop_stack if isinstance(l.it, EqnSeq)), None)
      if q is None or self.JF is None: return
      f = self.JF
      for s in ('ei', 'eo'):
        tgt = lambda j, s=s: f[s](q, j)
        n = {'ei': f['ni'](q), 'eo': f['no'](q)}[s]
        yield f'valid {s}', everyL(lambda t, j, tgt=tgt: valid(t, VAL(tgt(j))))
        yield f'shaped {s}', everyL(lambda t, j, tgt=tgt: shaped(t, tgt(j)))
        yield f'range {s}', everyL(lambda t, j, tgt=tgt: trok(t, VAL(tgt(j))))
        yield f'value {s}', everyL(lambda t, j, tgt=tgt: F.C0(t) == VAL(tgt(j)))
        if self.prop and s == 'eo':
          yield 'not wider than degree 0', everyL(lambda t, j, tgt=tgt: Implies(And(F.HASTR(t), COMP(tgt(j))), And(F.LO(t) >= DLO(tgt(j)), F.HI(t) <= DHI(tgt(j)))))
          yield 'narrow degree 0', everyL(lambda t, j, tgt=tgt: narrow0(t, tgt(j)))
          yield 'range of degree 0', everyL(lambda t, j, tgt=tgt: Implies(COMP(tgt(j)), And(F.NN(t) == 1, F.BLO(t) == DLO(tgt(j)), F.BHI(t) == DHI(tgt(j)))))
          if self.results is not None:
            rs = self.results
            yield 'not wider than degree 0 (with the value)', everyL(lambda t, j, tgt=tgt, rs=rs: Implies(And(F.HASTR(t), COMP(tgt(j))), And(F.LO(t) >= imin(DLO(tgt(j)), F.C0(rs.term(j))), F.HI(t) <= imax(DHI(tgt(j)), F.C0(rs.term(j))))))
        yield f'shape {s}', everyL(lambda t, j, tgt=tgt: F.SHP(t) == SH(AV(tgt(j))))
        yield f'number {s}', lambda x, i, n=n: objview(x).n == n
      if self.prop: yield 'ranges present', everyL(lambda t, j: F.HASTR(t))
      else: yield 'ranges absent', everyL(lambda t, j: Not(F.HASTR(t)))
      yield 'not wider', everyL(lambda t, j: narrow(t))
      yield 'validated', everyL(lambda t, j: F.VLD(t))
      yield 'one', everyL(lambda t, j: F.NN(t) == 1)
      if self.case != 2: yield 'number', everyL(lambda t, j: Not(F.IV0(t)))
      if self.operands is not None: yield 'constants stay constant', everyL(lambda t, j: Implies(And(F.NN(self.operands.term(j)) == 1, Not(F.IV0(self.operands.term(j)))), And(F.NN(t) == 1, Not(F.IV0(t)))))
      if self.results is not None:
        rs = self.results
        yield 'not wider than the enclosure', everyL(lambda t, j: narrow(t, rs.term(j)))
        def same(t, j):
          s = rs.term(j); return Implies(Or(F.NN(s) > 1, F.IV0(s)), And(F.IV0(t), F.L0(t) == F.BLO(s), F.H0(t) == F.BHI(s)))
        yield 'range of the enclosure', everyL(same)
        yield 'the enclosure', everyL(lambda t, j: And([getattr(F, k)(t) == getattr(F, k)(rs.term(j)) for k in ENCF]))
    elif isinstance(v, ObjMap):
      if self.case != 2: yield 'first coefficients are numbers', G.every(lambda m, t: Implies(m.has(t), Not(F.IV0(m.to(t)))))
      yield 'enclosures are valid', G.every(lambda m, t: Implies(m.has(t), valid(m.to(t), VAL(t))))
      yield 'coefficients have the axes of the variable and of x', G.every(lambda m, t: Implies(m.has(t), shaped(m.to(t), t)))
      yield 'trust regions contain the value', G.every(lambda m, t: Implies(m.has(t), trok(m.to(t), VAL(t))))
      yield 'trust regions are not wider than the enclosure', G.every(lambda m, t: Implies(m.has(t), narrow(m.to(t))))
      if self.prop: yield 'trust regions are not wider than the range computed at degree 0', G.every(lambda m, t: Implies(m.has(t), narrow0(m.to(t), t)))
      if self.case == 2: yield 'one coefficient', G.every(lambda m, t: Implies(m.has(t), F.NN(m.to(t)) == 1))
      if self.prop: yield 'trust regions are present', G.every(lambda m, t: Implies(m.has(t), F.HASTR(m.to(t))))
    else: yield from Unit.templates(self, loop, name, v)
  def run(self, e):
    jb = self.jb
    self.userf = self.f
    c = self.case
    D = e.fresh_int('max_degree')
    prop = c == 1
    if c == 2: e.assume(D == 0); prop = bool(e.choose(2))
    elif c == 1: e.assume(D > 0)
    else: e.assume(D != 0)
    self.D = D; self.prop = c == 1
    jb._rewrite_jaxpr, jb._eval_with_jit_inlined, jb._pushforward_funs = self.rewrite, self.inline, self.table
    jb._validate_taylor_enclosure, jb._broadcast_taylor_enclosure = self.validate, self.broadcast
    jb.enclosure_arithmetic = _pytypes.SimpleNamespace(TaylorEnclosureArithmetic=self.arith, enclose_enclosure=self.enclose)
    jb.interval_arithmetic = _pytypes.SimpleNamespace(IntervalArithmetic=self.IA)
    # the loop over equations tells which Jaxpr is evaluated
    st, g = call_contract(e, 'taylor_bounds', lambda: jb.taylor_bounds(self.f_token(), SInt(D), prop), raises=(ValueError,))
    if st == 'raise':
      e.prove('taylor_bounds: only a negative degree is refused', D < 0); e.cover('negative degree'); return
    e.prove('taylor_bounds: a negative degree is refused', D >= 0)
    before = captured(g)
    st, r = call_contract(e, 'bound_fun', lambda: g(self.x0, self.region), raises=(ValueError, TypeError, NotImplementedError, AssertionError, KeyError, IndexError))
    if st == 'raise':
      e.prove('bound_fun: once the rule of an operation has accepted it, it is not refused (unless its axes are wrong)', z3.BoolVal(self.stage is None), f'{type(r).__name__}: {r}')
      e.cover(f'refused {type(r).__name__}'); return
    e.prove('bound_fun: a reference point of rank above one is refused', self.xnd <= 1)
    e.prove('bound_fun: frame: a call leaves nothing behind for later calls', z3.BoolVal(same_captured(before, captured(g))))
    if not isinstance(r, jb.TaylorBounds): e.fail('bound_fun: returns TaylorBounds', type(r).__name__)
    for J in self.jaxprs: e.axiom(And(J.f['nov'] == self.nout, J.f['niv'] == self.nin))
    e.prove('bound_fun: a program with several outputs (or none) is refused', self.nout == 1)
    e.prove('bound_fun: a program with several inputs is refused', self.nin == 1)
    t = enc_term(r.coefficients)
    e.prove('bound_fun: the coefficients enclose the value of the program at every point of the trust region', valid(t, self.fx))
    e.prove('bound_fun: the coefficients have the axes of the result and of x', F.SHPOK(t))
    e.prove('bound_fun: the displacement is taken from x0', L(r.x0).r() == self.x0.r())
    e.prove('bound_fun: records the function and the trust region', z3.BoolVal(r.f is self.userf and isinstance(r.x_trust_region, tuple) and all(a is b for a, b in zip(r.x_trust_region, self.region))))
    e.cover('bounds')
  def f_token(self):
    def f(x): raise EngineLimit('call of f')
    self.userf = f; return f
  def arith(self, deg, tr, np_like):
    self.check_region(tr); e = eng(); d = S(iv(deg))
    if np_like is not JNP: raise EngineLimit('other back end')
    if conc_int(d) == 0: return Arith(True)
    e.prove('the arithmetic has the maximum degree', d == self.D)
    return Arith(bool(e.branch(d == 0)))
  class IA:
    def __init__(self, np_like): pass
    def subtract(self, a, b):
      x, y = (a if isinstance(a, tuple) else (a, a)), (b if isinstance(b, tuple) else (b, b))
      return (Arr(x[0].r() - y[1].r()), Arr(x[1].r() - y[0].r()))
class BoundRegions(BoundFun):
  name = 'propagation of enclosures and trust regions through a program'
  case = 1
class BoundDegree0(BoundFun):
  name = 'propagation of ranges through a program'
  case = 2
class Arith:
  def __init__(self, deg0): self.deg0 = deg0
class Tracer: pass
class OutTok: pass

# ---------------------------------------------------------------- the object returned
class Bounds(BUnit):
  name = 'evaluation of the returned bounds'
  functions = ['jax_bound.TaylorBounds.__call__', 'jax_bound.TaylorBounds.lower', 'jax_bound.TaylorBounds.upper', 'jax_bound.TaylorBounds.final_interval']
  assumptions = ['eval_taylor_enclosure meets its contract (C05)', 'exact real arithmetic']
  def run(self, e):
    jb = self.jb; c = e.choose(4); iv_ = bool(e.choose(2))
    x, x0, f, lo, hi = [z3.Real(n) for n in ('x', 'x0', 'f_of_x', 'lower', 'upper')]
    e.axiom(And(lo <= f, f <= hi) if iv_ else f == lo)
    last = (Arr(lo), Arr(hi)) if iv_ else Arr(lo)
    coefs = (Arr(z3.Real('c0')), last)
    def ev(a, z, np_like):
      e.prove('TaylorBounds: evaluates its coefficients', z3.BoolVal(a is coefs and np_like is JNP))
      e.prove('TaylorBounds: evaluates at the displacement from x0', L(z).r() == x - x0)
      return last
    jb.polynomials = _pytypes.SimpleNamespace(eval_taylor_enclosure=ev)
    b = jb.TaylorBounds(f=None, x0=Arr(x0), x_trust_region=(Arr(z3.Real('rl')), Arr(z3.Real('rh'))), coefficients=coefs)
    name = ('__call__', 'lower', 'upper', 'final_interval')[c]
    st, r = call_contract(e, f'TaylorBounds.{name}', lambda: b(Arr(x)) if c == 0 else b.final_interval() if c == 3 else getattr(b, name)(Arr(x)))
    if c == 0: e.prove('TaylorBounds: encloses the function', And(L(r[0]).r() <= f, f <= L(r[1]).r()) if isinstance(r, tuple) else L(r).r() == f)
    elif c == 1:
      if isinstance(r, tuple): e.fail('lower: one end of the interval')
      e.prove('lower: a lower bound', L(r).r() <= f); e.prove('lower: the lower end', L(r).r() == lo)
    elif c == 2:
      if isinstance(r, tuple): e.fail('upper: one end of the interval')
      e.prove('upper: an upper bound', L(r).r() >= f); e.prove('upper: the upper end', L(r).r() == (hi if iv_ else lo))
    else:
      if not (isinstance(r, tuple) and len(r) == 2): e.fail('final_interval: an interval')
      e.prove('final_interval: the last coefficient', And(L(r[0]).r() == lo, L(r[1]).r() == (hi if iv_ else lo)))
    e.cover(name)

# ---------------------------------------------------------------- rewriting of the program
MEANS = Fn('meaning', Z, Z)
class JTok:
  def __init__(self, t): self.t = t
class PTok:
  def __init__(self, k, part): self.k, self.part = k, part
class Rewrite(BUnit):
  name = 'rewriting of programs'
  functions = ['jax_bound._rewrite_jaxpr', 'jax_bound._register_elementwise_function', 'jax_bound.register_elementwise_primitive']
  assumptions = ['jaxpr_editor.replace meets its contract (C14): replacing a pattern by an equivalent Jaxpr preserves meaning',
                 'jax.make_jaxpr(f)(0.) is a Jaxpr of f at any shape (shapes are ignored when matching)']
  def is_dom(self, v): return isinstance(v, (JTok, A))
  def havoc(self, name, v, loop): return JTok(eng().fresh_int('jaxpr'))
  def templates(self, loop, name, v):
    if isinstance(v, JTok): yield 'same meaning', lambda x, i: MEANS(x.t) == z3.Int('m0')
    else: yield from Unit.templates(self, loop, name, v)
  def run(self, e):
    jb = self.jb; c = e.choose(2)
    if c == 0:
      n = z3.Int('n_rules'); e.assume(n >= 0); j0 = z3.Int('j0'); e.axiom(MEANS(j0) == z3.Int('m0'))
      def replace(pattern, replacement, subject, *a, **k):
        p, r, s = pattern, replacement, subject
        if a or k or not (isinstance(p, PTok) and isinstance(r, PTok) and isinstance(s, JTok)): e.fail('_rewrite_jaxpr: replace gets a pattern, a replacement and the Jaxpr', f'{p} {r} {s} {a} {k}')
        e.prove('_rewrite_jaxpr: a pattern is replaced by its own replacement', And(p.k == r.k, z3.BoolVal((p.part, r.part) == (0, 1))))
        t = e.fresh_int('jaxpr'); e.axiom(MEANS(t) == MEANS(s.t)); e.cover('replace'); return JTok(t)
      jb._JAXPR_REWRITE_RULES = Seq(n, lambda k: (lambda: (PTok(S(k), 0), PTok(S(k), 1))))
      jb.jaxpr_editor = _pytypes.SimpleNamespace(replace=replace)
      st, r = call_contract(e, '_rewrite_jaxpr', lambda: jb._rewrite_jaxpr(JTok(j0)))
      if not isinstance(r, JTok): e.fail('_rewrite_jaxpr: returns a Jaxpr')
      e.prove('_rewrite_jaxpr: preserves the meaning of the Jaxpr', MEANS(r.t) == z3.Int('m0'))
    else:
      made = []
      def prim(name):
        p = TokPrim(name); p.bind = lambda *a, **k: None; made.append(p); return p
      j = self.jax; old = j.extend.core.Primitive
      class P(TokPrim):
        def __init__(s, name): TokPrim.__init__(s, name); s.bind = ('bind', s); made.append(s)
      j.extend.core.Primitive = P
      j.core.ShapedArray = lambda shape, dtype, *a, **k: ('shaped', shape, dtype)
      self.make_jaxpr = lambda f: lambda x, *a: _pytypes.SimpleNamespace(jaxpr=('jaxpr of', f, x, a))
      rules0, table0, names0 = jb._JAXPR_REWRITE_RULES, jb._ELEMENTWISE_PRIMITIVE_ENCLOSURES, jb._PRIMITIVE_NAMES
      jb._JAXPR_REWRITE_RULES, jb._ELEMENTWISE_PRIMITIVE_ENCLOSURES, jb._PRIMITIVE_NAMES = [], {}, set()
      try:
        def f0(x): pass
        def f1(x): pass
        fs = [(f0, 'g0'), (f1, 'g1')]
        for f, g in fs: call_contract(e, '_register_elementwise_function', lambda: jb._register_elementwise_function(f, g))
        rules, table = list(jb._JAXPR_REWRITE_RULES), dict(jb._ELEMENTWISE_PRIMITIVE_ENCLOSURES)
        e.prove('_register_elementwise_function: one rule and one entry for each function', z3.BoolVal(len(rules) == 2 and len(table) == 2))
        for i, (f, g) in enumerate(fs):
          st, r = call_contract(e, 'rewrite rule', lambda: rules[i]())
          ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, tuple) and len(x) == 4 and x[0] == 'jaxpr of' for x in r)
          if not ok: e.fail('rewrite rule: a pattern and a replacement', repr(r))
          b = r[1][1]; p = b[1] if isinstance(b, tuple) and b[0] == 'bind' else None
          e.prove('rewrite rule: the pattern is the Jaxpr of the function', z3.BoolVal(r[0][1] is f))
          e.prove('rewrite rule: the replacement binds the new primitive', z3.BoolVal(p is not None))
          e.prove('rewrite rule: the primitive that replaces a function has the enclosure of that function', z3.BoolVal(p in table and table[p] == g))
          e.prove('rewrite rule: pattern and replacement are traced at the same scalar', z3.BoolVal(r[0][2:] == r[1][2:] == (0., ()) and type(r[0][2]) is float))
          av = p.abstract_eval(_pytypes.SimpleNamespace(shape='shape', dtype='dtype'))
          e.prove('new primitive: keeps shape and element type', z3.BoolVal(av == ('shaped', 'shape', 'dtype')))
        st, r = call_contract(e, 'second registration', lambda: jb._register_elementwise_function(f0, 'g2'), raises=(ValueError,))
        e.prove('_register_elementwise_function: a name is registered once', z3.BoolVal(st == 'raise' or all(v != 'g2' for v in jb._ELEMENTWISE_PRIMITIVE_ENCLOSURES.values()) ))
      finally:
        j.extend.core.Primitive = old
        jb._JAXPR_REWRITE_RULES, jb._ELEMENTWISE_PRIMITIVE_ENCLOSURES, jb._PRIMITIVE_NAMES = rules0, table0, names0
    e.cover(f'case {c}')

# ---------------------------------------------------------------- inlining of calls
MR = Fn('multiple_results', PrimS, B)
class IPrim(PrimT):
  @property
  def bind(self): return IBind(self)
  def get_bind_params(self, params):
    if not isinstance(params, Params): raise EngineLimit('parameters')
    return Subfuns(params.q, self), BindParams(params.q, self)
  @property
  def multiple_results(self): return SBool(MR(self.t))
class Subfuns(Seq):
  def __init__(self, q, p): self.q, self.p = q, p
  def length(self): n = Fn('n_subfuns', Z, Z)(self.q); eng().axiom(n >= 0); return n
  def at(self, k): raise EngineLimit('function argument')
class BindParams:
  __vf_params__ = True
  def __init__(self, q, p): self.q, self.p = q, p
class IParams(Params):
  def __getitem__(self, k):
    if k != 'jaxpr': raise EngineLimit(f'parameter {k}')
    return IBody(self.q)
class IBody:
  def __init__(self, q): self.q = q
  @property
  def jaxpr(self): return IJaxpr(self.q)
  @property
  def consts(self): return IConsts(self.q)
class IJaxpr:
  def __init__(self, q): self.q = q
class IConsts(Seq):
  def __init__(self, q): self.q = q
  def length(self): n = Fn('n_body_consts', Z, Z)(self.q); eng().axiom(n >= 0); return n
  def at(self, k): return Arr(Fn('body_const', Z, Z, R)(self.q, S(k)))
class IBind:
  def __init__(self, p): self.p = p
  def __vf_call__(self, args, kws):
    e = eng(); u = e.unit; q = u.current(); f = u.JF
    if len(args) != 2 or not all(s for s, _ in args) or not isinstance(args[0][1], Subfuns) or len(kws) != 1 or kws[0][0] is not None or not isinstance(kws[0][1], BindParams):
      e.fail('_eval_with_jit_inlined: bind gets functions, operands and parameters')
    e.prove('_eval_with_jit_inlined: bind is called on the primitive of the equation with its parameters', And(self.p.t == f['prim'](q), args[0][1].q == q, kws[0][1].q == q, args[0][1].p.t == f['prim'](q), kws[0][1].p.t == f['prim'](q)))
    u.operand_values('bind', args[1:], q)
    no = f['no'](q); e.cover('bind')
    if e.branch(MR(self.p.t)): return Seq(no, lambda k: Arr(VAL(f['eo'](q, S(k)))))
    e.axiom(no == 1); return Arr(VAL(f['eo'](q, z3.IntVal(0))))
  def __call__(self, *a, **k): raise EngineLimit('bind')
class ValMap(ObjMap):
  def __init__(self):
    SymMap.__init__(self, val=z3.Const('env0', z3.ArraySort(AtomS, R)))
  def vf_havoc(self, loop):
    e = eng()
    self.dom = z3.Const(e.fresh_name('dom'), z3.ArraySort(AtomS, B)); self.val = z3.Const(e.fresh_name('env'), z3.ArraySort(AtomS, R)); self.facts = []
  def __getitem__(self, u):
    t = self.key(u)
    if not eng().branch(z3.Select(self.dom, t)): raise KeyError('variable')
    return Arr(S(z3.Select(self.val, t)))
  def copy(self):
    r = ValMap.__new__(ValMap); r.VarS = self.VarS; r.version = 0; r.dom, r.val, r.facts, r.M = self.dom, self.val, list(self.facts), None; return r
  def __setitem__(self, u, v):
    t = self.key(u); self.version += 1
    if not isinstance(v, A): raise EngineLimit('value')
    self.dom, self.val = z3.Store(self.dom, t, z3.BoolVal(True)), z3.Store(self.val, t, L(v).r())
  def update(self, it):
    if isinstance(it, SymMap): raise EngineLimit('update')
    Lp = rt.Loop(it, 'env:update:0:' + str(eng().unit.site_of(it)), ('@map',))
    Lp.enter({'@map': self})
    if Lp.body():
      a, b = Lp.item(); self[a] = b
      Lp.step({'@map': self})
    Lp.exit()
class Inline(BUnit):
  name = 'inlining of nested calls'
  functions = ['jax_bound._eval_with_jit_inlined']
  assumptions = ['recursive calls and _rewrite_jaxpr meet their contracts', 'get_bind_params returns what bind needs; bind computes the value of the primitive',
                 'a jit equation computes what its body computes', 'Jaxprs are well formed and in single assignment form', 'termination (bodies are strictly nested)']
  current = BoundFun.current
  def site_of(self, it):
    p = [type(x).__name__ for x in getattr(it, 'parts', ())]
    f = getattr(it.parts[0], 'f', None) if p else None
    return f(z3.Int('k')).decl().name() if f is not None else p
  def dictcomp(self, it):
    out = ValMap(); out.update(it); return out
  def mkdict(self, d):
    return d if d else ValMap()
  def literal(self, t): return Arr(LITV(t), SH(AV(t)))
  def operand_values(self, what, args, q):
    e = eng(); f = self.JF; m = operands(args)
    e.prove(f'_eval_with_jit_inlined: {what}: all operands', m.n == f['ni'](q))
    j = e.fresh_int('j'); t = m.term(j)
    e.prove(f'_eval_with_jit_inlined: {what}: each operand is the value of the variable', Implies(And(j >= 0, j < m.n), F.C0(t) == VAL(f['ei'](q, j))))
  def list_model(self, v, name, loop): return BoundFun.list_model(self, v, name, loop)
  def templates(self, loop, name, v):
    if rt.kind(v) == 'list':
      yield 'length', lambda x, i: objview(x).n == i
      yield 'whole length', lambda x, i: objview(x).n == loop.n
      f = self.JF
      if f is not None:
        q = next((l.k for l in eng().loop_stack if isinstance(l.it, EqnSeq)), None)
        if q is not None: yield 'values of the operands', everyL(lambda t, j: F.C0(t) == VAL(f['ei'](q, j)))
      yield 'values of the outputs', everyL(lambda t, j: F.C0(t) == VAL(self.j.f['ov'](j)))
    elif isinstance(v, ValMap): yield 'environment', G.every(lambda m, t: Implies(m.has(t), m.to(t) == VAL(t)))
    else: yield from Unit.templates(self, loop, name, v)
  def start_path(self, e): self.JF = None
  def rec(self): 
    unit = self
    class Rec:
      def __vf_call__(s, args, kws):
        e = eng(); q = unit.current()
        a = [x for st, x in args[:2] if not st]
        if kws or len(a) != 2 or not isinstance(a[0], IJaxpr) or not isinstance(a[1], IConsts): e.fail('_eval_with_jit_inlined: the body is evaluated with its constants')
        e.prove('_eval_with_jit_inlined: the body of this equation is evaluated', And(a[0].q == q, a[1].q == q))
        e.prove('_eval_with_jit_inlined: only jit equations are inlined', unit.JF['prim'](q) == unit.jitp)
        unit.operand_values('call', args[2:], q); e.cover('call')
        no = unit.JF['no'](q); f = unit.JF
        return Seq(no, lambda k: Arr(VAL(f['eo'](q, S(k)))))
    return Rec()
  def rewrite(self, j):
    if not isinstance(j, IJaxpr): raise EngineLimit('Jaxpr')
    return IJaxpr(j.q)
  def run(self, e):
    jb = self.jb; self.jitp = z3.Const('jit_p', PrimS)
    self.xnd = z3.Int('xnd'); self.x0 = None
    self.shx = z3.Const('shx', ShS); self.xval = self.fx = z3.Real('unused')
    cl = _pytypes.SimpleNamespace(s='C')
    j = self.j = JX(self, 'J', cl, False); f = j.f
    j.eqns._f = self.eqn(j, j.eqns._f)
    nargs = z3.Int('n_args'); e.assume(nargs >= 0); arg = Fn('arg', Z, R)
    class Pairs(AtomSeq): pass
    nc = z3.Int('n_consts'); e.assume(nc >= 0); const = Fn('const', Z, R)
    j.constvars.ax = lambda k: e.axiom(Implies(And(k >= 0, k < f['ncv'], k < nc), And(ISV(f['cv'](k)), VAL(f['cv'](k)) == const(k))))
    j.invars.ax = lambda k: e.axiom(Implies(And(k >= 0, k < f['niv'], k < nargs), And(ISV(f['iv'](k)), VAL(f['iv'](k)) == arg(k))))
    self.recur = jb.__dict__.setdefault('_vf_orig_inline', jb._eval_with_jit_inlined)
    jb._eval_with_jit_inlined, jb._rewrite_jaxpr = self.rec(), self.rewrite
    args = Seq(nargs, lambda k: Arr(arg(S(k))))
    consts = Seq(nc, lambda k: Arr(const(S(k))))
    st, r = call_contract(e, '_eval_with_jit_inlined', lambda: self.call(self.recur, j, consts, args), raises=(KeyError,))
    if st == 'raise': e.cover('not well formed'); return
    m = r.model if isinstance(r, rt.VList) and r._sym() else objview(r)
    if m is None: e.fail('_eval_with_jit_inlined: returns a list')
    e.prove('_eval_with_jit_inlined: one value for each output', m.n == f['nov'])
    J = e.fresh_int('J'); t = m.term(J)
    e.prove('_eval_with_jit_inlined: each value is the value of the output', Implies(And(J >= 0, J < m.n), F.C0(t) == VAL(f['ov'](J))))
    e.cover('done')
  def call(self, f, j, consts, args):
    """The variadic parameter of the function is bound to a symbolic tuple."""
    g = _pytypes.FunctionType(f.__code__.replace(co_flags=f.__code__.co_flags & ~0x04, co_argcount=f.__code__.co_argcount + 1), f.__globals__, f.__name__, f.__defaults__, f.__closure__)
    return g(j, consts, args)
  def eqn(self, j, base):
    def make(k):
      q = base(k); return Eqn(primitive=IPrim(j.f['prim'](k)), params=IParams(k), invars=q.invars, outvars=q.outvars)
    return make
