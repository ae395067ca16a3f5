"""C14: the Jaxpr editor.  Variables, literals, primitives and parameters are uninterpreted; all lengths are symbolic."""
import types as _pytypes
import z3
from ..core import *
from .. import rt
from ..load import World
from ..seq import Seq
from ..unit import Unit, call_contract
from . import graph as G
from .graph import SymMap, every, V, VarS

Z, B = z3.IntSort(), z3.BoolSort()
AtomS, ValS, AvS, PrimS, ParS, DtS, ShS, JxS = [z3.DeclareSort(n) for n in ('Atom', 'Value', 'Aval', 'Prim', 'Params', 'Dtype', 'Shape', 'Jaxpr')]
Fn = z3.Function
ISV, CNT, AV, LVAL = Fn('is_var', AtomS, B), Fn('count', AtomS, Z), Fn('aval', AtomS, AvS), Fn('val', AtomS, ValS)
EQV = Fn('equal_values', ValS, ValS, B)
DT, SH = Fn('dtype', AvS, DtS), Fn('shape', AvS, ShS)
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
S = z3.simplify
I0 = z3.IntVal(0)

class Term:
  """An opaque object with equality given by a relation (== by default)."""
  __vf__ = True
  def __init__(self, t, eq=None): self.t, self.eq = t, eq
  def _eq(self, o): return self.eq(self.t, o.t) if self.eq is not None else self.t == o.t
  def __eq__(self, o): return sb(self._eq(o)) if isinstance(o, Term) and o.t.sort() == self.t.sort() else False
  def __ne__(self, o): return sb(Not(self._eq(o))) if isinstance(o, Term) and o.t.sort() == self.t.sort() else True
  def __hash__(self): raise EngineLimit('hash of a symbolic object')
  def __repr__(self): return f'Term({self.t})'
  def __bool__(self): raise EngineLimit('truth value of an opaque object')
class Aval(Term):
  dtype = property(lambda s: Term(DT(s.t)))
  shape = property(lambda s: Term(SH(s.t)))
class Var:
  """stands for jex.core.Var: instances made by the code carry count and aval."""
  def __init__(self, aval=None, *a, **k):
    if a or k: raise EngineLimit('Var constructor')
    self.__dict__['aval'] = aval; self.__dict__['_n'] = None
    eng().unit.new_var(self)
  def __setattr__(self, n, v):
    if n != 'count': raise EngineLimit(f'attribute {n} of a variable')
    eng().unit.set_count(self, v); self.__dict__['count'] = v
class Literal:
  def __init__(self, val, aval): self.val, self.aval = val, aval
class Jaxpr:
  def __init__(self, constvars, invars, outvars, eqns, *a, **k): self.constvars, self.invars, self.outvars, self.eqns = constvars, invars, outvars, eqns
class ClosedJaxpr: pass
class AbstractValue: pass
class Eqn:
  def __init__(self, **k): self.__dict__.update(k)

class Atom(V):
  """A variable or literal of a given Jaxpr."""
  def __init__(self, t): self.t = t
  def __vf_isinstance__(self, cls):
    cls = cls if isinstance(cls, tuple) else (cls,)
    r = False
    for c in cls:
      if c is Var: r = r or eng().branch(ISV(self.t))
      elif c is Literal: r = r or eng().branch(Not(ISV(self.t)))
    return r
  def _need(self, var):
    if not eng().branch(ISV(self.t) if var else Not(ISV(self.t))): raise EngineLimit('attribute of the wrong kind of atom')
  @property
  def count(self): self._need(True); return SInt(CNT(self.t))
  @property
  def aval(self): return Aval(AV(self.t))
  @property
  def val(self): self._need(False); return getattr(eng().unit, "literal", lambda t: Term(LVAL(t), EQV))(self.t)
class AtomSeq(Seq):
  def __init__(self, n, f, ax=None): self.n, self.f, self.ax = n, f, ax
  def length(self):
    eng().axiom(self.n >= 0); return self.n
  def at(self, k):
    k = S(k)
    if self.ax: self.ax(k)
    return Atom(self.f(k))
  def __contains__(self, x):
    b = eng().fresh_bool('in'); return eng().branch(eng().unit.member(self, x, b))
  def __bool__(self): return eng().branch(self.n > 0)
class EqnSeq(Seq):
  def __init__(self, n, f): self.n, self._f = n, f
  def at(self, k): return self._f(S(k))

class NPs:
  """numpy in jaxpr_editor."""
  @staticmethod
  def array_equal(a, b):
    if isinstance(a, Term) and isinstance(b, Term): return sb(EQV(a.t, b.t))
    raise EngineLimit('array_equal')
  @staticmethod
  def shape(a): return Term(Fn('np_shape', ValS, ShS)(a.t))

def jax_stub():
  ns = _pytypes.SimpleNamespace
  core = ns(Var=Var, Literal=Literal, Jaxpr=Jaxpr, ClosedJaxpr=ClosedJaxpr, Primitive=object)
  jex = ns(core=core)
  jcore = ns(AbstractValue=AbstractValue, new_jaxpr_eqn=lambda invars, outvars, primitive, params, effects=None, *a, **k: Eqn(invars=invars, outvars=outvars, primitive=primitive, params=params))
  return ns(core=jcore, extend=jex)

class JUnit(Unit):
  key_sort = AtomS
  wrap = staticmethod(Atom)
  eager_restart = False
  def make_world(self):
    j = jax_stub()
    w = World({'jax': j, 'jax.extend': j.extend, 'numpy': NPs})
    self.ge = w.get('autobound.graph_editor')
    self.m = w.get('autobound.jax.jaxpr_editor')
    return w
  def mkdict(self, d): return SymMap() if not d else self._nolimit('dict display')
  def dictcomp(self, x): return rt.map_update(SymMap(), x)
  def to_tuple(self, x): return x
  def new_var(self, v): raise EngineLimit('new variable')
  def set_count(self, v, c): raise EngineLimit('count of a variable')
  def identity(self, a, b):
    if isinstance(a, Term) and isinstance(b, Term):
      if a.t.eq(b.t): return True
      b_ = eng().fresh_bool('same_object'); eng().axiom(Implies(b_, And(a.t == b.t, EQV(a.t, b.t) if a.t.sort() == ValS else True)))
      return SBool(b_)
    return a is b

# ---------------------------------------------------------------- small predicates
class Small(JUnit):
  name = 'equality of literals, types and equation data'
  functions = ['jaxpr_editor._can_bind', 'jaxpr_editor._match_avals', 'jaxpr_editor._equiv_literals', 'jaxpr_editor._EqnData.__eq__', 'jaxpr_editor._LiteralValue.__eq__']
  def vertex(self, var, nm):
    av = Aval(z3.Const(f'aval_{nm}', AvS))
    if var: return (True, SInt(z3.Int(f'count_{nm}')), av)
    v = Term(z3.Const(f'val_{nm}', ValS), EQV)
    L = getattr(self.m, '_LiteralValue', None)
    return (False, L(v) if L else v, av)
  def run(self, e):
    c = e.choose(7)
    truth = lambda r: bv(r) if isinstance(r, SBool) else z3.BoolVal(bool(r))
    if c < 4:
      a, b = bool(c & 1), bool(c & 2)
      u, v = self.vertex(a, 'u'), self.vertex(b, 'v')
      st, r = call_contract(e, '_can_bind', lambda: self.m._can_bind(u, v))
      val = lambda x: (x[1].val if hasattr(x[1], 'val') else x[1]).t
      if a and b: e.prove('_can_bind: a variable binds to any variable', truth(r))
      elif a != b: e.prove('_can_bind: variables and literals do not bind to each other', Not(truth(r)))
      else: e.prove('_can_bind: literals bind exactly if their values are equal', truth(r) == EQV(val(u), val(v)))
    elif c == 4:
      ig = e.fresh_bool('ignore_shape')
      a, b = Aval(z3.Const('a0', AvS)), Aval(z3.Const('a1', AvS))
      st, r = call_contract(e, '_match_avals', lambda: self.m._match_avals(a, b, SBool(ig)))
      e.prove('_match_avals: the same element type, and the same shape unless it is ignored', Implies(truth(r), And(DT(a.t) == DT(b.t), Or(ig, SH(a.t) == SH(b.t)))))
    elif c == 5:
      ig = e.fresh_bool('ignore_shape')
      a, b = z3.Const('l0', AtomS), z3.Const('l1', AtomS); e.assume(And(Not(ISV(a)), Not(ISV(b))))
      st, r = call_contract(e, '_equiv_literals', lambda: self.m._equiv_literals(LitAtom(a), LitAtom(b), SBool(ig)))
      e.prove('_equiv_literals: equal values', Implies(truth(r), EQV(LVAL(a), LVAL(b))))
      e.prove('_equiv_literals: the same element type, and the same shape unless it is ignored', Implies(truth(r), And(DT(AV(a)) == DT(AV(b)), Or(ig, SH(AV(a)) == SH(AV(b))))))
    else:
      pq = e.fresh_bool('params_equivalent')
      p, q = z3.Const('p0', ParS), z3.Const('p1', ParS)
      seen = []
      def equiv(x, y):
        if not (isinstance(x, Term) and isinstance(y, Term) and {str(x.t), str(y.t)} == {'p0', 'p1'}): raise EngineLimit('other parameters')
        return SBool(pq)
      self.m._jaxpr_eqn_params_equiv = equiv
      a, b = z3.Const('prim0', PrimS), z3.Const('prim1', PrimS)
      x, y = self.m._EqnData(Term(a), Term(p)), self.m._EqnData(Term(b), Term(q))
      st, r = call_contract(e, '_EqnData.__eq__', lambda: x == y)
      e.prove('_EqnData: equal exactly if the primitives are the same and the parameters equivalent', truth(r) == And(a == b, pq))
    e.cover(f'case {c}')
class LitAtom(Atom):
  """A literal; its attributes are val and aval only."""
  pass

# ---------------------------------------------------------------- parameters
KS = z3.StringSort()
class Key:
  __vf__ = True
  def __init__(self, t): self.t = t
  def __eq__(self, o): return sb(self.t == (z3.StringVal(o) if isinstance(o, str) else o.t)) if isinstance(o, (str, Key)) else False
  def __ne__(self, o):
    r = self == o
    return (not r) if isinstance(r, bool) else ~r
  def __hash__(self): raise EngineLimit('hash of a symbolic name')
KIND = Fn('kind', ValS, Z)
JOF, NCONST, CONST = Fn('jaxpr_of', ValS, JxS), Fn('nconsts', ValS, Z), Fn('const', ValS, Z, ValS)
SELFJ = Fn('as_jaxpr', ValS, JxS)
SAMEJ = Fn('same_jaxpr', JxS, JxS, B)
class Refused(Exception): pass
class PVal(Term):
  """The value of a parameter: a closed Jaxpr, a Jaxpr, a function or something else."""
  kinds = {0: 'ClosedJaxpr', 1: 'Jaxpr', 2: 'function', 3: 'other'}
  def __init__(self, t): Term.__init__(self, t, EQV); eng().axiom(And(KIND(t) >= 0, KIND(t) <= 3))
  def __vf_isinstance__(self, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    ks = {ClosedJaxpr: 0, Jaxpr: 1, _pytypes.FunctionType: 2}
    return any(c in ks and eng().branch(KIND(self.t) == ks[c]) for c in cs)
  def _closed(self):
    if not eng().branch(KIND(self.t) == 0): raise Refused('not a closed Jaxpr')
  @property
  def jaxpr(self): self._closed(); return Term(JOF(self.t))
  @property
  def consts(self):
    self._closed(); t = self.t
    class C(Seq):
      def length(s): eng().axiom(NCONST(t) >= 0); return NCONST(t)
      def at(s, k): return Term(CONST(t, S(k)), EQV)
    return C(None, None)
class PDict(rt.SymIter):
  def __init__(self, unit, n, keyat, val): self.u, self.n, self.keyat, self.val = unit, n, keyat, val
  def length(self): return self.n
  def at(self, k): return Key(self.keyat(S(k)))
  def __contains__(self, k): raise EngineLimit('membership of a name')
  def get(self, k, d=None): return self[k]
  def keys(self): return PKeys(self)
  def items(self):
    return Seq(self.n, lambda k: (Key(self.keyat(S(k))), PVal(self.val(self.keyat(S(k))))))
  def values(self): raise EngineLimit('values of parameters')
  def __getitem__(self, k):
    if not isinstance(k, Key): k = Key(z3.StringVal(k))
    self.u.has_key(self, k); return PVal(self.val(k.t))
class PKeys(rt.SymIter):
  def __init__(self, d): self.d = d
  def length(self): return self.d.n
  def at(self, k): return self.d.at(k)
  def __eq__(self, o): return SBool(self.d.u.samekeys) if isinstance(o, PKeys) else NotImplemented
  def __ne__(self, o): return SBool(Not(self.d.u.samekeys)) if isinstance(o, PKeys) else NotImplemented
  __hash__ = None
class Params(JUnit):
  name = 'equivalence of equation parameters'
  functions = ['jaxpr_editor._jaxpr_eqn_params_equiv']
  assumptions = ['_same_jaxpr_up_to_variable_renaming meets its contract', 'equality of opaque parameter values means what it says',
                 'a closed Jaxpr has one constant for each of its constant variables']
  TOLERATED = ('weak_type', 'jvp_jaxpr_fun')
  def to_set(self, x):
    if isinstance(x, PKeys): return x
    raise EngineLimit('set')
  def new_set(self): raise EngineLimit('set')
  def has_key(self, d, k): eng().prove('_jaxpr_eqn_params_equiv: only keys that both have are looked up', self.samekeys)
  def frozen(self, xs, k):
    if isinstance(k, Key): return eng().branch(Or([k.t == z3.StringVal(x) for x in xs] + [z3.BoolVal(False)]))
  def same(self, a, b, ignore_shape=False):
    if not (isinstance(a, Term) and isinstance(b, Term)): raise EngineLimit('other Jaxprs')
    j = lambda x: SELFJ(x.t) if x.t.sort() == ValS else x.t
    if isinstance(b, PVal) and not eng().branch(KIND(b.t) == 1): raise Refused('not a Jaxpr')
    c = eng().fresh_bool('same'); eng().axiom(Implies(c, SAMEJ(j(a), j(b))))
    return SBool(c)
  def equiv(self, a, b):
    return And(Implies(KIND(a) == 0, And(KIND(b) == 0, SAMEJ(JOF(a), JOF(b)), Implies(And(self.C >= 0, self.C < NCONST(a)), EQV(CONST(a, self.C), CONST(b, self.C))))),
               Implies(KIND(a) == 1, And(KIND(b) == 1, SAMEJ(SELFJ(a), SELFJ(b)))), Implies(KIND(a) == 2, KIND(b) == 2), Implies(KIND(a) == 3, EQV(a, b)))
  def goal(self, i): return Implies(And(self.X < i, *[self.k(self.X) != z3.StringVal(t) for t in self.TOLERATED]), self.equiv(self.v0(self.k(self.X)), self.v1(self.k(self.X))))
  def state_templates(self, loop, st):
    if loop.outer:
      o = loop.outer[0].k
      yield 'constants so far', lambda s, i: Implies(And(self.C < i, self.X == o), EQV(CONST(self.v0(self.k(o)), self.C), CONST(self.v1(self.k(o)), self.C)))
    else: yield 'equivalent so far', lambda s, i: self.goal(i)
  def run(self, e):
    n = z3.Int('n'); e.assume(n >= 0)
    self.X, self.C = z3.Int('X'), z3.Int('C'); e.assume(And(self.X >= 0, self.X < n, self.C >= 0))
    self.k, self.v0, self.v1 = Fn('key', Z, KS), Fn('param0', KS, ValS), Fn('param1', KS, ValS)
    self.samekeys = z3.Bool('same_keys')
    a, b = self.v0(self.k(self.X)), self.v1(self.k(self.X))
    e.axiom(Implies(And(KIND(a) == 0, KIND(b) == 0, SAMEJ(JOF(a), JOF(b))), NCONST(a) == NCONST(b)))
    n1 = z3.Int('n1')
    p0, p1 = PDict(self, n, self.k, self.v0), PDict(self, n1, Fn('key1', Z, KS), self.v1)
    self.m._same_jaxpr_up_to_variable_renaming = self.same
    st, r = call_contract(e, '_jaxpr_eqn_params_equiv', lambda: self.m._jaxpr_eqn_params_equiv(p0, p1), raises=(Refused,))
    if st == 'raise': e.cover('refused'); return
    r = bv(r) if isinstance(r, SBool) else z3.BoolVal(bool(r))
    e.prove('_jaxpr_eqn_params_equiv: the same parameter names', Implies(r, self.samekeys))
    e.prove('_jaxpr_eqn_params_equiv: every parameter outside of the documented tolerances is the same', Implies(r, self.goal(n)))
    e.cover(f'params {r}')

# ---------------------------------------------------------------- Jaxprs up to renaming
PEQ = Fn('params_equivalent', ParS, ParS, B)
MA = Fn('avals_match', AvS, AvS, B)
EQL = Fn('equal_literals', AtomS, AtomS, B)
class SameJaxpr(JUnit):
  name = 'equality of Jaxprs up to renaming'
  functions = ['jaxpr_editor._same_jaxpr_up_to_variable_renaming']
  assumptions = ['_jaxpr_eqn_params_equiv, _match_avals and _equiv_literals meet their contracts', 'Jaxprs are well formed: variables are bound once, before they are used (then a consistent map between binders and between uses is a renaming)']
  GROUPS = ('constvars', 'invars', 'outvars')
  def jx(self, s):
    at = {g: Fn(f'{g}{s}', Z, AtomS) for g in self.GROUPS}; n = {g: z3.Int(f'n_{g}{s}') for g in self.GROUPS}
    ne = z3.Int(f'n_eqns{s}'); prim, par = Fn(f'prim{s}', Z, PrimS), Fn(f'params{s}', Z, ParS)
    ei, eo, ni, no = Fn(f'ein{s}', Z, Z, AtomS), Fn(f'eout{s}', Z, Z, AtomS), Fn(f'nin{s}', Z, Z), Fn(f'nout{s}', Z, Z)
    def eqn(k): return Eqn(primitive=Term(prim(k)), params=Term(par(k)), invars=AtomSeq(ni(k), lambda i: ei(k, i)), outvars=AtomSeq(no(k), lambda i: eo(k, i)))
    j = _pytypes.SimpleNamespace(**{g: AtomSeq(n[g], at[g]) for g in self.GROUPS}, eqns=EqnSeq(ne, eqn))
    j.F = dict(at=at, n=n, ne=ne, prim=prim, par=par, ei=ei, eo=eo, ni=ni, no=no)
    eng().assume(And(ne >= 0, *[n[g] >= 0 for g in self.GROUPS]))
    return j
  def corr(self, m, a, b):
    return If(ISV(a), And(m.has(a), m.to(a) == b), And(Not(ISV(b)), EQL(a, b)))
  def facts(self, m):
    f, g, I, E, c = self.j0.F, self.j1.F, self.I, self.E, self.corr
    rng = lambda n: And(I >= 0, I < n)
    return dict(constvars=Implies(rng(f['n']['constvars']), c(m, f['at']['constvars'](I), g['at']['constvars'](I))),
                invars=Implies(rng(f['n']['invars']), c(m, f['at']['invars'](I), g['at']['invars'](I))),
                outvars=Implies(rng(f['n']['outvars']), c(m, f['at']['outvars'](I), g['at']['outvars'](I))),
                head=And(f['prim'](E) == g['prim'](E), PEQ(f['par'](E), g['par'](E)), f['ni'](E) == g['ni'](E), f['no'](E) == g['no'](E)),
                ein=Implies(rng(f['ni'](E)), c(m, f['ei'](E, I), g['ei'](E, I))), eout=Implies(rng(f['no'](E)), c(m, f['eo'](E, I), g['eo'](E, I))))
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if isinstance(v, SymMap):
      yield 'matching types', every(lambda m, t: Implies(m.has(t), And(ISV(t), MA(AV(t), AV(m.to(t))))))
  def state_templates(self, loop, st):
    nm = next((n for n, v in st.items() if isinstance(v, SymMap)), None)
    out = []
    get = lambda s: s[nm] if nm else self.vmap()
    o = loop.outer[0].k if loop.outer else None
    add = lambda lab, cond, f: out.append((lab, lambda s, i: Implies(cond(i), self.facts(get(s))[f])))
    n0 = self.j0.F
    it0 = loop.it.parts[0] if isinstance(loop.it, rt.SymZip) else loop.it
    g0 = next((g for g in self.GROUPS if it0 is getattr(self.j0, g)), None)
    if g0:
      # one loop may be run for several of the groups
      add('this group so far', lambda i: self.I < i, g0)
      done = [g for g in self.done if g != g0]; self.done = done + [g0]
      out.append(('the groups compared before', lambda s, i: And([self.facts(get(s))[g] for g in done])))
    for f in ('constvars', 'invars', 'outvars'):
      add(f'{f} so far', lambda i: self.I < i, f)
      add(f'{f}', lambda i: z3.BoolVal(True), f)
      for g in ('constvars', 'invars', 'outvars'):
        if g != f: add(f'{f} so far after {g}', lambda i, g=g: self.I + n0['n'][g] < i, f)
        for h in ('constvars', 'invars', 'outvars'):
          if len({f, g, h}) == 3 and g < h: add(f'{f} so far after {g} and {h}', lambda i, g=g, h=h: self.I + n0['n'][g] + n0['n'][h] < i, f)
    for f in ('head', 'ein', 'eout'):
      if o is None: add(f'{f} of the equations so far', lambda i: self.E < i, f)
      else:
        add(f'{f} of the previous equations', lambda i: self.E < o, f)
        add(f'{f} of this equation', lambda i: self.E == o, f)
        if f != 'head':
          add(f'{f} of this equation so far', lambda i: And(self.E == o, self.I < i), f)
          add(f'{f} of this equation so far, after the inputs', lambda i: And(self.E == o, self.I + n0['ni'](o) < i), f)
          add(f'{f} of this equation so far, after the outputs', lambda i: And(self.E == o, self.I + n0['no'](o) < i), f)
    return out
  def start_path(self, e): self.done = []
  def vmap(self):
    ms = [x for x in eng().vlists if isinstance(x, SymMap)]
    if not ms: raise EngineLimit('no map')
    return ms[-1]
  def run(self, e):
    self.I, self.E = z3.Int('I'), z3.Int('E')
    self.j0, self.j1 = self.jx('0'), self.jx('1')
    f, g = self.j0.F, self.j1.F
    e.assume(And(self.E >= 0, self.E < f['ne'], self.I >= 0))
    ig = e.fresh_bool('ignore_shape'); igv = SBool(ig)
    def flag(x):
      e.prove('the shape tolerance that was asked for is passed on', bv(x) == ig)
    def peq(a, b):
      c = e.fresh_bool('peq'); e.axiom(Implies(c, PEQ(a.t, b.t))); return SBool(c)
    def ma(a, b, ignore_shape):
      flag(ignore_shape); c = e.fresh_bool('ma'); e.axiom(Implies(c, MA(a.t, b.t))); return SBool(c)
    def el(a, b, ignore_shape):
      flag(ignore_shape); c = e.fresh_bool('eql'); e.axiom(Implies(c, EQL(a.t, b.t))); return SBool(c)
    self.m._jaxpr_eqn_params_equiv, self.m._match_avals, self.m._equiv_literals = peq, ma, el
    st, r = call_contract(e, '_same_jaxpr_up_to_variable_renaming', lambda: self.m._same_jaxpr_up_to_variable_renaming(self.j0, self.j1, igv))
    if r is False: e.cover('different'); return
    r = bv(r) if isinstance(r, SBool) else z3.BoolVal(bool(r))
    n = '_same_jaxpr_up_to_variable_renaming'
    e.prove(f'{n}: as many variables and equations', Implies(r, And(f['ne'] == g['ne'], *[f['n'][x] == g['n'][x] for x in self.GROUPS])))
    m = self.vmap()
    for t in [f['at'][x](self.I) for x in self.GROUPS] + [f['ei'](self.E, self.I), f['eo'](self.E, self.I)]: m.inst(t)
    fs = self.facts(m)
    for k, lab in (('constvars', 'constants correspond'), ('invars', 'inputs correspond'), ('outvars', 'outputs correspond'), ('head', 'equation E has the same primitive, equivalent parameters and as many inputs and outputs'),
                   ('ein', 'inputs of equation E correspond'), ('eout', 'results of equation E correspond')):
      e.prove(f'{n}: {lab}', Implies(r, fs[k]))
    t = z3.Const('t', AtomS); m.inst(t)
    e.prove(f'{n}: variables that correspond have matching types', Implies(And(r, m.has(t)), MA(AV(t), AV(m.to(t)))))
    e.cover('same')

# ---------------------------------------------------------------- Jaxpr <-> graph
class Rec:
  """What is known about one vertex, variable or literal: is it a variable, its count, value and type."""
  F = (('isv', B), ('cnt', Z), ('val', ValS), ('av', AvS))
  def __init__(self, isv, cnt, val, av): self.isv, self.cnt, self.val, self.av = isv, cnt, val, av
  @staticmethod
  def fresh(n='r'): return Rec(*[z3.Const(eng().fresh_name(f'{n}_{f}'), s) for f, s in Rec.F])
  def ite(self, c, o): return Rec(*[If(c, getattr(self, f), getattr(o, f)) for f, _ in Rec.F])
  def is_vertex(self, t, off=0): return And(self.isv == ISV(t), self.av == AV(t), If(ISV(t), self.cnt == CNT(t) + off, self.val == LVAL(t)))
class RecList:
  """Model of a list of vertices or atoms: its length and its element at position I."""
  def __init__(self, n, r): self.n, self.r = n, r
  def length(self): return self.n
  def copy(self): return RecList(self.n, self.r)
  def havoc(self): self.n, self.r = eng().fresh_int('len'), Rec.fresh(); eng().assume(self.n >= 0)
  def append(self, x): self.r = eng().unit.rec(x).ite(self.n == eng().unit.I, self.r); self.n = S(self.n + 1)
  def read(self, k): raise EngineLimit('reading an element')
  def to_seq(self): return RecSeq(self.copy())
class RecSeq(Seq):
  def __init__(self, m): self.model = m
  def length(self): return self.model.n
  def at(self, k): raise EngineLimit('reading an element')
class OpRec:
  F = (('prim', PrimS), ('par', ParS), ('ni', Z), ('no', Z))
  def __init__(self, prim, par, ni, no, i, o): self.prim, self.par, self.ni, self.no, self.i, self.o = prim, par, ni, no, i, o
  @staticmethod
  def fresh(): return OpRec(*[z3.Const(eng().fresh_name(f), s) for f, s in OpRec.F], Rec.fresh('in'), Rec.fresh('out'))
  def ite(self, c, o): return OpRec(*[If(c, getattr(self, f), getattr(o, f)) for f, _ in OpRec.F], self.i.ite(c, o.i), self.o.ite(c, o.o))
class OpList(RecList):
  """Model of a list of operations or equations: its length and its element at position E."""
  def copy(self): return OpList(self.n, self.r)
  def havoc(self): self.n, self.r = eng().fresh_int('len'), OpRec.fresh(); eng().assume(self.n >= 0)
  def append(self, x): self.r = eng().unit.oprec(x).ite(self.n == eng().unit.E, self.r); self.n = S(self.n + 1)

class ConvUnit(JUnit):
  GROUPS = ('constvars', 'invars', 'outvars')
  eager_restart = False
  def recs(self, x):
    """The model of a list of vertices or atoms."""
    if isinstance(x, RecSeq): return x.model
    if isinstance(x, rt.LazyComp): x = x.to_list()
    if isinstance(x, rt.VList) and x._sym():
      if isinstance(x.model, OpList): raise EngineLimit('list')
      return x.model
    if isinstance(x, (list, tuple)):
      m = RecList(I0, Rec.fresh())
      for y in (list.__iter__(x) if isinstance(x, list) else x): m.append(y)
      return m
    raise EngineLimit('list of vertices')
  def ops(self, x):
    if isinstance(x, RecSeq) and isinstance(x.model, OpList): return x.model
    if isinstance(x, rt.VList) and x._sym():
      if not isinstance(x.model, OpList): raise EngineLimit('list')
      return x.model
    if isinstance(x, (list, tuple)) and len(x) == 0: return OpList(I0, OpRec.fresh())
    raise EngineLimit('list of operations')
  def list_model(self, v, name, loop):
    if isinstance(loop.it, EqnSeq): return self.ops(v)
    return self.recs(v)
  def val(self, x):
    if hasattr(x, 'val'): x = x.val
    if not isinstance(x, Term) or x.t.sort() != ValS: raise EngineLimit('value of a literal')
    return x.t
  def side(self, k):
    """name, length and element function of every sequence that may be copied."""
    f = self.F
    for g in self.GROUPS: yield g, f['n'][g], f['at'][g]
    if k is not None:
      yield 'ein', f['ni'](k), lambda i: f['ei'](k, i)
      yield 'eout', f['no'](k), lambda i: f['eo'](k, i)
  def good_op(self, r):
    f, E, I = self.F, self.E, self.I
    return dict(data=And(r.prim == f['prim'](E), r.par == f['par'](E)), nin=r.ni == f['ni'](E), nout=r.no == f['no'](E),
                ein=Implies(I < f['ni'](E), self.good(r.i, f['ei'](E, I))), eout=Implies(I < f['no'](E), self.good(r.o, f['eo'](E, I))))
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if rt.kind(v) == 'list':
      if isinstance(loop.it, EqnSeq):
        yield 'one for each equation', lambda x, i: self.ops(x).n == i
        for f in ('data', 'nin', 'nout', 'ein', 'eout'): yield f'{f} of the equations so far', lambda x, i, f=f: Implies(self.E < i, self.good_op(self.ops(x).r)[f])
      else:
        k = loop.outer[0].k if loop.outer else None
        yield 'one for each element', lambda x, i: self.recs(x).n == i
        if isinstance(loop.it, AtomSeq): yield 'the same as the source so far', lambda x, i, it=loop.it: Implies(self.I < i, self.good(self.recs(x).r, it.f(self.I)))
        for nm, n, at in self.side(k): yield f'{nm} so far', lambda x, i, at=at: Implies(self.I < i, self.good(self.recs(x).r, at(self.I)))
  def graph_terms(self, e, atom):
    self.I, self.E = z3.Int('I'), z3.Int('E')
    at = {g: Fn(g, Z, AtomS) for g in self.GROUPS}; n = {g: z3.Int(f'n_{g}') for g in self.GROUPS}
    ne = z3.Int('n_eqns'); prim, par = Fn('prim', Z, PrimS), Fn('params', Z, ParS)
    ei, eo, ni, no = Fn('ein', Z, Z, AtomS), Fn('eout', Z, Z, AtomS), Fn('nin', Z, Z), Fn('nout', Z, Z)
    self.F = dict(at=at, n=n, ne=ne, prim=prim, par=par, ei=ei, eo=eo, ni=ni, no=no)
    e.assume(And(ne >= 0, *[n[g] >= 0 for g in self.GROUPS], self.I >= 0, self.E >= 0))
    class Sq(AtomSeq):
      def at(s, k): return atom(s.f(S(k)))
    seq = lambda n, f: Sq(n, f)
    return seq
  def check(self, nm, groups, ops):
    """groups: [(label, list, name)]"""
    e, f = eng(), self.F
    for lab, x, g in groups:
      m = self.recs(x)
      e.prove(f'{nm}: as many {lab}', m.n == f['n'][g])
      e.prove(f'{nm}: {lab} I', Implies(self.I < f['n'][g], self.good(m.r, f['at'][g](self.I))))
    m = self.ops(ops)
    e.prove(f'{nm}: as many equations', m.n == f['ne'])
    gs = self.good_op(m.r); inr = self.E < f['ne']
    for k, lab in (('data', 'primitive and parameters of equation E'), ('nin', 'number of inputs of equation E'), ('nout', 'number of results of equation E'),
                   ('ein', 'input I of equation E'), ('eout', 'result I of equation E')):
      e.prove(f'{nm}: {lab}', Implies(inr, gs[k]))

class ToGraph(ConvUnit):
  name = 'Jaxpr to graph'
  functions = ['jaxpr_editor._jaxpr_to_graph']
  def good(self, r, t): return r.is_vertex(t, self.off)
  def rec(self, x):
    if not isinstance(x, tuple) or len(x) != 3 or not isinstance(x[0], bool) or not isinstance(x[2], Aval): raise EngineLimit('vertex')
    av = x[2].t; u = Rec.fresh()
    if x[0]: return Rec(z3.BoolVal(True), iv(x[1]), u.val, av)
    return Rec(z3.BoolVal(False), u.cnt, self.val(x[1]), av)
  def oprec(self, op):
    if not isinstance(op, self.ge.Operation): raise EngineLimit('operation')
    d = op.data; a, b = self.recs(op.inputs), self.recs(op.outputs)
    if not isinstance(d, self.m._EqnData): raise EngineLimit('data')
    return OpRec(d.primitive.t, d.params.t, a.n, b.n, a.r, b.r)
  def run(self, e):
    seq = self.graph_terms(e, Atom); f = self.F
    j = _pytypes.SimpleNamespace(**{g: seq(f['n'][g], f['at'][g]) for g in self.GROUPS},
                                 eqns=EqnSeq(f['ne'], lambda k: Eqn(primitive=Term(f['prim'](k)), params=Term(f['par'](k)), invars=seq(f['ni'](k), lambda i: f['ei'](k, i)), outvars=seq(f['no'](k), lambda i: f['eo'](k, i)))))
    given = e.choose(2); self.off = z3.Int('offset') if given else I0
    st, g = call_contract(e, '_jaxpr_to_graph', lambda: self.m._jaxpr_to_graph(j, SInt(self.off)) if given else self.m._jaxpr_to_graph(j))
    if not isinstance(g, self.ge.ComputationGraph): e.fail('_jaxpr_to_graph: returns a graph', type(g).__name__)
    self.check('_jaxpr_to_graph', [('inputs', g.inputs, 'invars'), ('outputs', g.outputs, 'outvars'), ('constants', g.data, 'constvars')], g.operations)
    e.cover('to graph')

class Vertex:
  """A vertex of a graph: (True, count, aval) or (False, literal value, aval)."""
  __vf__ = True
  def __init__(self, t): self.t = t
  def __vf_isinstance__(self, cls): return cls is tuple or isinstance(cls, tuple) and tuple in cls
  def __getitem__(self, i):
    if i == 0: return sb(ISV(self.t))
    if i == 1:
      if eng().branch(ISV(self.t)): return SInt(CNT(self.t))
      return eng().unit.litval(self.t)
    if i == 2: return Aval(AV(self.t))
    raise IndexError
  def __iter__(self): return iter((self[0], self[1], self[2]))
  def __vf_len__(self): return 3
  def __eq__(self, o): raise EngineLimit('== of vertices')
  def __hash__(self): raise EngineLimit('hash of a vertex')
RefS = z3.DeclareSort('VarObject')
RCNT, RAV = Fn('count_of', RefS, Z), Fn('aval_of', RefS, AvS)
AVC = Fn('aval_of_count', Z, AvS)
class VarRef:
  """A variable object that was made by the code."""
  __vf__ = True
  def __init__(self, t): self.t = t
  count = property(lambda s: SInt(RCNT(s.t)))
  aval = property(lambda s: Aval(RAV(s.t)))
class CountMap:
  """A dict from counts to variables."""
  def __init__(self):
    self.dom = z3.K(Z, z3.BoolVal(False)); self.val = z3.Const('val0', z3.ArraySort(Z, RefS)); self.facts = []; self.version = 0; eng().vlists.append(self)
  VarS = Z
  @property
  def model(self): return self
  def copy(self):
    r = CountMap.__new__(CountMap); r.dom, r.val, r.facts, r.version = self.dom, self.val, list(self.facts), 0; return r
  def vf_havoc(self, loop):
    e = eng(); self.dom = z3.Const(e.fresh_name('dom'), z3.ArraySort(Z, B)); self.val = z3.Const(e.fresh_name('val'), z3.ArraySort(Z, RefS)); self.facts = []
  def inst(self, t):
    for snap, f in self.facts: eng().axiom(f(snap, t))
  def key(self, c):
    if not isinstance(c, (SInt, int)): raise EngineLimit('dictionary key')
    t = S(iv(c)); self.inst(t); return t
  def __contains__(self, c): t = self.key(c); return eng().branch(z3.Select(self.dom, t))
  def __getitem__(self, c):
    t = self.key(c)
    if not eng().branch(z3.Select(self.dom, t)): raise KeyError(c)
    return VarRef(z3.Select(self.val, t))
  def get(self, c, d=None): return self[c] if c in self else d
  def __setitem__(self, c, v):
    t = self.key(c); self.version += 1
    self.dom, self.val = z3.Store(self.dom, t, z3.BoolVal(True)), z3.Store(self.val, t, eng().unit.ref(v))
  def setdefault(self, c, v):
    if c not in self: self[c] = v
    return self[c]
  def has(self, t): return z3.Select(self.dom, t)
  def to(self, t): return z3.Select(self.val, t)
  def __iter__(self): raise EngineLimit('iteration over a symbolic dict')
  def __bool__(self): raise EngineLimit('truth of a symbolic dict')

class FromGraph(ConvUnit):
  name = 'graph to Jaxpr'
  functions = ['jaxpr_editor._graph_to_jaxpr']
  assumptions = ['_graph_to_jaxpr: the type of a variable of a graph is determined by its count']
  def mkdict(self, d): return CountMap() if not d else self._nolimit('dict display')
  def dictcomp(self, x): raise EngineLimit('dict comprehension')
  def start_path(self, e):
    self.C0 = z3.Int('C0'); e.ghosts['created'] = z3.BoolVal(False)
  def litval(self, t):
    L = getattr(self.m, '_LiteralValue', None); v = Term(LVAL(t), EQV)
    return L(v) if L else v
  def new_var(self, v): v.__dict__['_ref'] = None
  def set_count(self, v, c):
    e = eng()
    if v.__dict__.get('_ref') is not None or not isinstance(v.aval, Aval): raise EngineLimit('a variable that changes')
    t = z3.Const(e.fresh_name('var'), RefS)
    e.axiom(And(RCNT(t) == iv(c), RAV(t) == v.aval.t))
    v.__dict__['_ref'] = t
    e.prove('_graph_to_jaxpr: at most one variable is made for a count', Implies(iv(c) == self.C0, Not(e.ghosts['created'])))
    e.ghosts['created'] = S(Or(e.ghosts['created'], iv(c) == self.C0))
  def ref(self, v):
    if isinstance(v, VarRef): return v.t
    if isinstance(v, Var) and v.__dict__.get('_ref') is not None: return v.__dict__['_ref']
    raise EngineLimit('variable without a count')
  def good(self, r, t): return r.is_vertex(t)
  def rec(self, x):
    u = Rec.fresh()
    if isinstance(x, (VarRef, Var)):
      t = self.ref(x); return Rec(z3.BoolVal(True), RCNT(t), u.val, RAV(t))
    if isinstance(x, Literal) and isinstance(x.aval, Aval): return Rec(z3.BoolVal(False), u.cnt, self.val(x.val) if isinstance(x.val, Term) else self._nolimit('literal'), x.aval.t)
    raise EngineLimit('atom')
  def oprec(self, q):
    if not isinstance(q, Eqn): raise EngineLimit('equation')
    a, b = self.recs(q.invars), self.recs(q.outvars)
    return OpRec(q.primitive.t, q.params.t, a.n, b.n, a.r, b.r)
  def templates(self, loop, name, v):
    if isinstance(v, CountMap):
      yield 'variables of that count', every(lambda m, t: Implies(m.has(t), And(RCNT(m.to(t)) == t, RAV(m.to(t)) == AVC(t))))
    yield from ConvUnit.templates(self, loop, name, v)
  def state_templates(self, loop, st):
    for n, v in st.items():
      if isinstance(v, CountMap): yield 'variables that were made are kept', lambda s, i, n=n: Implies(self.world_created(s), self.has0(s[n]))
  def world_created(self, s): return s['@created']
  def has0(self, m): m.inst(self.C0); return m.has(self.C0)
  def vertex(self, t):
    eng().axiom(Implies(ISV(t), AV(t) == AVC(CNT(t)))); return Vertex(t)
  def run(self, e):
    seq = self.graph_terms(e, self.vertex); f = self.F
    EqnData = self.m._EqnData
    g = self.ge.ComputationGraph(seq(f['n']['invars'], f['at']['invars']), seq(f['n']['outvars'], f['at']['outvars']),
                                 EqnSeq(f['ne'], lambda k: self.ge.Operation(EqnData(Term(f['prim'](k)), Term(f['par'](k))), seq(f['ni'](k), lambda i: f['ei'](k, i)), seq(f['no'](k), lambda i: f['eo'](k, i)))),
                                 data=seq(f['n']['constvars'], f['at']['constvars']))
    st, j = call_contract(e, '_graph_to_jaxpr', lambda: self.m._graph_to_jaxpr(g))
    if not isinstance(j, Jaxpr): e.fail('_graph_to_jaxpr: returns a Jaxpr', type(j).__name__)
    self.check('_graph_to_jaxpr', [('inputs', j.invars, 'invars'), ('outputs', j.outvars, 'outvars'), ('constants', j.constvars, 'constvars')], j.eqns)
    e.cover('from graph')

# ---------------------------------------------------------------- replace
INP, OUTP = {s: Fn(f'{s}_input', Z, AtomS) for s in 'PRS'}, {s: Fn(f'{s}_output', Z, AtomS) for s in 'PRS'}
class Opq:
  """A value that is only passed on."""
  def __init__(self, nm): self.nm = nm
class CountList:
  """Model of a list of counts: its length and whether the count of the variable W is among them."""
  def __init__(self, n, has): self.n, self.has = n, has
  def length(self): return self.n
  def copy(self): return CountList(self.n, self.has)
  def havoc(self): self.n, self.has = eng().fresh_int('len'), eng().fresh_bool('has'); eng().assume(self.n >= 0)
  def append(self, x): self.has = S(Or(self.has, iv(x) == CNT(eng().unit.W))); self.n = S(self.n + 1)
  def read(self, k): raise EngineLimit('reading a count')
class JReplace(JUnit):
  name = 'replacing in Jaxprs'
  functions = ['jaxpr_editor.replace']
  assumptions = ['_jaxpr_to_graph, _graph_to_jaxpr, intermediate_variables, Operation.subs and graph_editor.replace meet their contracts',
                 'counts of variables are not negative', 'jaxpr_editor.replace: the inputs and the outputs of the replacement are distinct, the pattern has a variable']
  def start_path(self, e):
    self.off = {}; self.graphs = {}; self.done = None; self.visited = []
  def member(self, seq, x, b):
    e = eng(); w = e.fresh_int('where'); n = seq.n
    e.axiom(Implies(b, And(w >= 0, w < n, seq.f(w) == x.t)))
    e.axiom(Implies(And(self.I2 >= 0, self.I2 < n, seq.f(self.I2) == x.t), b))
    return b
  def jx(self, s):
    n = {g: z3.Int(f'{s}_n_{g}') for g in ('constvars', 'invars', 'outvars')}
    for t in n.values(): eng().assume(t >= 0)
    return _pytypes.SimpleNamespace(s=s, n=n, constvars=AtomSeq(n['constvars'], Fn(f'{s}_constvar', Z, AtomS)), invars=AtomSeq(n['invars'], Fn(f'{s}_invar', Z, AtomS)), outvars=AtomSeq(n['outvars'], Fn(f'{s}_outvar', Z, AtomS)))
  # contracts of the callees
  def to_graph(self, j, offset=0):
    s, e = j.s, eng()
    if s in self.graphs: raise EngineLimit('converted twice')
    self.off[s] = iv(offset)
    ops = G.OpSeq(self, s, z3.Int(f'{s}_n_ops')); e.axiom(ops.n >= 0)
    def seq(f, n): 
      r = AtomSeq(n, f); return r
    g = self.ge.ComputationGraph(seq(INP[s], j.n['invars']), seq(OUTP[s], j.n['outvars']), ops, data=Opq('data'))
    self.graphs[s] = g; g.s = s
    return g
  def on_op(self, seq, k): pass
  def on_var(self, seq, k, side, i): pass
  def on_len(self, seq, k): pass
  Op = property(lambda s: s.ge.Operation)
  def int_vars(self, g):
    s, u = g.s, self
    n, w, at = z3.Int(f'{s}_n_vars'), z3.Int(f'{s}_where'), Fn(f'{s}_var', Z, AtomS)
    class VarSet(rt.SymIter):
      def length(x): eng().axiom(And(n >= 0, Implies(self.occ[s], And(w >= 0, w < n, at(w) == self.W)))); return n
      def at(x, k): return Vertex(at(S(k)))
      def parts(x): return [s]
    v = VarSet(); v.n, v.where, v.s = n, w, s
    return v
  def var_sets(self, it):
    ps = it.parts if isinstance(it, rt.SymChain) else [it]
    return ps if ps and all(hasattr(p, 'where') for p in ps) else []
  def seen(self, loop, i):
    """The variable W was among the first i of the sets that are iterated over."""
    off, out = I0, []
    for p in self.var_sets(loop.it): out.append(And(self.occ[p.s], p.where + off < i)); off = off + p.n
    return And(ISV(self.W), Or(out))
  def minmax(self, name, it, kw):
    e = eng()
    if name == 'max' and not set(kw) - {'default'} and isinstance(it, rt.VList) and it._sym() and isinstance(it.model, CountList):
      m = e.fresh_int('max'); e.assume(Implies(it.model.has, m >= CNT(self.W)))
      if 'default' not in kw and not e.branch(it.model.n > 0): raise ValueError('max() of an empty list')
      return SInt(m)
    if name != 'max' or set(kw) - {'default'} or not isinstance(it, rt.LazyComp): raise EngineLimit(name)
    base = it.it
    parts = base.parts if isinstance(base, rt.SymChain) else [base]
    sets = []
    for p in parts:
      if not hasattr(p, 'parts'): raise EngineLimit('max over something else')
      sets += p.parts()
    m = e.fresh_int('max')
    w = Vertex(self.W)
    if it.keep(w):
      e.assume(Implies(Or([self.occ[s] for s in sets]), m >= iv(it.elem(w))))
    return SInt(m)
  def litval(self, t): return Term(LVAL(t), EQV)
  def spec(self, m):
    m.inst(INP['R'](self.I)); m.inst(OUTP['R'](self.I)); m.inst(self.T)
    nI, nO = self.j['R'].n['invars'], self.j['R'].n['outvars']
    a = Implies(self.I < nI, And(m.has(INP['R'](self.I)), m.to(INP['R'](self.I)) == INP['P'](self.I)))
    b = Implies(self.I < nO, And(m.has(OUTP['R'](self.I)), m.to(OUTP['R'](self.I)) == OUTP['P'](self.I)))
    c = Implies(m.has(self.T), Or(self.isin(self.T), self.isout(self.T)))
    return a, b, c
  def subs(self, op, m):
    e = eng()
    if not isinstance(m, SymMap): raise EngineLimit('mapping')
    a, b, c = self.spec(m)
    e.prove('replace: inputs of the replacement become those of the pattern', a)
    e.prove('replace: outputs of the replacement become those of the pattern', b)
    e.prove('replace: other variables of the replacement keep their own names', c)
    R = self.graphs.get('R'); x = [q.inputs for q in (op,)]
    if not (isinstance(op, self.ge.Operation) and isinstance(op.inputs, G.VSeq)): raise EngineLimit('operation')
    return self.ge.Operation(op.data, G.VSeq(self.SUB(op.inputs.t)), G.VSeq(self.SUB(op.outputs.t)))
  def ge_replace(self, pattern, replacement, subject, can_bind):
    e = eng(); n = 'replace'
    P, R, S_ = self.graphs.get('P'), self.graphs.get('R'), self.graphs.get('S')
    if None in (P, R, S_): e.fail(f'{n}: pattern, replacement and subject are converted')
    e.prove(f'{n}: the pattern is searched for', z3.BoolVal(pattern is P.operations))
    e.prove(f'{n}: in the subject', z3.BoolVal(subject is S_))
    e.prove(f'{n}: with the rule for binding variables', z3.BoolVal(can_bind is self.m._can_bind))
    e.prove(f'{n}: the variables of the replacement are named apart from those of the pattern and of the subject',
            Implies(And(Or(self.occ['P'], self.occ['S']), ISV(self.W)), CNT(self.W) < self.off['R']))
    m = self.oplist(replacement); r = R.operations
    e.prove(f'{n}: as many operations as the replacement', m[0] == r.n)
    e.prove(f'{n}: each operation of the replacement, renamed', Implies(self.E < r.n, self.want(m)))
    self.done = Opq('result'); return self.done
  def want(self, m):
    r = self.graphs['R'].operations; E = self.E
    return And(m[1] == r.dt(E), m[2] == self.SUB(r.it(E)), m[3] == self.SUB(r.ot(E)))
  def oplist(self, x):
    if isinstance(x, rt.LazyComp): x = x.to_list()
    if isinstance(x, rt.VList) and x._sym(): m = x.model; return m.n, m.d, m.i, m.o
    if isinstance(x, list) and not list.__len__(x): return I0, z3.Const('d0', G.DataS), z3.Const('i0', G.SeqS), z3.Const('o0', G.SeqS)
    raise EngineLimit('list of operations')
  def list_model(self, v, name, loop):
    if self.var_sets(loop.it):
      if isinstance(v, rt.VList) and v._sym(): return v.model
      if isinstance(v, list) and not list.__len__(v): return CountList(I0, z3.BoolVal(False))
      raise EngineLimit('list of counts')
    return OpAt(*self.oplist(v))
  def from_graph(self, h):
    if h is not self.done or h is None: eng().fail('replace: the edited graph is returned')
    return Opq('jaxpr')
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if self.var_sets(loop.it):
      if rt.kind(v) == 'list': yield 'counts so far', lambda x, i: Implies(self.seen(loop, i), z3.BoolVal(False) if not x._sym() else x.model.has)
      elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
        yield 'largest count so far', lambda x, i: Implies(self.seen(loop, i), iv(x) >= CNT(self.W))
        now = [p.s for p in self.var_sets(loop.it)]
        before = [s for s in self.visited if s not in now]; self.visited = before + now
        yield 'largest count of the sets before', lambda x, i: Implies(And(ISV(self.W), Or([self.occ[s] for s in before])), iv(x) >= CNT(self.W))
    elif rt.kind(v) == 'list' and 'R' in self.graphs:
      yield 'one for each operation', lambda x, i: self.oplist(x)[0] == i
      yield 'renamed operations so far', lambda x, i: Implies(self.E < i, self.want(self.oplist(x)))
    if isinstance(v, SymMap):
      yield 'only inputs and outputs', every(lambda m, t: Implies(m.has(t), Or(self.isin(t), self.isout(t))))
      yield 'only inputs', every(lambda m, t: Implies(m.has(t), self.isin(t)))
      if 'R' in self.graphs:
        n = self.j['R'].n['invars']; no = self.j['R'].n['outvars']
        def f(side, lo, m, i):
          t = side['R'](self.I); m.inst(t); return Implies(And(self.I + lo < i, self.I < (n if side is INP else no)), And(m.has(t), m.to(t) == side['P'](self.I)))
        for side, s in ((INP, 'inputs'), (OUTP, 'outputs')):
          for lo, l in ((0, ''), (n, ' after inputs'), (no, ' after outputs')):
            yield f'{s} so far{l}', lambda m, i, side=side, lo=lo: f(side, lo, m, i)
          yield f'{s}', lambda m, i, side=side: f(side, I0, m, self.I + 1)
  def state_templates(self, loop, st):
    if isinstance(loop.it, AtomSeq):
      for s in 'PR':
        if loop.it is self.j[s].outvars:
          yield 'computed outputs so far', lambda st, i, s=s: Implies(self.I < i, self.computed(s))
  def computed(self, s):
    j = self.j[s]; t = j.outvars.f(self.I)
    return And(ISV(t), Implies(self.I2 < j.n['invars'], t != j.invars.f(self.I2)))
  def atoms(self, side, n, k):
    # facts about position k of the inputs or outputs of the replacement: they are inputs (outputs), and distinct
    e = eng(); t = INP['R'](k) if side is INP else OUTP['R'](k)
    e.axiom(Implies(And(k >= 0, k < n), (self.isin if side is INP else self.isout)(t)))
    e.axiom(Implies(And(k >= 0, k < n, k != self.I), t != side['R'](self.I)))
    other = OUTP if side is INP else INP
    e.axiom(t != other['R'](self.I))
  def run(self, e):
    self.I, self.I2, self.E = z3.Int('I'), z3.Int('I2'), z3.Int('E'); e.assume(And(self.I >= 0, self.I2 >= 0, self.E >= 0))
    self.W, self.T = z3.Const('W', AtomS), z3.Const('T', AtomS)
    self.SUB = Fn('renamed', G.SeqS, G.SeqS)
    self.isin, self.isout = Fn('is_input_of_replacement', AtomS, B), Fn('is_output_of_replacement', AtomS, B)
    self.occ = {s: z3.Bool(f'W_occurs_in_{s}') for s in 'PSR'}
    self.j = {s: self.jx(s) for s in 'PRS'}
    m = self.m
    nI, nO = self.j['R'].n['invars'], self.j['R'].n['outvars']
    m._jaxpr_to_graph, m._graph_to_jaxpr = self.to_graph, self.from_graph
    self.ge.ComputationGraph.intermediate_variables = lambda g: self.int_vars(g)
    self.ge.Operation.subs = lambda op, mp: self.subs(op, mp)
    self.ge.replace = self.ge_replace
    unit = self
    # the inputs and outputs of the replacement graph
    def to_graph(j, offset=0):
      g = unit.to_graph(j, offset)
      if j.s == 'R':
        g.inputs.ax = lambda k: unit.atoms(INP, nI, k); g.outputs.ax = lambda k: unit.atoms(OUTP, nO, k)
      return g
    m._jaxpr_to_graph = to_graph
    st, r = call_contract(e, 'replace', lambda: m.replace(self.j['P'], self.j['R'], self.j['S']), raises=(ValueError, NotImplementedError))
    if st == 'raise': e.cover(f'refused {type(r).__name__}'); return
    P, R = self.j['P'], self.j['R']
    e.prove('replace: a different number of inputs or outputs is refused', And(P.n['invars'] == nI, P.n['outvars'] == nO))
    e.prove('replace: constants are refused', And(P.n['constvars'] == 0, R.n['constvars'] == 0))
    for s, w in (('P', 'pattern'), ('R', 'replacement')):
      e.prove(f'replace: a {w} whose output is a literal or an input is refused', Implies(self.I < self.j[s].n['outvars'], self.computed(s)))
    e.prove('replace: returns the edited Jaxpr', z3.BoolVal(isinstance(r, Opq) and r.nm == 'jaxpr' and self.done is not None))
    e.cover('replaced')
class OpAt:
  """Model of a list of operations: its length and its operation at position E."""
  def __init__(self, n, d, i, o): self.n, self.d, self.i, self.o = n, d, i, o
  def length(self): return self.n
  def copy(self): return OpAt(self.n, self.d, self.i, self.o)
  def havoc(self):
    e = eng(); self.n = e.fresh_int('len'); self.d, self.i, self.o = [z3.Const(e.fresh_name(a), s) for a, s in (('d', G.DataS), ('i', G.SeqS), ('o', G.SeqS))]
  def append(self, op):
    e = eng(); u = e.unit
    if not isinstance(op, u.ge.Operation) or not isinstance(op.inputs, G.VSeq): raise EngineLimit('operation')
    c = self.n == u.E
    self.d, self.i, self.o = If(c, op.data.t, self.d), If(c, op.inputs.t, self.i), If(c, op.outputs.t, self.o); self.n = S(self.n + 1)
  def read(self, k): raise EngineLimit('reading an operation')
  def to_seq(self): raise EngineLimit('tuple of operations')
