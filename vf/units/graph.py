"""C13: the graph editor.  Variables, operation data and argument lists are uninterpreted; all lengths are symbolic."""
import z3
from ..core import *
from .. import rt
from ..load import World
from ..seq import Seq
from ..unit import Unit, call_contract

Z, B = z3.IntSort(), z3.BoolSort()
VarS, DataS, SeqS, OpS, WordS, EnvS, MapS = [z3.DeclareSort(n) for n in ('Var', 'Data', 'Args', 'Op', 'Word', 'Env', 'Map')]
Fn = z3.Function
LEN, EL, OCC = Fn('len', SeqS, Z), Fn('el', SeqS, Z, VarS), Fn('occurs', SeqS, VarS, B)
CB = Fn('can_bind', VarS, VarS, B)
OPT = Fn('op', DataS, SeqS, SeqS, OpS)
SUBS = Fn('subs', SeqS, MapS, SeqS)
EMPTY = z3.Const('empty', WordS); APP = Fn('app', WordS, OpS, WordS); CATR = Fn('cat', WordS, WordS, WordS)
REPW = Fn('replacement_word', MapS, Z, WordS)
SEM = Fn('sem', WordS, EnvS); STEP = Fn('step', EnvS, OpS, EnvS); SEMR = Fn('sem_replacement', EnvS, MapS, EnvS)
RUN = Fn('run_subject', Z, EnvS)
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
S = z3.simplify

class V:
  """A variable of a graph."""
  __vf__ = True
  def __init__(self, t): self.t = t
  def __eq__(self, o): return sb(self.t == o.t) if isinstance(o, V) else False
  def __ne__(self, o): return sb(self.t != o.t) if isinstance(o, V) else True
  def __hash__(self): raise EngineLimit('hash of a symbolic variable')
  def __bool__(self): return eng().branch(TRUEV(self.t)) if self.t.sort() == G_VarS else True       # any hashable object, including 0 and ''
  def __repr__(self): return f'V({self.t})'
class D:
  """The data of an operation."""
  __vf__ = True
  def __init__(self, t): self.t = t
  def __eq__(self, o): return sb(self.t == o.t) if isinstance(o, D) else False
  def __ne__(self, o): return sb(self.t != o.t) if isinstance(o, D) else True
  def __bool__(self): return eng().branch(TRUED(self.t)) if self.t.sort() == DataS else True
  __hash__ = None
G_VarS = VarS
TRUEV, TRUED = Fn('is_truthy', VarS, B), Fn('data_is_truthy', DataS, B)
class VSeq(Seq):
  """The inputs or outputs of an operation or a graph."""
  def __init__(self, t, at=None, ax=None): self.t = t; self.extra = at; self.ax = ax
  def length(self):
    eng().axiom(LEN(self.t) >= 0)
    if self.ax: self.ax()
    return LEN(self.t)
  def at(self, k):
    e = eng(); k = S(k)
    e.axiom(Implies(And(k >= 0, k < LEN(self.t)), OCC(self.t, EL(self.t, k))))
    if self.extra: self.extra(k)
    return V(EL(self.t, k))
  def __eq__(self, o): return SBool(self.t == o.t) if isinstance(o, VSeq) else NotImplemented
  def __ne__(self, o): return SBool(self.t != o.t) if isinstance(o, VSeq) else NotImplemented
  __hash__ = None
class OpSeq(Seq):
  """A sequence of operations (a window [off, off+n) of a named one)."""
  def __init__(self, unit, name, n, off=None):
    self.u, self.nm, self.n, self.off = unit, name, n, off if off is not None else z3.IntVal(0)
    self.dt, self.it, self.ot = [Fn(f'{x}_{name}', Z, s) for x, s in (('data', DataS), ('in', SeqS), ('out', SeqS))]
  def length(self): return self.n
  def at(self, k):
    k = S(k + self.off)
    self.u.on_op(self, k)
    f = lambda side, t: VSeq(t, lambda i: self.u.on_var(self, k, side, i), lambda: self.u.on_len(self, k))
    return self.u.Op(D(self.dt(k)), f('in', self.it(k)), f('out', self.ot(k)))
  def slice(self, s):
    w = Seq.slice(self, s)
    n = self.n
    def norm(v, d):
      if v is None: return d
      v = iv(v); c = conc_int(v)
      v = (n + c if c < 0 else v) if c is not None else If(v < 0, n + v, v)
      return S(If(v < 0, 0, If(v > n, n, v)))
    return OpSeq(self.u, self.nm, w.length(), S(self.off + norm(s.start, z3.IntVal(0))))

class SymMap:
  """A dict from variables to variables."""
  def __init__(self, dom=None, val=None):
    self.VarS = VarS = getattr(eng().unit, 'key_sort', G_VarS)
    self.dom = dom if dom is not None else z3.K(VarS, z3.BoolVal(False))
    self.val = val if val is not None else z3.Const('val0', z3.ArraySort(VarS, VarS))
    self.facts = []
    self.M = None
    self.version = 0; eng().vlists.append(self)
  @property
  def model(self): return self
  def copy(self):
    r = SymMap.__new__(SymMap); r.VarS = self.VarS; r.version = 0; r.facts = []; r.dom, r.val = self.dom, self.val; r.facts = list(self.facts); r.M = self.M; return r
  def copy_(self):
    r = SymMap(self.dom, self.val); r.facts = list(self.facts); r.M = self.M; return r
  def vf_havoc(self, loop):
    e = eng()
    VarS = self.VarS
    self.dom = z3.Const(e.fresh_name('dom'), z3.ArraySort(VarS, B)); self.val = z3.Const(e.fresh_name('val'), z3.ArraySort(VarS, VarS))
    self.facts = []
  def inst(self, t):
    for snap, f in self.facts: eng().axiom(f(snap, t))
  def key(self, u):
    if not isinstance(u, V) or u.t.sort() != self.VarS: raise EngineLimit('dictionary key')
    self.inst(u.t); return u.t
  def __contains__(self, u):
    t = self.key(u); return eng().branch(z3.Select(self.dom, t))
  def __getitem__(self, u):
    t = self.key(u)
    if not eng().branch(z3.Select(self.dom, t)): raise KeyError(u)
    return eng().unit.wrap(S(z3.Select(self.val, t)))
  def get(self, u, d=None):
    t = self.key(u)
    if isinstance(d, V): return V(S(If(z3.Select(self.dom, t), z3.Select(self.val, t), d.t)))
    return V(S(z3.Select(self.val, t))) if eng().branch(z3.Select(self.dom, t)) else d
  def __setitem__(self, u, v):
    t = self.key(u)
    if not isinstance(v, V): raise EngineLimit('dictionary value')
    self.version += 1
    self.dom, self.val = z3.Store(self.dom, t, z3.BoolVal(True)), z3.Store(self.val, t, v.t)
  def setdefault(self, u, v):
    if u not in self: self[u] = v
    return self[u]
  def update(self, it):
    if isinstance(it, SymMap): raise EngineLimit('update')
    rt.map_update(self, it)
  def has(self, t): return z3.Select(self.dom, t)
  def to(self, t): return z3.Select(self.val, t)
  def __iter__(self): raise EngineLimit('iteration over a symbolic dict')
  def __vf_dict__(self): return self.copy_()
  def __vf_isinstance__(self, cls): return cls is dict or isinstance(cls, tuple) and dict in cls
  def __bool__(self): raise EngineLimit('truth of a symbolic dict')

class every:
  """Invariant candidate for every key of a dict."""
  def __init__(self, f): self.f = f
  def __call__(self, m, i):
    t = z3.Const(eng().fresh_name('key'), m.VarS); m.inst(t)
    return self.f(m, t)
  def assume(self, m, i):
    m.facts.append((m.copy(), self.f))

class SymSet:
  """A set of variables seen at one Skolem variable W."""
  def __init__(self, mem=None, W=None):
    self.mem = mem if mem is not None else z3.BoolVal(False)
    self.W = W if W is not None else eng().unit.W
    self.version = 0; eng().vlists.append(self)
  def vf_havoc(self, loop): self.mem = eng().fresh_bool('mem')
  def update(self, *xs):
    self.version += 1
    for x in xs: self.mem = S(Or(self.mem, eng().unit.occurs(x)))
  def add(self, v):
    self.version += 1; self.mem = S(Or(self.mem, v.t == self.W))
  def __or__(self, o): return SymSet(S(Or(self.mem, o.mem)))
  def __ior__(self, o): self.version += 1; self.mem = S(Or(self.mem, o.mem)); return self
  def union(self, *xs):
    r = SymSet(self.mem); r.update(*xs); return r
  def __sub__(self, o): return SymSet(S(And(self.mem, Not(o.mem))))
  def copy(self): return SymSet(self.mem)
  def __contains__(self, v):
    b = eng().fresh_bool('in')
    eng().axiom(Implies(v.t == self.W, b == self.mem))
    return eng().branch(b)

class GraphUnit(Unit):
  wrap = staticmethod(V)
  def make_world(self):
    w = World()
    self.m = w.get('autobound.graph_editor'); self.Op = self.m.Operation
    return w
  def start_path(self, e): self.W = z3.Const('W', VarS)
  def on_op(self, seq, k): pass
  def on_var(self, seq, k, side, i): pass
  def on_len(self, seq, k): pass
  def mkdict(self, d): return SymMap() if not d else self._nolimit('dict display')
  def dictcomp(self, x): return rt.map_update(SymMap(), x)
  def to_set(self, x): return SymSet(self.occurs(x))
  def new_set(self): return SymSet()
  def occurs(self, x):
    if isinstance(x, SymSet): return x.mem
    if isinstance(x, VSeq): return OCC(x.t, self.W)
    if isinstance(x, (tuple, list)) and not x: return z3.BoolVal(False)
    raise EngineLimit('set of something else')
  def same_seq(self, name, x, t):
    eng().prove(name, x.t == t if isinstance(x, VSeq) else z3.BoolVal(False))
  def outer_k(self): return eng().loop_stack[0].k if eng().loop_stack else None

# ---------------------------------------------------------------- match
class Match(GraphUnit):
  name = 'matching a pattern'
  functions = ['graph_editor.match']
  assumptions = ['graph variables and operation data have reflexive, symmetric and transitive equality (and hashes that agree with it)']
  eager_restart = False
  def start_path(self, e):
    GraphUnit.start_path(self, e)
    self.K, self.I, self.O = z3.Int('K'), z3.Int('I'), z3.Int('O')
    self.sigma = None
  def on_len(self, seq, k):
    if self.sigma is None: return
    P, Q = self.P, self.Q
    eng().axiom(Implies(And(k >= 0, k < P.n), And(LEN(P.it(k)) == LEN(Q.it(k)), LEN(P.ot(k)) == LEN(Q.ot(k)), P.dt(k) == Q.dt(k))))
  def on_op(self, seq, k): self.on_len(seq, k)
  def on_var(self, seq, k, side, i):
    e, P, Q = eng(), self.P, self.Q
    p, q = (P.it(k), Q.it(k)) if side == 'in' else (P.ot(k), Q.ot(k))
    ok = And(k >= 0, k < P.n, i >= 0, i < LEN(p))
    e.axiom(Implies(ok, self.OCCP(EL(p, i))))
    if self.sigma is not None:
      e.axiom(Implies(ok, And(self.sigma(EL(p, i)) == EL(q, i), CB(EL(p, i), EL(q, i)))))
  def facts(self, m):
    P, Q, K = self.P, self.Q, self.K
    mapped = lambda p, q, i: Implies(And(i >= 0, i < LEN(p)), And(m.has(EL(p, i)), m.to(EL(p, i)) == EL(q, i)))
    return dict(data=P.dt(K) == Q.dt(K), lengths=And(LEN(P.it(K)) == LEN(Q.it(K)), LEN(P.ot(K)) == LEN(Q.ot(K))),
                inputs=mapped(P.it(K), Q.it(K), self.I), outputs=mapped(P.ot(K), Q.ot(K), self.O))
  def state_templates(self, loop, st):
    maps = [n for n, v in st.items() if isinstance(v, SymMap)] or [None]
    # the dict may be bound outside of this loop
    out = []
    if self.sigma is not None: return out
    def get(s, nm): return s[nm] if nm else self.the_map
    K, I, O = self.K, self.I, self.O
    for nm in maps:
      if nm is None and getattr(self, 'the_map', None) is None: continue
      for f in ('data', 'lengths', 'inputs', 'outputs'):
        ok = self.outer_k()
        if ok is None:
          out.append((f'{f} of the operations so far', lambda s, i, f=f, nm=nm: Implies(K < i, self.facts(get(s, nm))[f])))
        else:
          out.append((f'{f} of the previous operations', lambda s, i, f=f, nm=nm: Implies(K < ok, self.facts(get(s, nm))[f])))
          out.append((f'{f} of this operation', lambda s, i, f=f, nm=nm: Implies(K == ok, self.facts(get(s, nm))[f])))
      ok = self.outer_k()
      if ok is not None:
        nin = lambda: LEN(self.P.it(ok))
        out.append(('inputs so far', lambda s, i, nm=nm: Implies(And(K == ok, I < i), self.facts(get(s, nm))['inputs'])))
        out.append(('outputs so far', lambda s, i, nm=nm: Implies(And(K == ok, O < i), self.facts(get(s, nm))['outputs'])))
        out.append(('outputs so far, after the inputs', lambda s, i, nm=nm: Implies(And(K == ok, O + nin() < i), self.facts(get(s, nm))['outputs'])))
        out.append(('inputs so far, after the outputs', lambda s, i, nm=nm: Implies(And(K == ok, I + LEN(self.P.ot(ok)) < i), self.facts(get(s, nm))['inputs'])))
    return out
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if isinstance(v, SymMap):
      self.the_map = v
      if self.sigma is not None:
        yield 'part of every renaming', every(lambda m, t: Implies(m.has(t), m.to(t) == self.sigma(t)))
      yield 'binds only bindable variables of the pattern', every(lambda m, t: Implies(m.has(t), And(CB(t, m.to(t)), self.OCCP(t))))
  def run(self, e):
    nP, nS = z3.Int('nP'), z3.Int('nS'); e.assume(And(nP >= 0, nS >= 0))
    self.OCCP = Fn('occurs_in_pattern', VarS, B)
    self.P, self.Q = OpSeq(self, 'P', nP), OpSeq(self, 'S', nS)
    self.the_map = None
    complete = e.choose(2)
    if complete:
      e.assume(nP == nS); self.sigma = Fn('sigma', VarS, VarS)
    else:
      e.assume(And(self.K >= 0, self.K < nP))
    cb = lambda u, v: SBool(CB(u.t, v.t)) if isinstance(u, V) and isinstance(v, V) else self._nolimit('can_bind')
    st, r = call_contract(e, 'match', lambda: self.m.match(self.P, self.Q, cb))
    if complete:
      e.prove('match: an occurrence is found whenever a consistent bindable renaming exists', z3.BoolVal(r is not None))
      if r is not None:
        t = z3.Const('t', VarS); r.inst(t)
        e.prove('match: the mapping is that renaming', Implies(r.has(t), r.to(t) == self.sigma(t)))
      e.cover('match, complete'); return
    if r is None: return
    e.prove('match: result is a mapping', z3.BoolVal(isinstance(r, SymMap)))
    e.prove('match: same number of operations', nP == nS)
    fs = self.facts(r)
    for t in (EL(self.P.it(self.K), self.I), EL(self.P.ot(self.K), self.O)): r.inst(t)
    e.prove('match: operation K has the same data', fs['data'])
    e.prove('match: operation K has as many inputs and outputs', fs['lengths'])
    e.prove('match: every input of operation K is renamed to the input of the subject', fs['inputs'])
    e.prove('match: every output of operation K is renamed to the output of the subject', fs['outputs'])
    t = z3.Const('t', VarS); r.inst(t)
    e.prove('match: only variables of the pattern are mapped, each to a variable it can bind to', Implies(r.has(t), And(CB(t, r.to(t)), self.OCCP(t))))
    e.cover('match, sound')

# ---------------------------------------------------------------- subs
class VarListAt:
  """Model of a list of variables: its length and its element at position J."""
  def __init__(self, J, n=None, t=None): self.J, self.n, self.t = J, n, t
  def length(self): return self.n
  def copy(self): return VarListAt(self.J, self.n, self.t)
  def havoc(self):
    e = eng(); self.n, self.t = e.fresh_int('len'), z3.Const(e.fresh_name('elt'), VarS); e.assume(self.n >= 0)
  def append(self, x):
    if not isinstance(x, V): raise EngineLimit('element')
    self.t = If(self.n == self.J, x.t, self.t); self.n = S(self.n + 1)
  def read(self, k):
    if eng().valid(k == self.J, quick=True)[0] == 'proved': return V(self.t)
    raise EngineLimit('list element at an untracked position')
  def to_seq(self):
    m = self.copy(); return Seq(m.n, m.read)

class Subs(GraphUnit):
  name = 'renaming an operation'
  functions = ['graph_editor.Operation.subs']
  def want(self, m, t): return If(m.has(t), m.to(t), t)
  def list_model(self, v, name, loop):
    m = VarListAt(self.J, z3.IntVal(0), z3.Const('elt0', VarS))
    for x in list.__iter__(v): m.append(x)
    return m
  def to_tuple(self, x): return x
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if rt.kind(v) == 'list':
      def model(x): return x.model or self.list_model(x, name, loop)
      yield 'one element for each variable', lambda x, i: model(x).n == i
      for nm, s in (('variable of the sequence', loop.it.t),) if isinstance(loop.it, VSeq) else (('input', self.ins), ('output', self.outs)):
        yield f'renamed {nm}', lambda x, i, s=s: Implies(self.J < i, model(x).t == self.want(self.map, EL(s, self.J)))
  def run(self, e):
    self.J = z3.Int('J'); self.ins, self.outs = z3.Const('ins', SeqS), z3.Const('outs', SeqS)
    e.assume(self.J >= 0)
    dt = z3.Const('data', DataS)
    self.map = SymMap(z3.Const('dom', z3.ArraySort(VarS, B)), z3.Const('val', z3.ArraySort(VarS, VarS)))
    op = self.Op(D(dt), VSeq(self.ins), VSeq(self.outs))
    st, r = call_contract(e, 'subs', lambda: op.subs(self.map))
    e.prove('subs: the data is unchanged', r.data.t == dt if isinstance(r.data, D) else z3.BoolVal(False))
    for nm, x, s in (('inputs', r.inputs, self.ins), ('outputs', r.outputs, self.outs)):
      n = rt._len(x)
      e.prove(f'subs: same number of {nm}', iv(n) == LEN(s))
    for nm, x, s in (('inputs', r.inputs, self.ins), ('outputs', r.outputs, self.outs)):
      if e.branch(self.J < LEN(s)):
        y = x[SInt(self.J)]
        e.prove(f'subs: {nm} are renamed where the mapping has an entry and kept otherwise', y.t == self.want(self.map, EL(s, self.J)))
    e.cover('subs')

# ---------------------------------------------------------------- sets of variables
class SetUnit(GraphUnit):
  eager_restart = False
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    if isinstance(v, SymSet):
      m0 = v.mem
      yield 'unchanged', lambda x, i: x.mem == m0
      if isinstance(loop.it, OpSeq):
        yield 'variables so far', lambda x, i: x.mem == Or(m0, self.pre(i, True, True))
        yield 'inputs so far', lambda x, i: x.mem == Or(m0, self.pre(i, True, False))
        yield 'outputs so far', lambda x, i: x.mem == Or(m0, self.pre(i, False, True))
      if isinstance(loop.it, VSeq): yield 'elements so far', lambda x, i: x.mem == Or(m0, self.among(loop.it.t, i))
  AMONG = Fn('W_among_the_first', SeqS, Z, B)
  def among(self, s, i):
    e, f = eng(), self.AMONG; i = S(i)
    for k in (i, S(i - 1)): e.axiom(Implies(And(k >= 0, k < LEN(s)), f(s, S(k + 1)) == Or(f(s, k), EL(s, k) == self.W)))
    e.axiom(And(Not(f(s, 0)), f(s, LEN(s)) == OCC(s, self.W), LEN(s) >= 0))
    return f(s, i)
  def state_templates(self, loop, st):
    if isinstance(loop.it, OpSeq): yield 'not used so far', lambda s, i: Not(And(self.hit, self.pre(i, True, False)))
    elif isinstance(loop.it, VSeq): yield 'not used so far', lambda s, i: Implies(self.hit, z3.ForAll([self.j], Implies(And(self.j >= 0, self.j < i), EL(loop.it.t, self.j) != self.W)))
  j = z3.Int('j')
  hit = z3.BoolVal(False)
  def pre(self, i, ins, outs):
    r = z3.BoolVal(False)
    if ins: r = Or(r, self.PI(i))
    if outs: r = Or(r, self.PO(i))
    return r
  def start_path(self, e):
    GraphUnit.start_path(self, e)
    self.PI, self.PO = Fn('W_input_before', Z, B), Fn('W_output_before', Z, B)
    e.axiom(And(Not(self.PI(0)), Not(self.PO(0))))
  def on_op(self, seq, k):
    eng().axiom(Implies(k >= 0, And(self.PI(S(k + 1)) == Or(self.PI(k), OCC(seq.it(k), self.W)), self.PO(S(k + 1)) == Or(self.PO(k), OCC(seq.ot(k), self.W)))))

class IntVars(SetUnit):
  name = 'variables of a graph'
  functions = ['graph_editor.ComputationGraph.intermediate_variables']
  def run(self, e):
    n = z3.Int('n'); e.assume(n >= 0)
    ins, outs = z3.Const('ins', SeqS), z3.Const('outs', SeqS)
    g = self.m.ComputationGraph(VSeq(ins), VSeq(outs), OpSeq(self, 'G', n))
    st, r = call_contract(e, 'intermediate_variables', lambda: g.intermediate_variables())
    e.prove('intermediate_variables: exactly the inputs, the outputs and the arguments and results of the operations',
            r.mem == Or(OCC(ins, self.W), OCC(outs, self.W), self.PI(n), self.PO(n)) if isinstance(r, SymSet) else z3.BoolVal(False))
    e.cover('intermediate_variables')

class Used(SetUnit):
  name = 'variables that are defined or used'
  functions = ['graph_editor._defined_variables', 'graph_editor._is_used']
  def run(self, e):
    n = z3.Int('n'); e.assume(n >= 0)
    ops = OpSeq(self, 'G', n)
    # OCC(s, W) holds only if W is one of the elements
    def occ_def(s):
      k = z3.Const(e.fresh_name('where'), Z)
      e.axiom(Implies(OCC(s, self.W), And(k >= 0, k < LEN(s), EL(s, k) == self.W)))
    if e.choose(2):
      st, r = call_contract(e, '_defined_variables', lambda: self.m._defined_variables(ops))
      e.prove('_defined_variables: exactly the results of the operations', r.mem == self.PO(n) if isinstance(r, SymSet) else z3.BoolVal(False))
      e.cover('_defined_variables'); return
    outs = z3.Const('outs', SeqS)
    self.hit = z3.Bool('W_in_set')
    occ_def(outs)
    self.occ_def = occ_def
    st, r = call_contract(e, '_is_used', lambda: self.m._is_used(SymSet(self.hit), ops, VSeq(outs)))
    if r is False or r is True:
      e.prove('_is_used: no variable of the set is used if the result is False', Or(z3.BoolVal(r), Not(And(self.hit, Or(OCC(outs, self.W), self.PI(n))))))
    else: e.prove('_is_used: returns a truth value', z3.BoolVal(False))
    e.cover(f'_is_used {r}')
  occ_def = None
  def on_op(self, seq, k):
    SetUnit.on_op(self, seq, k)
    if self.occ_def: self.occ_def(seq.it(k))

class Overlap(GraphUnit):
  name = 'inputs bound to results'
  functions = ['graph_editor._binds_input_to_output']
  assumptions = ['_defined_variables meets its contract']
  eager_restart = False
  def make_world(self):
    w = GraphUnit.make_world(self); self.m._defined_variables = self.defined; return w
  def defined(self, ops):
    if ops is self.P: return SymSet(self.defP, self.U)
    if ops is self.Q: return SymSet(self.defQ, self.MU)
    raise EngineLimit('defined variables of something else')
  def state_templates(self, loop, st):
    bad = And(Not(self.defP), self.defQ)
    if isinstance(loop.it, OpSeq): yield 'no such operation so far', lambda s, i: Implies(self.K < i, Not(bad))
    elif isinstance(loop.it, VSeq): yield 'no such variable so far', lambda s, i: Implies(And(self.K == loop.outer[0].k, self.I < i), Not(bad)) if loop.outer else z3.BoolVal(True)
  def run(self, e):
    n, k = z3.Int('n'), z3.Int('k'); e.assume(And(n >= 0, k >= 0))
    self.P, self.Q = OpSeq(self, 'P', n), OpSeq(self, 'Q', k)
    self.K, self.I = z3.Int('K'), z3.Int('I')
    self.U = EL(self.P.it(self.K), self.I)
    self.defP, self.defQ = z3.Bool('U_defined_by_pattern'), z3.Bool('mapped_U_defined_by_subject')
    m = SymMap(z3.K(VarS, z3.BoolVal(True)), z3.Const('val', z3.ArraySort(VarS, VarS)))
    self.MU = m.to(self.U)
    e.assume(And(self.K >= 0, self.K < n, self.I >= 0, self.I < LEN(self.P.it(self.K))))
    st, r = call_contract(e, '_binds_input_to_output', lambda: self.m._binds_input_to_output(m, self.P, self.Q))
    r = bv(r) if isinstance(r, SBool) else z3.BoolVal(bool(r))
    e.prove('_binds_input_to_output: if the result is False, no variable that the pattern only uses is mapped to one that the subject defines', Implies(Not(r), Or(self.defP, Not(self.defQ))))
    e.cover(f'overlap {r}')

# ---------------------------------------------------------------- replace
class Word:
  """Model of a list of operations: an element of the free monoid."""
  def __init__(self, n, w): self.n, self.w = n, w
  def length(self): return self.n
  def copy(self): return Word(self.n, self.w)
  def havoc(self):
    e = eng(); self.n, self.w = e.fresh_int('len'), z3.Const(e.fresh_name('word'), WordS); e.assume(self.n >= 0)
  def append(self, x):
    self.w = eng().unit.app(self.w, x); self.n = S(self.n + 1)
  def read(self, k): raise EngineLimit('reading from a list of operations')
  def to_seq(self): raise EngineLimit('tuple of operations')

class Replace(GraphUnit):
  name = 'replacing occurrences'
  functions = ['graph_editor.replace']
  assumptions = ['match, Operation.subs, _defined_variables, _is_used and _binds_input_to_output meet their contracts',
                 'replace: the pattern is not empty; the replacement has the effect of the pattern, whatever variables its inputs are bound to (other than results of the occurrence); its own variables do not occur in the subject']
  eager_restart = False
  W2 = None
  def make_world(self):
    w = GraphUnit.make_world(self); m = self.m
    m.match = self.match_stub
    m._defined_variables = self.defined_stub
    m._is_used = self.used_stub
    m._binds_input_to_output = self.binds_stub
    m.Operation.subs = lambda op, mp: self.subs_stub(op, mp)
    return w
  def start_path(self, e):
    GraphUnit.start_path(self, e)
    self.sets, self.pending = {}, None
  # words
  def optm(self, op):
    if isinstance(op, self.Op) and isinstance(op.data, D) and isinstance(op.inputs, VSeq) and isinstance(op.outputs, VSeq):
      return OPT(op.data.t, op.inputs.t, op.outputs.t)
    raise EngineLimit('operation of another form')
  def app(self, w, op):
    t = self.optm(op); r = APP(w, t)
    eng().axiom(SEM(r) == STEP(SEM(w), t)); return r
  def word(self, x):
    if isinstance(x, rt.VList):
      if x._sym(): return x.model
      x = list(list.__iter__(x))
    if isinstance(x, (list, tuple)):
      m = Word(z3.IntVal(0), EMPTY)
      for o in x: m.append(o)
      return m
    raise EngineLimit('list of operations')
  def list_model(self, v, name, loop): return self.word(v)
  def list_extend(self, v, other):
    e = eng()
    if isinstance(other, rt.LazyComp): other = other.to_list()
    a, b = self.word(v), self.word(other)
    w = S(CATR(a.w, b.w)); a2 = Word(S(a.n + b.n), w)
    if self.pending is not None and e.valid(b.w == REPW(self.pending['M'], self.nR), quick=True)[0] == 'proved':
      p = self.pending
      e.axiom(SEM(CATR(a.w, b.w)) == SEMR(SEM(a.w), p['M']))
      for f in self.guards(): pass
      e.prove('replace: no variable that an occurrence defines and its replacement does not is used afterwards or returned',
              Implies(And(p['defw'], Not(p['defr'])), Not(Or(p['used'], OCC(self.gouts, self.W)))))
    v.model = a2
  def concat(self, a, b):
    r = rt.VList(); r.model = self.word(a).copy(); self.list_extend(r, b); return r
  def guards(self): return ()
  # contracts of the callees
  def is_seq(self, x, s): return x is s or isinstance(x, OpSeq) and x.nm == s.nm and z3.is_true(S(And(x.off == s.off, x.n == s.n)))
  def match_stub(self, pattern, window, can_bind):
    e = eng()
    e.prove('match: called with the pattern and the binding rule', z3.BoolVal(self.is_seq(pattern, self.P) and can_bind is self.cb))
    if not (isinstance(window, OpSeq) and window.nm == 'G'): raise EngineLimit('match with something else')
    if not e.branch(e.fresh_bool('matches')): return None
    e.assume(window.n == self.P.n)
    M = z3.Const(e.fresh_name('M'), MapS)
    m = SymMap(z3.Const(e.fresh_name('dom'), z3.ArraySort(VarS, B)), z3.Const(e.fresh_name('val'), z3.ArraySort(VarS, VarS))); m.M = M
    apart = e.fresh_bool('inputs_defined_before')
    e.axiom(Implies(apart, SEMR(RUN(window.off), M) == RUN(S(window.off + window.n))))
    e.axiom(REPW(M, 0) == EMPTY)
    self.pending = dict(M=M, win=window, apart=apart, defw=e.fresh_bool('W_defined_by_occurrence'), defr=e.fresh_bool('W_defined_by_replacement'), used=e.fresh_bool('W_used_later'))
    return m
  def binds_stub(self, mp, pattern, window):
    e, p = eng(), self.pending
    if p is None or mp.M is None or not (isinstance(window, OpSeq) and window.nm == 'G'): raise EngineLimit('inputs of something else')
    e.prove('_binds_input_to_output: of the pattern and the occurrence', And(self.is_seq(pattern, self.P), window.off == p['win'].off, window.n == p['win'].n, mp.M == p['M']))
    if e.branch(e.fresh_bool('binds_input_to_output')): return True
    e.axiom(p['apart']); return False
  def subs_stub(self, op, mp):
    e = eng()
    if not isinstance(mp, SymMap) or mp.M is None: raise EngineLimit('subs with another mapping')
    return self.Op(op.data, VSeq(SUBS(op.inputs.t, mp.M)), VSeq(SUBS(op.outputs.t, mp.M)))
  def defined_stub(self, ops):
    e, p = eng(), self.pending
    if p is None: raise EngineLimit('defined variables before a match')
    if isinstance(ops, OpSeq) and ops.nm == 'G':
      e.prove('_defined_variables: of the occurrence', And(ops.off == p['win'].off, ops.n == p['win'].n)); return SymSet(p['defw'])
    w = self.word(ops)
    e.prove('_defined_variables: of the replacement', w.w == REPW(p['M'], self.nR)); return SymSet(p['defr'])
  def used_stub(self, s, ops, outs):
    e, p = eng(), self.pending
    if not isinstance(ops, OpSeq) or ops.nm != 'G' or not isinstance(outs, VSeq): raise EngineLimit('use of other variables')
    if e.branch(e.fresh_bool('used')): return True
    b = p['win']
    covers = And(ops.off <= S(b.off + b.n), S(ops.off + ops.n) == self.n)
    e.axiom(Implies(And(s.mem, covers), Not(p['used'])))
    e.axiom(Implies(s.mem, Not(OCC(outs.t, self.W))))
    return False
  # sequences
  def on_op(self, seq, k):
    e = eng()
    t = OPT(seq.dt(k), seq.it(k), seq.ot(k))
    if seq.nm == 'G': e.axiom(Implies(And(k >= 0, k < self.n), RUN(S(k + 1)) == STEP(RUN(k), t)))
    if seq.nm == 'R' and self.pending is not None:
      M = self.pending['M']
      e.axiom(Implies(k >= 0, REPW(M, S(k + 1)) == APP(REPW(M, k), OPT(seq.dt(k), SUBS(seq.it(k), M), SUBS(seq.ot(k), M)))))
  def templates(self, loop, name, v):
    yield from Unit.templates(self, loop, name, v)
    k = rt.kind(v)
    if k == 'int': yield 'at most n', lambda x, i: iv(x) <= self.n
    if k == 'list':
      if self.pending is not None:
        M = self.pending['M']
        yield 'replacement so far', lambda x, i: self.word(x).w == REPW(M, i)
      yield 'effect of the subject so far (loop index)', lambda x, i: SEM(self.word(x).w) == RUN(i)
  def state_templates(self, loop, st):
    ints = [n for n, v in st.items() if rt.kind(v) == 'int']; lists = [n for n, v in st.items() if isinstance(v, rt.VList)]
    for a in ints:
      for b in lists:
        yield f'{b}: effect of the first {a} operations of the subject', lambda s, i, a=a, b=b: SEM(self.word(s[b]).w) == RUN(iv(s[a]))
  def on_step(self, loop, new):
    e = eng()
    if loop.it is not None: return
    ok = [n for n, v in new.items() if rt.kind(v) == 'int' and n in loop.state0 and rt.kind(loop.state0[n]) == 'int']
    goals = [S(iv(new[n]) > iv(loop.state0[n])) for n in ok]
    best = [g for g in goals if e.valid(g, quick=True)[0] == 'proved']
    e.prove(f'replace: the loop makes progress', best[0] if best else (z3.Or(goals) if goals else z3.BoolVal(False)))
  def run(self, e):
    self.nP, self.nR, self.n = z3.Int('nP'), z3.Int('nR'), z3.Int('n')
    e.assume(And(self.nP >= 1, self.nR >= 0, self.n >= 0))
    self.P, self.R, self.G = OpSeq(self, 'P', self.nP), OpSeq(self, 'R', self.nR), OpSeq(self, 'G', self.n)
    e.axiom(SEM(EMPTY) == RUN(0))
    gi, go, gd = z3.Const('gin', SeqS), z3.Const('gout', SeqS), D(z3.Const('gdata', DataS))
    self.gouts = go
    self.cb = lambda u, v: self._nolimit('can_bind called by replace')
    g = self.m.ComputationGraph(VSeq(gi), VSeq(go), self.G, data=gd)
    st, r = call_contract(e, 'replace', lambda: self.m.replace(self.P, self.R, g, self.cb))
    self.same_seq('replace: same inputs', r.inputs, gi)
    self.same_seq('replace: same outputs', r.outputs, go)
    e.prove('replace: same data', r.data.t == gd.t if isinstance(r.data, D) else z3.BoolVal(False))
    ops = r.operations
    e.prove('replace: same meaning, with every other operation kept and in order',
            (ops.off == 0 if isinstance(ops, OpSeq) and ops.nm == 'G' and z3.is_true(S(ops.n == self.n)) else SEM(self.word(ops).w) == RUN(self.n)))
    e.cover('replace')
