"""Core of the deductive verifier: symbolic values, path exploration, obligations.

The code under verification is the *real* source of /repo (see load.py); it runs
natively in CPython on the symbolic values defined here.  A branch on a symbolic
condition forks the exploration (by re-execution under a decision prefix), loops
over symbolic ranges are cut by invariants (rt.py), calls to functions that have
a contract are replaced by that contract (units/*).
"""
import hashlib, os, time, subprocess, tempfile
import z3

class PathEnd(BaseException):
  """The current path is finished (loop cut, or infeasible)."""

class EngineLimit(Exception):
  """The verifier does not support what the code does here."""

class VFail(Exception):
  pass

_CUR = [None]
def eng():
  return _CUR[0]

TIMEOUT = int(os.environ.get('VF_TIMEOUT_MS', '8000'))

# ---------------------------------------------------------------- z3 helpers
def is_z3(x): return isinstance(x, z3.ExprRef)
def rv(x):
  """python/int/float/Fraction/Sym -> z3 Real."""
  if isinstance(x, SReal): return x.e
  if isinstance(x, SInt): return z3.ToReal(x.e)
  if isinstance(x, SBool): return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
  if isinstance(x, bool): return z3.RealVal(int(x))
  if isinstance(x, int): return z3.RealVal(x)
  if isinstance(x, float):
    from fractions import Fraction
    if x != x or x in (float('inf'), float('-inf')): raise EngineLimit('non-finite float')
    f = Fraction(x); return z3.RealVal(f'{f.numerator}/{f.denominator}')
  if is_z3(x): return z3.ToReal(x) if x.sort() == z3.IntSort() else x
  if hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0: return rv(x.item())
  raise EngineLimit(f'not a real: {type(x).__name__}')
def iv(x):
  if isinstance(x, SInt): return x.e
  if isinstance(x, bool): return z3.IntVal(int(x))
  if isinstance(x, int): return z3.IntVal(x)
  if isinstance(x, SBool): return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
  if is_z3(x): return x
  if hasattr(x, '__index__'): return z3.IntVal(x.__index__())
  raise EngineLimit(f'not an int: {type(x).__name__}')
def bv(x):
  if isinstance(x, SBool): return x.e
  if isinstance(x, bool): return z3.BoolVal(x)
  if is_z3(x): return x
  raise EngineLimit(f'not a bool: {type(x).__name__}')

def conc_int(e):
  e = z3.simplify(e)
  return e.as_long() if z3.is_int_value(e) else None

def mk_int(e):
  """SInt or python int if the term is a literal."""
  c = conc_int(e)
  return c if c is not None else SInt(z3.simplify(e) if False else e)

_isnum = lambda o: isinstance(o, (int, float, SInt, SReal, SBool)) or (hasattr(o, 'item') and getattr(o, 'ndim', 1) == 0)

class SBool:
  __vf__ = True
  def __init__(self, e): self.e = e
  def __bool__(self): return eng().branch(self.e)
  def __and__(self, o): return SBool(z3.And(self.e, bv(o)))
  __rand__ = __and__
  def __or__(self, o): return SBool(z3.Or(self.e, bv(o)))
  __ror__ = __or__
  def __invert__(self): return SBool(z3.Not(self.e))
  def __xor__(self, o): return SBool(z3.Xor(self.e, bv(o)))
  def __eq__(self, o):
    if isinstance(o, (SBool, bool)): return SBool(self.e == bv(o))
    return SInt(iv(self)) == o
  def __ne__(self, o): return ~(self == o)
  def __add__(self, o): return SInt(iv(self)) + o
  __radd__ = __add__
  def __sub__(self, o): return SInt(iv(self)) - o
  def __rsub__(self, o): return o - SInt(iv(self))
  def __mul__(self, o): return SInt(iv(self)) * o
  __rmul__ = __mul__
  def __hash__(self): raise EngineLimit('hash of symbolic bool')
  def __repr__(self): return f'SBool({self.e})'

def sb(e):
  e = z3.simplify(e)
  if z3.is_true(e): return True
  if z3.is_false(e): return False
  return SBool(e)

class SInt:
  __vf__ = True
  def __init__(self, e): self.e = e
  def __index__(self):
    c = conc_int(self.e)
    if c is None: raise EngineLimit(f'concrete integer needed, got {self.e}')
    return c
  def _bin(self, o, f, rev=False):
    if isinstance(o, (SReal, float)):
      a, b = rv(self), rv(o)
      return SReal(f(b, a) if rev else f(a, b))
    if isinstance(o, (int, SInt, SBool)) or hasattr(o, '__index__') and not hasattr(o, '__vf_noint__'):
      a, b = self.e, iv(o)
      return SInt(f(b, a) if rev else f(a, b))
    return NotImplemented
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o):
    if isinstance(o, (tuple, list)) or hasattr(o, '__vf_repeat__'): return self.__rmul__(o)
    return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o):
    if hasattr(o, '__vf_repeat__'): return o.__vf_repeat__(self)
    if isinstance(o, (tuple, list)): return eng().unit.repeat(o, self)
    return self._bin(o, lambda a, b: a * b, True)
  def __truediv__(self, o): return SReal(rv(self)) / o
  def __rtruediv__(self, o): return o / SReal(rv(self))
  def __floordiv__(self, o):
    if not isinstance(o, (int, SInt)): return NotImplemented
    d = iv(o)
    if eng().branch(d == 0): raise ZeroDivisionError
    if conc_int(d) is not None and conc_int(d) > 0: return SInt(self.e / d)
    # z3 div rounds so that the remainder is non-negative; agrees for d > 0
    if eng().branch(d > 0):
      q = eng().fresh_int('q'); 
      eng().assume(q * d <= self.e); eng().assume(self.e < q * d + d)
      return SInt(q)
    raise EngineLimit('floor division by negative')
  def __rfloordiv__(self, o): return SInt(iv(o)) // self
  def __mod__(self, o):
    if not isinstance(o, (int, SInt)): return NotImplemented
    d = iv(o)
    if conc_int(d) is not None and conc_int(d) > 0: return SInt(self.e % d)
    raise EngineLimit('symbolic modulus')
  def __pow__(self, o):
    return eng().unit.int_pow(self, o)
  def __rpow__(self, o):
    if isinstance(o, (int, float)) and o in (1, -1): return SInt(z3.If(self.e % 2 == 0, z3.IntVal(1), z3.IntVal(int(o))))
    return eng().unit.rpow(o, self)
  def __neg__(self): return SInt(-self.e)
  def __pos__(self): return self
  def __abs__(self): return SInt(z3.If(self.e >= 0, self.e, -self.e))
  def _cmp(self, o, f):
    if isinstance(o, (SReal, float)): return SBool(f(rv(self), rv(o)))
    if isinstance(o, (int, SInt, SBool)): return SBool(f(self.e, iv(o)))
    return NotImplemented
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __eq__(self, o):
    if o is None or isinstance(o, (str, tuple)): return False
    return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o):
    if o is None or isinstance(o, (str, tuple)): return True
    return self._cmp(o, lambda a, b: a != b)
  def __bool__(self): return eng().branch(self.e != 0)
  def __hash__(self):
    c = conc_int(self.e)
    if c is None: raise EngineLimit('hash of symbolic int')
    return hash(c)
  def __repr__(self): return f'SInt({self.e})'
  # numpy-ish duck typing
  ndim = 0
  shape = ()
  def __vf_isinstance__(self, cls):
    return cls is int or (isinstance(cls, tuple) and int in cls)

class SReal:
  __vf__ = True
  __array_priority__ = 1000
  def __init__(self, e): self.e = e
  def _bin(self, o, f, rev=False):
    if _isnum(o):
      a, b = self.e, rv(o)
      return SReal(f(b, a) if rev else f(a, b))
    return NotImplemented
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
  def __truediv__(self, o):
    if not _isnum(o): return NotImplemented
    return SReal(real_div(self.e, rv(o)))
  def __rtruediv__(self, o): return SReal(real_div(rv(o), self.e))
  def __pow__(self, o): return eng().unit.real_pow(self, o)
  def __rpow__(self, o): return eng().unit.rpow(o, self)
  def __mod__(self, o):
    if not _isnum(o): return NotImplemented
    i = as_int_expr(self.e)
    if i is not None and isinstance(o, int): return SReal(z3.ToReal((SInt(i) % o).e))
    d = rv(o)
    if z3.is_true(z3.simplify(d > 0)): return SReal(self.e - d * z3.ToReal(z3.ToInt(self.e / d)))
    raise EngineLimit('symbolic modulus')
  def __floordiv__(self, o):
    d = rv(o)
    if z3.is_true(z3.simplify(d > 0)): return SReal(z3.ToReal(z3.ToInt(self.e / d)))
    raise EngineLimit('floor division of reals')
  def __neg__(self): return SReal(-self.e)
  def __abs__(self): return SReal(z3.If(self.e >= 0, self.e, -self.e))
  def _cmp(self, o, f):
    if _isnum(o): return SBool(f(self.e, rv(o)))
    return NotImplemented
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __eq__(self, o):
    if not _isnum(o): return False
    return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o):
    if not _isnum(o): return True
    return self._cmp(o, lambda a, b: a != b)
  def __bool__(self): return eng().branch(self.e != 0)
  def __hash__(self): raise EngineLimit('hash of symbolic real')
  def __repr__(self): return f'SReal({self.e})'
  def __vf_isinstance__(self, cls):
    return cls is float or (isinstance(cls, tuple) and float in cls)
  def __vf_int__(self):
    """int(x): truncation towards zero."""
    i = as_int_expr(self.e)
    if i is not None: return SInt(i)
    fl = z3.ToInt(self.e)
    return SInt(z3.If(self.e >= 0, fl, -z3.ToInt(-self.e)))
  def __vf_float__(self): return self
  def is_integer(self):
    return True if as_int_expr(self.e) is not None else SBool(z3.IsInt(self.e))

def as_int_expr(e):
  """Integer term equal to a real term built from integers, or None."""
  e = z3.simplify(e)
  def go(t):
    if z3.is_rational_value(t):
      return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return t.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
      a = [go(c) for c in t.children()]
      if any(x is None for x in a): return None
      if k == z3.Z3_OP_ADD: return z3.Sum(a)
      if k == z3.Z3_OP_MUL: return z3.Product(a)
      if k == z3.Z3_OP_UMINUS: return -a[0]
      r = a[0]
      for x in a[1:]: r = r - x
      return r
    return None
  r = go(e)
  return None if r is None else z3.simplify(r)

def real_div(a, b):
  """Division in the reals; x/0 is an unspecified value."""
  b = z3.simplify(b)
  return a / b

# ---------------------------------------------------------------- engine
class Obligation:
  __slots__ = ('name', 'status', 'backend', 'time', 'info', 'model')
  def __init__(self, name, status, backend, t, info='', model=None):
    self.name, self.status, self.backend, self.time, self.info, self.model = (
        name, status, backend, t, info, model)

class Engine:
  def __init__(self, unit, log=None):
    self.unit = unit
    self.obligations = {}      # name -> Obligation (worst status over paths)
    self.n_checks = 0
    self.solver_time = 0.
    self.backends = {}
    self.disabled = set()      # Houdini: removed invariant candidates
    self.used_candidates = set()
    self.extra_mut = {}        # loop site -> set of extra havoc names
    self.widen = {}            # (site, var) -> kind
    self.cache = {}
    self.houdini = False
    self.removed_now = 0
    self.paths = 0
    self.covers = {}
    self.deadline = time.time() + float(os.environ.get('VF_UNIT_TIMEOUT', '400'))
    self.max_paths = 4000

  # ---- exploration
  def explore(self, fn):
    """Runs fn() over all paths.  Houdini passes until candidates are stable."""
    while True:
      self.houdini = True
      self.removed_now = 0
      self.changed = False
      self.saw_loop = False
      self.covers = {}
      self._explore_once(fn)
      if self.changed == 'restart': self.disabled = set()   # the state of a loop was found to be larger: start again
      if not self.removed_now and not self.changed: break
    # final pass: everything proved counts
    if self.saw_loop:
      self.houdini = False
      self.covers = {}
      self._explore_once(fn)
    else:
      self._commit_pending()

  def _explore_once(self, fn):
    stack = [[]]
    self.pending = []
    self.obl_snapshot = dict(self.obligations) if self.houdini else None
    n = 0
    while stack:
      prefix = stack.pop()
      self.pc = []
      self.axioms = []
      self.prefix = prefix
      self.pos = 0
      self.new_alts = []
      self.counter = 0
      self.loop_stack = []
      self.trace = []
      self.ghosts = {}
      self.terms = {}
      _CUR[0] = self
      self.unit.reset(self)
      self.cases = ()
      self.covers.setdefault('case ()', False)
      try:
        fn()
        self._completed()
      except PathEnd:
        pass
      n += 1
      if n > self.max_paths: raise EngineLimit('too many paths')
      if time.time() > self.deadline: raise EngineLimit('unit time limit')
      for alt in reversed(self.new_alts): stack.append(alt)
      if self.houdini and self.changed == 'restart': return
      if self.houdini and self.removed_now and n > 0 and getattr(self.unit, 'eager_restart', True):
        return
    self.paths = n

  def _commit_pending(self):
    for args in self.pending: self._record(*args)
    self.pending = []

  def fresh_name(self, base):
    self.counter += 1
    return f'{base}!{self.counter}'
  def fresh_int(self, base='i'): return z3.Int(self.fresh_name(base))
  def fresh_real(self, base='r'): return z3.Real(self.fresh_name(base))
  def fresh_bool(self, base='b'): return z3.Bool(self.fresh_name(base))

  def replaying(self):
    """Before the last decision of the prefix: obligations met here were decided on an earlier path, in the same state."""
    return self.pos < len(self.prefix)

  def assume(self, e):
    e = bv(e)
    if z3.is_true(e): return
    if z3.is_false(z3.simplify(e)): raise PathEnd()
    self.pc.append(e)
  def axiom(self, e):
    """A fact that holds in every state (definition instance, lemma)."""
    self.axioms.append(e)
    self.pc.append(e)

  def decide(self, options):
    """Non-deterministic choice: returns index into options (list of z3 conds)."""
    if self.pos < len(self.prefix):
      d = self.prefix[self.pos]
    else:
      feas = [i for i, c in enumerate(options) if self.feasible(c)]
      if not feas: raise PathEnd()
      d = feas[0]
      for a in feas[1:]:
        self.new_alts.append(self.prefix[:self.pos] + [a])
      self.prefix = self.prefix[:self.pos] + [d]
    self.pos += 1
    self.pc.append(options[d])
    return d

  def branch(self, e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return self.decide([e, z3.Not(e)]) == 0

  def choose(self, n):
    """Case split of the contract; every case must have a path that runs to its end."""
    d = self.decide([z3.BoolVal(True)] * n)
    self.cases += (d,)
    self.covers.setdefault(f'case {self.cases}', False)
    return d

  def _completed(self):
    for i in range(len(self.cases) + 1):
      self.covers[f'case {self.cases[:i]}'] = True

  # ---- solving
  def extra(self, goal):
    """Lemma instances supplied by the unit for the terms in play."""
    return self.unit.lemmas(self.pc, goal)

  def feasible(self, c):
    key = self._key('f', self.pc + [c])
    if key in self.cache: return self.cache[key]
    s = z3.Solver(); s.set('timeout', 600)
    s.add(*self.pc); s.add(c)
    t = time.time()
    r = s.check()
    self.solver_time += time.time() - t
    self.n_checks += 1
    self.cache[key] = (r != z3.unsat)
    return self.cache[key]

  def _key(self, tag, exprs):
    h = hashlib.sha1(tag.encode())
    for e in exprs: h.update(str(e.get_id()).encode() + b','); 
    # ids are stable while the AST is alive; keep them alive
    self._alive = getattr(self, '_alive', []); self._alive.append(exprs)
    return h.hexdigest()

  def valid(self, goal, timeout=None, quick=False):
    """-> (status, backend, time, model) for  pc |= goal."""
    goal = bv(goal)
    g = z3.simplify(goal)
    if z3.is_true(g): return ('proved', 'simplifier', 0., None)
    key = self._key('q' if quick else 'v', self.pc + [goal])
    if key in self.cache: return self.cache[key]
    t0 = time.time()
    timeout = timeout or (1500 if quick else TIMEOUT)
    hyp = self.pc + list(self.extra(goal))
    res = None
    for attempt, (name, mk) in enumerate(self._backends(quick)):
      s = mk()
      try:
        s.set('timeout', timeout)
      except z3.Z3Exception: pass
      s.add(*hyp); s.add(z3.Not(goal))
      try:
        r = s.check()
      except z3.Z3Exception as ex:
        continue
      if r == z3.unsat: res = ('proved', name, time.time() - t0, None); break
      if r == z3.sat: res = ('refuted', name, time.time() - t0, s.model()); break
    if res is None and not quick:
      r = cvc5_check(hyp + [z3.Not(goal)], timeout)
      if r == 'unsat': res = ('proved', 'cvc5', time.time() - t0, None)
      elif r == 'sat': res = ('refuted', 'cvc5', time.time() - t0, None)
    if res is None: res = ('unknown', 'z3+cvc5', time.time() - t0, None)
    self.solver_time += time.time() - t0
    self.n_checks += 1
    self.cache[key] = res
    return res

  def _backends(self, quick):
    yield 'z3', z3.Solver
    if not quick:
      yield 'z3-nlsat', lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'smt').solver()

  def prove(self, name, goal, info=''):
    """An obligation.  Afterwards the goal is assumed (to avoid cascades)."""
    if self.replaying():       # decided on the path from which this one branches off
      self.pc.append(bv(goal)); return True
    st = self.valid(goal)
    if st[0] != 'proved' and os.environ.get('VF_DEBUG') and not self.houdini:
      print('OBLIGATION', name, st[0], '\n goal', goal, '\n pc', self.pc, '\n model', st[3], flush=True)
    if self.houdini: self.pending.append((name, st, info))
    else: self._record(name, st, info)
    self.pc.append(bv(goal))
    return st[0] == 'proved'

  def _record(self, name, st, info):
    o = self.obligations.get(name)
    m = None
    if st[3] is not None:
      m = {str(d): str(st[3][d]) for d in st[3].decls() if d.arity() == 0 and '!k' not in str(d)}
    rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
    if o is None:
      self.obligations[name] = Obligation(name, st[0], st[1], st[2], info, m)
    else:
      o.time += st[2]
      if rank[st[0]] > rank[o.status]:
        o.status, o.backend, o.info, o.model = st[0], st[1], info, m

  def fail(self, name, info=''):
    """An obligation that is false on this (feasible) path."""
    self.prove(name, z3.BoolVal(False), info)
    raise PathEnd()

  def cover(self, name):
    """Reachability check (vacuity guard): this point must be reachable."""
    if self.covers.get(name) or self.replaying(): return
    s = z3.Solver(); s.set('timeout', 1500); s.add(*self.pc); s.add(*self.extra(z3.BoolVal(True)))
    r = s.check()
    self.covers[name] = (r != z3.unsat)

def cvc5_check(exprs, timeout):
  s = z3.Solver(); s.add(*exprs)
  txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
  with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
    f.write(txt); p = f.name
  try:
    r = subprocess.run(['cvc5', f'--tlimit={timeout}', '--nl-cov', p], capture_output=True, text=True, timeout=timeout/1000 + 5)
    o = r.stdout.strip().split('\n')[0] if r.stdout else ''
    return o if o in ('sat', 'unsat') else 'unknown'
  except Exception:
    return 'unknown'
  finally:
    os.unlink(p)
