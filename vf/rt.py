"""Run-time support for transformed code: loop cuts, lists, builtins."""
import builtins, functools as _ft, itertools as _itt, math as _math, operator as _op, types as _types
import z3
from .core import (eng, EngineLimit, PathEnd, SInt, SReal, SBool, iv, rv, bv, mk_int, conc_int, sb, is_z3)

class _Undef:
  """Value of a variable that is not defined (or not tracked) at this point."""
  def __getattr__(self, a):
    if a.startswith('__'): raise AttributeError(a)
    raise EngineLimit('use of a variable that is not tracked through the loop')
  def __bool__(self): raise EngineLimit('use of a variable that is not tracked through the loop')
  def __repr__(self): return 'UNDEF'
UNDEF = _Undef()
NOEVAL = object()

# ------------------------------------------------------------ sequences
class SymIter:
  __vf_seq__ = True
  def length(self): raise NotImplementedError
  def at(self, k): raise NotImplementedError
  def __iter__(self): raise EngineLimit('native iteration over a symbolic sequence')
  def __vf_len__(self): return mk_int(self.length())

class SymRange(SymIter):
  def __init__(self, start, stop, step=1):
    self.start, self.stop, self.step = start, stop, step
  def length(self):
    if self.step == 1:
      d = iv(self.stop) - iv(self.start)
    elif self.step == -1:
      d = iv(self.start) - iv(self.stop)
    else: raise EngineLimit('range step')
    return z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
  def at(self, k): return SInt(z3.simplify(iv(self.start) + k * self.step))
  def __vf_reversed__(self):
    n = self.length()
    return SymMapped(self, lambda k: n - 1 - k)
  def __getitem__(self, i):
    return self.at(iv(i))

class SymMapped(SymIter):
  def __init__(self, base, f): self.base, self.f = base, f
  def length(self): return self.base.length()
  def at(self, k): return self.base.at(self.f(k))

class SymEnum(SymIter):
  def __init__(self, base, start=0): self.base, self.start = base, start
  def length(self): return self.base.length()
  def at(self, k): return (SInt(z3.simplify(k + iv(self.start))), self.base.at(k))

class SymZip(SymIter):
  def __init__(self, parts): self.parts = [as_seq(p) for p in parts]
  def length(self):
    n = self.parts[0].length()
    for p in self.parts[1:]:
      m = p.length()
      n = z3.If(n <= m, n, m)
    return z3.simplify(n)
  def at(self, k): return tuple(p.at(k) for p in self.parts)

class SymChain(SymIter):
  def __init__(self, parts): self.parts = [as_seq(p) for p in parts]
  def length(self): return z3.Sum([p.length() for p in self.parts])
  def at(self, k):
    for p in self.parts[:-1]:
      n = p.length()
      if eng().branch(k < n): return p.at(k)
      k = z3.simplify(k - n)
    return self.parts[-1].at(k)

class ConcSeq(SymIter):
  """A concrete python sequence seen as a symbolic one (forks on the index)."""
  def __init__(self, items): self.items = list(items)
  def length(self): return z3.IntVal(len(self.items))
  def at(self, k):
    if not self.items: raise PathEnd()
    i = eng().decide([k == j for j in range(len(self.items))])
    return self.items[i]

def as_seq(x):
  if hasattr(x, '__vf_seq__') and x.__vf_seq__: return x
  if isinstance(x, LazyComp) and not isinstance(x, MultiComp) and not x.ifs: return SymGen(x)
  if isinstance(x, LazyComp): return x.to_list()
  return ConcSeq(x)
class SymGen(SymIter):
  """The elements of a generator, each computed when it is asked for."""
  def __init__(self, comp): self.comp, self.base = comp, as_seq(comp.it)
  def length(self): return self.base.length()
  def at(self, k): return self.comp.elem(self.base.at(k))

def again(x):
  """An iterable that can be gone through more than once."""
  return x if symbolic(x) else builtins.tuple(x)
def symbolic(x):
  return bool(getattr(x, '__vf_seq__', False)) or isinstance(x, LazyComp)

class LazyComp:
  """A generator expression over a symbolic iterable."""
  def __init__(self, it, fn, ifs, star, site):
    self.it, self.fn, self.ifs, self.star, self.site = it, fn, ifs, star, site
  def elem(self, x):
    f = self.fn
    return f(*x) if self.star else f(x)
  def keep(self, x):
    return all(bool(c(*x) if self.star else c(x)) for c in self.ifs)
  def to_list(self):
    out = VList()
    L = Loop(self.it, self.site, ('@out',))
    L.enter({'@out': out})
    if L.body():
      x = L.item()
      if self.keep(x): out.append(self.elem(x))
      L.step({'@out': out})
    L.exit()
    return out
  def fold(self, f, init):
    L = Loop(self.it, self.site, ('@acc',))
    s = L.enter({'@acc': init})
    acc = s['@acc']
    if L.body():
      x = L.item()
      if self.keep(x): acc = f(acc, self.elem(x))
      L.step({'@acc': acc})
    L.exit()
    return acc
  def search(self, want):
    """any (want=True) / all (want=False)"""
    L = Loop(self.it, self.site, ())
    L.enter({})
    if L.body():
      x = L.item()
      if self.keep(x) and bool(self.elem(x)) == want:
        L.brk()
        return want
      L.step({})
    L.exit()
    return not want
  def __iter__(self): raise EngineLimit('native iteration over a symbolic generator')

def flatten(x, spec):
  """The components of an element of a comprehension, for the names it is taken apart into."""
  if spec is False or spec is None: return (x,)
  if spec is True: return tuple(x)
  xs = tuple(x)
  if len(xs) != len(spec): raise ValueError('not enough or too many values to unpack')
  return tuple(y for a, s in zip(xs, spec) for y in flatten(a, s))
def unnest(spec, f): return lambda x: f(*flatten(x, spec))
class MultiComp(LazyComp):
  """A comprehension with several generators (or a set comprehension): nested loops, each cut where it is symbolic."""
  def __init__(self, gens, elt, site):
    self.gens, self.elt, self.site = gens, elt, site      # gens: (iterable given the names so far, number of names, conditions)
  def _loop(self, i, vals, names, st, sink):
    if i == len(self.gens): return sink(self.elt(*vals))
    itf, star, ifs = self.gens[i]
    it = itf(*vals)
    def one(x):
      v = vals + flatten(x, star)
      if not all(bool(c(*v)) for c in ifs): return False
      return self._loop(i + 1, v, names, st, sink)
    if concrete(it):
      for x in it:
        if one(x): return True
      return False
    L = Loop(it, f'{self.site}.{i}', names)
    L.enter(st)
    if L.body():
      if one(L.item()): L.brk(); return True
      L.step(st)
    L.exit()
    return False
  def to_list(self):
    out = VList()
    self._loop(0, (), ('@out',), {'@out': out}, lambda x: out.append(x))
    return out
  def to_set(self):
    out = _mk_set()
    self._loop(0, (), ('@out',), {'@out': out}, lambda x: out.add(x))
    return out
  def search(self, want):
    return want if self._loop(0, (), (), {}, lambda x: bool(x) == want) else not want
  def fold(self, f, init):
    return LazyComp(self.to_list(), lambda v: v, (), False, self.site + '.fold').fold(f, init)
  def __iter__(self): return VList.__iter__(self.to_list())

class View:
  """Model of a list that was made from a sequence and is only read."""
  def __init__(self, seq): self.seq = seq
  def length(self): return self.seq.length()
  def read(self, k): return self.seq.at(k)
  def copy(self): return View(self.seq)
  def to_seq(self): return self.seq
  def __getattr__(self, n): raise EngineLimit(f'list made from a sequence: {n}')
def view_list(seq):
  v = VList(); v.model = View(seq); return v

# ------------------------------------------------------------ lists
class VList(list):
  """list with a symbolic mode (`model` set) used after a loop cut."""
  def __init__(self, items=()):
    list.__init__(self, items)
    self.model = None
    self.version = 0
    eng().vlists.append(self)
  def __vf_isinstance__(self, cls):
    return cls is list or isinstance(cls, tuple) and list in cls
  def _sym(self): return self.model is not None
  @property
  def __vf_seq__(self): return self._sym()
  def length(self): return self.model.length()
  def at(self, k): return self.model.read(k)
  def __vf_len__(self): return mk_int(self.model.length()) if self._sym() else list.__len__(self)
  def __len__(self):
    if self._sym(): raise EngineLimit('native len of symbolic list')
    return list.__len__(self)
  def __iter__(self):
    if self._sym(): raise EngineLimit('native iteration over symbolic list')
    return list.__iter__(self)
  def __bool__(self):
    if self._sym(): return bool(SBool(self.model.length() > 0))
    return list.__len__(self) > 0
  def append(self, v):
    self.version += 1
    if self._sym(): self.model.append(v)
    else: list.append(self, v)
  def extend(self, vs):
    self.version += 1
    if symbolic(vs) or self._sym():
      eng().unit.list_extend(self, vs)
    else: list.extend(self, vs)
  def __getitem__(self, i):
    if self._sym():
      return seq_getitem(self, i)
    if isinstance(i, SInt):
      c = conc_int(i.e)
      if c is None:
        return eng().unit.conc_index(self, i)
      i = c
    r = list.__getitem__(self, i)
    return VList(r) if isinstance(i, slice) else r
  def __setitem__(self, i, v):
    self.version += 1
    if self._sym():
      k = norm_index(iv(i), self.model.length())
      self.model.store(k, v)
      return
    if isinstance(i, SInt): i = i.__index__()
    list.__setitem__(self, i, v)
  def __iadd__(self, o):
    self.extend(o); return self
  def __add__(self, o):
    if isinstance(self.model, View) and (isinstance(o, VList) and (not o._sym() or isinstance(o.model, View))):
      return view_list(SymChain([self.model.seq, o.model.seq if o._sym() else ConcSeq(list.__iter__(o))]))
    if self._sym() or symbolic(o): return eng().unit.concat(self, o)
    return VList(list.__add__(self, list(o)))
  def __mul__(self, k):
    if isinstance(k, SInt):
      return eng().unit.repeat(self, k)
    return VList(list.__mul__(self, k))
  __rmul__ = __mul__
  def pop(self, *a):
    self.version += 1
    if self._sym(): raise EngineLimit('pop on symbolic list')
    return list.pop(self, *a)
  def __eq__(self, o):
    if self._sym(): raise EngineLimit('== on symbolic list')
    return list.__eq__(self, o)
  __hash__ = None

def norm_index(k, n):
  """Python index normalisation with IndexError on out-of-range."""
  e = eng()
  c = conc_int(k)
  if c is not None and c < 0:
    k = z3.simplify(n + c)
  elif c is None and e.branch(k < 0):
    k = z3.simplify(n + k)
  if not e.branch(z3.And(k >= 0, k < n)): raise IndexError('index out of range')
  return k

def seq_getitem(s, i):
  if isinstance(i, slice): return eng().unit.slice(s, i)
  return s.at(norm_index(iv(i), s.length()))

# ------------------------------------------------------------ loop cut
class Loop:
  def __init__(self, it, site, names):
    self.e = eng()
    self.it = as_seq(it) if it is not None else None
    self.raw_it = it
    self.site, self.names = site, names
    self.broken = False
    self.e.saw_loop = True

  def enter(self, locs):
    e = self.e
    st = {n: locs.get(n, UNDEF) for n in self.names}
    self.versions = [(l, l.version) for l in e.vlists]
    # objects that the body was seen to change through an alias (for example in a helper function)
    self.aliased = {f'~{j}': e.vlists[j] for j in sorted(e.extra_mut.get(self.site, ())) if j < len(e.vlists)
                    and not any(e.vlists[j] is v for v in st.values())}
    st.update(self.aliased)
    self.names = tuple(self.names) + tuple(self.aliased)
    self.ghost_names = list(e.ghosts)
    self.n = self.it.length() if self.it is not None else None
    self.entry = dict(st)
    self.outer = list(e.loop_stack)
    self.kinds = {}
    self.bounds = () if self.it is not None else [(n, iv(v)) for n, v in locs.items() if n not in st and isinstance(v, SInt)]
    u = e.unit
    # candidates
    self.cands = []
    zero = z3.IntVal(0)
    for name, v in list(st.items()) + [('@' + g, e.ghosts[g]) for g in self.ghost_names]:
      if v is UNDEF: continue
      k = e.widen.get((self.site, name)) or kind(v)
      self.kinds[name] = k
      if k == 'other': continue
      for label, fn in u.templates(self, name, v):
        key = (self.site, name, label)
        if key in e.disabled: continue
        self.cands.append((key, name, fn))
    for label, fn in u.state_templates(self, st):
      key = (self.site, '', label)
      if key not in e.disabled: self.cands.append((key, None, fn))
    cur = self._state(st)
    self._check(cur, zero, 'init')
    # havoc
    self.k = e.fresh_int('k')
    e.assume(self.k >= 0)
    if self.n is not None:
      e.assume(self.k <= self.n)
    out = {}
    self.havoced_lists = []
    for name, v in st.items():
      out[name] = self._havoc(name, v)
    for g in self.ghost_names:
      e.ghosts[g] = z3.FreshConst(e.ghosts[g].sort(), g) if False else fresh_like(e, e.ghosts[g], g)
    for v in u.havoc_extra(self): pass
    st2 = self._state(out)
    for key, name, fn in self.cands:
      if key in e.disabled: continue
      if hasattr(fn, 'assume') and getattr(st2.get(name), 'model', None) is not None:
        fn.assume(st2[name], self.k); continue
      f = self._eval(fn, name, st2, self.k)
      if f is NOEVAL:       # not expressible on the havoced state: not an invariant
        e.disabled.add(key); e.removed_now += 1
        if not e.houdini: raise EngineLimit('invariant candidate cannot be evaluated')
        continue
      if f is not None: e.assume(f)
    e.covers.setdefault(f'exit {self.site}', False)
    self.state0 = out
    return out

  def _state(self, st):
    d = dict(st)
    for g in self.ghost_names: d['@' + g] = self.e.ghosts[g]
    return d

  def _eval(self, fn, name, st, k):
    if name is None: return fn(st, k)
    v = st.get(name, UNDEF)
    if v is UNDEF: return None
    try:
      return fn(v, k)
    except (EngineLimit, AttributeError, TypeError, z3.Z3Exception):
      return NOEVAL

  def _havoc(self, name, v):
    e = self.e
    k = self.kinds.get(name)
    if v is UNDEF: return UNDEF
    if k == 'int': return SInt(e.fresh_int(name))
    if k == 'real': return SReal(e.fresh_real(name))
    if k == 'bool': return SBool(e.fresh_bool(name))
    if k == 'list':
      if v.model is None: v.model = e.unit.list_model(v, name, self)
      else: v.model = v.model.copy()
      v.model.havoc(); v.version += 1   # an enclosing loop has to see the change
      self.havoced_lists.append(v)
      return v
    if k == 'dom': return e.unit.havoc(name, v, self)
    if k == 'mut':
      v.vf_havoc(self); v.version += 1; self.havoced_lists.append(v); return v
    return v   # 'other': must not change (checked in step)

  def body(self):
    e = self.e
    d = e.decide([self.k < self.n, self.k >= self.n])
    if d == 0:
      e.cover(f'body {self.site}')
      e.loop_stack.append(self)
      return True
    e.cover(f'exit {self.site}')
    return False
  def wbody(self):
    self.e.cover(f'body {self.site}')
    self.e.loop_stack.append(self)
  def item(self): return self.it.at(self.k)
  def brk(self):
    self.broken = True
    if self in self.e.loop_stack: self.e.loop_stack.remove(self)
  def exit(self): self.e.cover(f'exit {self.site}')

  def step(self, locs):
    e = self.e
    new = {n: self.aliased.get(n) if n in self.aliased else locs.get(n, UNDEF) for n in self.names}
    for name in self.names:
      v, k = new[name], self.kinds.get(name)
      if k is None: continue
      nk = kind(v)
      if k == 'other':
        if v is not self.entry[name]:
          raise EngineLimit(f'loop changes untracked variable {name}')
      elif nk != k:
        if (k, nk) == ('int', 'real') or (k, nk) == ('bool', 'int'):
          self._widened(name, nk)
          raise PathEnd()
        if (k, nk) == ('real', 'int'): continue
        r = e.unit.widen(self, name, k, nk, self.entry[name], v)
        if r: 
          self._widened(name, r)
          raise PathEnd()
        raise EngineLimit(f'loop variable {name} changes type {k} -> {nk}')
    for j, (l, ver) in enumerate(self.versions):
      if l.version != ver and not any(l is x for x in self.havoced_lists):
        if j in e.extra_mut.get(self.site, ()): raise EngineLimit('object modified in loop through an alias')
        e.extra_mut.setdefault(self.site, set()).add(j); e.changed = 'restart'
        raise PathEnd()
    if hasattr(e.unit, 'on_step'): e.unit.on_step(self, new)
    self._check(self._state(new), z3.simplify(self.k + 1), 'step')
    raise PathEnd()

  def _widened(self, name, kind_):
    e = self.e
    e.widen[(self.site, name)] = kind_
    e.changed = True
    e.disabled = {x for x in e.disabled if x[:2] != (self.site, name)}   # candidates are tried again at the new kind

  def _check(self, st, k, phase):
    e = self.e
    if e.replaying(): return
    for key, name, fn in self.cands:
      if key in e.disabled: continue
      f = self._eval(fn, name, st, k)
      if f is None: continue
      if f is NOEVAL:
        if not e.houdini: raise EngineLimit('invariant candidate cannot be evaluated')
        e.disabled.add(key); e.removed_now += 1; continue
      if e.houdini:
        r = e.valid(f, quick=True)
        if r[0] != 'proved':
          r = e.valid(f, timeout=3000) if r[0] == 'unknown' else r
        if r[0] != 'proved':
          e.disabled.add(key); e.removed_now += 1
          if e.debug_houdini: print('drop', key, phase, r[0], f)
      else:
        e.used_candidates.add(key)
        e.prove(f'invariant {e.unit.site_name(key[0])} {key[1]} {key[2]} {phase}', f)

def fresh_like(e, z, base):
  s = z.sort()
  if s == z3.IntSort(): return e.fresh_int(base)
  if s == z3.RealSort(): return e.fresh_real(base)
  if s == z3.BoolSort(): return e.fresh_bool(base)
  return z3.Const(e.fresh_name(base), s)

def kind(v):
  if v is UNDEF: return None
  if isinstance(v, (bool, SBool)): return 'bool'
  if isinstance(v, (int, SInt)): return 'int'
  if isinstance(v, (float, SReal)): return 'real'
  if isinstance(v, VList): return 'list'
  if is_z3(v): return 'z3'
  if hasattr(v, 'vf_havoc'): return 'mut'
  if eng().unit.is_dom(v): return 'dom'
  return 'other'

# ------------------------------------------------------------ hooks used by transformed code
def iter(x):   # noqa: A001
  if isinstance(x, LazyComp): return x
  return x
def concrete(x): return not symbolic(x)
def concrete_cond(f):
  v = f()
  return not isinstance(v, SBool)
def listcomp(it, fn, ifs, star, site):
  if concrete(it):
    return VList([(fn(*x) if star else fn(x)) for x in it
                  if all(bool(c(*x) if star else c(x)) for c in ifs)])
  return LazyComp(it, fn, ifs, star, site).to_list()
def listcomps(gens, elt, site): return MultiComp(gens, elt, site).to_list()
def genexps(gens, elt, site): return MultiComp(gens, elt, site)
def setcomps(gens, elt, site): return MultiComp(gens, elt, site).to_set()
def genexp(it, fn, ifs, star, site):
  if concrete(it):
    return ((fn(*x) if star else fn(x)) for x in it
            if all(bool(c(*x) if star else c(x)) for c in ifs))
  return LazyComp(it, fn, ifs, star, site)
def dictcomp(it, fn, ifs, star, site):
  if concrete(it):
    return mkdict({a: b for a, b in genexp(it, fn, ifs, star, site)})
  return eng().unit.dictcomp(LazyComp(it, fn, ifs, star, site))
def caller_site():
  """The place in the verified code from which the engine was called."""
  import sys
  f = sys._getframe(1)
  while f is not None:
    if '/autobound/' in f.f_code.co_filename: return f'{f.f_code.co_name}:{f.f_lineno}'
    f = f.f_back
  return '?'
def map_update(m, it, site=None):
  """m.update(it) for a symbolic sequence or comprehension of pairs: a loop that stores each pair."""
  comp = it if isinstance(it, LazyComp) else None
  L = Loop(comp.it if comp else it, site or (comp.site if comp else 'update:' + caller_site()), ('@map',))
  L.enter({'@map': m})
  if L.body():
    x = L.item()
    if comp is None or comp.keep(x):
      a, b = comp.elem(x) if comp else x
      m[a] = b
    L.step({'@map': m})
  L.exit()
  return m
def is_(a, b):
  """Identity of objects.  Two operands may be one object although they stand for different members."""
  h = eng() and getattr(eng().unit, 'identity', None)
  if h: return h(a, b)
  return a is b
def apply(f, args, kws):
  """f(*args, **kws): natively if everything is concrete, by the callee's contract otherwise."""
  if all(not star or not (symbolic(a) or hasattr(a, '__vf_seq__') and a.__vf_seq__) for star, a in args) and not any(k is None and hasattr(v, '__vf_params__') for k, v in kws):
    pos = []
    for star, a in args:
      if star: pos += list(a)
      else: pos.append(a)
    kw = {}
    for k, v in kws:
      for n, x in (dict(v).items() if k is None else ((k, v),)):
        if n in kw: raise TypeError(f'got multiple values for keyword argument {n!r}')
        kw[n] = x
    return f(*pos, **kw)
  h = getattr(f, '__vf_call__', None)
  if h is None: raise EngineLimit('call with a symbolic number of arguments')
  return h([(star, a.to_list() if isinstance(a, LazyComp) else a) for star, a in args], list(kws))
def mklist(x): return VList(x) if eng() is not None and getattr(eng(), 'vlists', None) is not None else x
def unpack(x, n):
  """Unpacking of a sequence into n targets."""
  if not symbolic(x): return x
  x = as_seq(x) if not isinstance(x, VList) else x
  if not eng().branch(x.length() == n): raise ValueError('not enough or too many values to unpack')
  return tuple(x.at(z3.IntVal(i)) for i in range(n))
def display(kind, *parts):
  """A tuple or list display with starred parts."""
  mk = _mk_tuple if kind == 'tuple' else _mk_list
  if kind == 'tuple' and any(star and hasattr(x, '__vf_cat__') for star, x in parts):
    r = None
    for star, x in parts:
      p = x if star else (x,)
      r = p if r is None else r + p
    return r
  if not any(star and (symbolic(x) or isinstance(x, MultiComp)) for star, x in parts):
    out = []
    for star, x in parts: out.extend(x) if star else out.append(x)
    return tuple(out) if kind == 'tuple' else mklist(out)
  r = None
  for star, x in parts:
    p = mk(x) if star else mk((x,))
    r = p if r is None else r + p
  return r
def mkdict(d):
  e = eng()
  if e is None: return d
  return e.unit.mkdict(d)

# ------------------------------------------------------------ builtins
def _len(x):
  if hasattr(x, '__vf_len__'): return x.__vf_len__()
  return builtins.len(x)
def _range(*a):
  a = [(conc_int(x.e) if conc_int(x.e) is not None else x) if isinstance(x, SInt) else x for x in a]
  if any(isinstance(x, SInt) for x in a):
    if builtins.len(a) == 1: return SymRange(0, a[0])
    if builtins.len(a) == 2: return SymRange(a[0], a[1])
    if isinstance(a[2], SInt): raise EngineLimit('symbolic step')
    return SymRange(*a)
  return builtins.range(*a)
def _enumerate(x, start=0):
  if symbolic(x) or isinstance(start, SInt): return SymEnum(as_seq(x), start)
  return builtins.enumerate(x, start)
def _zip(*xs, **kw):
  if any(symbolic(x) for x in xs): return SymZip(xs)
  return builtins.zip(*xs, **kw)
def _reversed(x):
  if hasattr(x, '__vf_reversed__'): return x.__vf_reversed__()
  if symbolic(x):
    n = x.length(); return SymMapped(x, lambda k: n - 1 - k)
  return builtins.reversed(x)
def _map(f, *xs):
  if any(symbolic(x) for x in xs):
    if builtins.len(xs) == 1: return LazyComp(as_seq(xs[0]), f, (), False, f'map:{getattr(f, "__name__", "f")}')
    return LazyComp(SymZip(xs), f, (), True, 'map')
  return builtins.map(f, *xs)
def _sum(x, start=0):
  if hasattr(x, '__vf_sum__'): return x.__vf_sum__(start)
  if isinstance(x, LazyComp): return x.fold(lambda a, b: a + b, start)
  if symbolic(x): return LazyComp(x, lambda v: v, (), False, 'sum').fold(lambda a, b: a + b, start)
  return builtins.sum(x, start)
def _minmax(name, pick):
  real = getattr(builtins, name)
  def f(*a, **kw):
    if builtins.len(a) == 1:
      if hasattr(a[0], f'__vf_{name}__'): return getattr(a[0], f'__vf_{name}__')(**kw)
      if symbolic(a[0]): return eng().unit.minmax(name, a[0], kw)
      xs = builtins.list(a[0])
    else: xs = builtins.list(a)
    if kw or not any(isinstance(x, (SInt, SReal)) for x in xs): return real(xs, **kw)
    r = xs[0]
    for x in xs[1:]:
      if any(isinstance(y, (SReal, float)) for y in (r, x)):
        p, q = rv(r), rv(x); r = SReal(z3.If(pick(p, q), p, q))
      else:
        p, q = iv(r), iv(x); r = SInt(z3.If(pick(p, q), p, q))
    return r
  return f
_min = _minmax('min', lambda p, q: p <= q)
_max = _minmax('max', lambda p, q: p >= q)
def _sorted(x, **kw):
  if symbolic(x): raise EngineLimit('sorted of symbolic sequence')
  return VList(builtins.sorted(x, **kw))
def _any(x):
  if isinstance(x, LazyComp): return x.search(True)
  if symbolic(x): return LazyComp(x, lambda v: v, (), False, 'any').search(True)
  return builtins.any(x)
def _all(x):
  if isinstance(x, LazyComp): return x.search(False)
  if symbolic(x): return LazyComp(x, lambda v: v, (), False, 'all').search(False)
  return builtins.all(x)
def _abs(x): return x.__abs__() if hasattr(x, '__vf__') else builtins.abs(x)
def _next(*a): return builtins.next(*a)

_REAL = {}
def _unshadow(cls):
  if isinstance(cls, tuple): return tuple(_unshadow(c) for c in cls)
  try: return _REAL.get(cls, cls)
  except TypeError: return cls
def _isinstance(x, cls):
  cls = _unshadow(cls)
  if hasattr(type(x), '__vf_isinstance__'): return x.__vf_isinstance__(cls)
  h = getattr(cls, '__vf_instancecheck__', None)
  if h is not None: return h(x)
  return builtins.isinstance(x, cls)

class _Meta(type):
  def __call__(cls, *a, **kw): return cls._call(*a, **kw)
  def __getitem__(cls, k): return cls._real[k]
  def __instancecheck__(cls, x): return _isinstance(x, cls._real)
  def __or__(cls, o): return cls._real | o
  def __ror__(cls, o): return o | cls._real
  def __eq__(cls, o): return cls is o or o is cls._real
  def __hash__(cls): return hash(cls._real)

def _shadow(real, call):
  c = _Meta.__new__(_Meta, real.__name__, (), {'_real': real, '_call': staticmethod(call)})
  for n in dir(real):
    if not n.startswith('__'): type.__setattr__(c, n, getattr(real, n))
  _REAL[c] = real
  return c

def _mk_tuple(x=()):
  if hasattr(x, '__vf_tuple__'): return x.__vf_tuple__()
  if isinstance(x, LazyComp): x = x.to_list()
  if isinstance(x, VList):
    if x._sym(): return x.model.to_seq()
    return tuple(list.__iter__(x))
  if symbolic(x): return eng().unit.to_tuple(x)
  return tuple(x)
def _mk_list(x=()):
  if isinstance(x, LazyComp): return x.to_list()
  if isinstance(x, VList) and x._sym():
    y = VList(); y.model = x.model.copy(); return y
  if isinstance(x, (SymZip, SymEnum, SymChain, SymMapped, SymRange)): return view_list(x)
  if symbolic(x): return eng().unit.to_list(x)
  return mklist(list(x))
def _mk_int(x=0, *a):
  if hasattr(x, '__vf_int__'): return x.__vf_int__()
  if isinstance(x, SInt): return x
  if isinstance(x, SBool): return SInt(iv(x))
  return int(x, *a)
def _mk_float(x=0.):
  if hasattr(x, '__vf_float__'): return x.__vf_float__()
  if isinstance(x, SInt): return SReal(rv(x))
  return float(x)
def _mk_bool(x=False): return builtins.bool(x)
def _mk_set(x=()):
  if isinstance(x, MultiComp): return x.to_set()
  if isinstance(x, LazyComp): return MultiComp([(lambda: x.it, x.star, x.ifs)], x.fn, x.site).to_set()
  if hasattr(eng() and eng().unit, 'new_set'):
    return eng().unit.new_set() if isinstance(x, tuple) and not x else eng().unit.to_set(x)
  if symbolic(x): return eng().unit.to_set(x)
  return set(x)
def _mk_dict(*a, **kw):
  if a and hasattr(a[0], '__vf_dict__') and not kw: return a[0].__vf_dict__()
  if a and symbolic(a[0]): return eng().unit.dictcomp(a[0])
  return mkdict(dict(*a, **kw))

class VFrozen(frozenset):
  def __contains__(self, x):
    h = getattr(eng() and eng().unit, 'frozen', None)
    r = h(frozenset(self), x) if h else None
    return frozenset.__contains__(self, x) if r is None else r
def _mk_frozenset(x=()):
  return VFrozen(x)

BUILTINS = {
    'len': _len, 'range': _shadow(range, _range), 'enumerate': _enumerate, 'zip': _zip, 'reversed': _reversed,
    'map': _map, 'sum': _sum, 'min': _min, 'max': _max, 'sorted': _sorted, 'any': _any,
    'all': _all, 'abs': _abs, 'isinstance': _isinstance,
    'tuple': _shadow(tuple, _mk_tuple), 'list': _shadow(list, _mk_list), 'int': _shadow(int, _mk_int),
    'float': _shadow(float, _mk_float), 'bool': _shadow(bool, _mk_bool), 'set': _shadow(set, _mk_set),
    'dict': _shadow(dict, _mk_dict), 'frozenset': _shadow(frozenset, _mk_frozenset),
}

# ------------------------------------------------------------ library proxies
class _Proxy(_types.ModuleType):
  def __init__(self, real, **over):
    super().__init__(real.__name__)
    self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith('__')})
    self.__dict__.update(over)

_MISSING = object()
def _reduce(f, xs, init=_MISSING):
  if symbolic(xs):
    if init is _MISSING: raise EngineLimit('reduce of symbolic sequence without initial value')
    if not isinstance(xs, LazyComp): xs = LazyComp(xs, lambda v: v, (), False, 'reduce')
    return xs.fold(f, init)
  return _ft.reduce(f, xs) if init is _MISSING else _ft.reduce(f, xs, init)
def _chain(*xs):
  if any(symbolic(x) for x in xs): return SymChain(xs)
  return _itt.chain(*xs)
def _factorial(n):
  if isinstance(n, SInt):
    c = conc_int(n.e)
    if c is None: return eng().unit.factorial(n)
    n = c
  r = _math.factorial(n)
  return SInt(z3.IntVal(r)) if eng() is not None and getattr(eng().unit, 'exact_numbers', False) else r   # 1/n! is then a rational number
def _comb(n, k):
  if isinstance(n, SInt) or isinstance(k, SInt): return eng().unit.comb(n, k)
  return _math.comb(n, k)
def _prod(xs, start=1):
  if isinstance(xs, LazyComp): return xs.fold(lambda a, b: a * b, start)
  if symbolic(xs): return LazyComp(xs, lambda v: v, (), False, 'prod').fold(lambda a, b: a * b, start)
  return _math.prod(xs, start=start)

_chain_obj = _chain
class _Chain:
  def __call__(self, *a): return _chain(*a)
  @staticmethod
  def from_iterable(xs):
    return _chain(*xs)

LIBS = {
    'functools': _Proxy(_ft, reduce=_reduce),
    'itertools': _Proxy(_itt, chain=_Chain()),
    'math': _Proxy(_math, factorial=_factorial, comb=_comb, prod=_prod),
    'operator': _op,
}
