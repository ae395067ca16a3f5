"""Sequences of coefficients seen at one arbitrary (Skolem) position J, and sequences with a known spec."""
import z3
from .core import *
from . import rt
from .m1 import A, L

class Seq(rt.SymIter):
  """A tuple: length and element function."""
  def __init__(self, n, at): self.n, self._at = n, at
  def length(self): return self.n
  def at(self, k): return self._at(k)
  def __vf_tuple__(self): return self
  def __getitem__(self, i):
    if isinstance(i, slice): return self.slice(i)
    return self.at(rt.norm_index(iv(i), self.length()))
  def slice(self, s):
    if s.step not in (None, 1): raise EngineLimit('slice step')
    n = self.length()
    def norm(v, d):
      if v is None: return d
      v = iv(v)
      c = conc_int(v)
      if c is not None: v = n + c if c < 0 else v
      else: v = z3.If(v < 0, n + v, v)
      return z3.simplify(z3.If(v < 0, 0, z3.If(v > n, n, v)))
    lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
    m = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    base = self
    return Seq(m, lambda k: base.at(z3.simplify(k + lo)))
  def __add__(self, o):
    if isinstance(o, tuple) or isinstance(o, list): o = ConcTup(tuple(o))
    if not isinstance(o, Seq): return NotImplemented
    return Cat(self, o)
  def __radd__(self, o):
    if isinstance(o, (tuple, list)): return Cat(ConcTup(tuple(o)), self)
    return NotImplemented
  def __vf_isinstance__(self, cls):
    return cls is tuple or isinstance(cls, tuple) and tuple in cls or cls is type(self)

class ConcTup(Seq):
  def __init__(self, items): self.items = items
  def length(self): return z3.IntVal(len(self.items))
  def at(self, k):
    c = conc_int(k)
    if c is not None: return self.items[c]
    for j in range(len(self.items) - 1):
      if eng().branch(k == j): return self.items[j]
    return self.items[-1]

class Cat(Seq):
  def __init__(self, a, b): self.a, self.b = a, b
  def length(self): return z3.simplify(self.a.length() + self.b.length())
  def at(self, k):
    if eng().branch(z3.simplify(k < self.a.length())): return self.a.at(k)
    return self.b.at(z3.simplify(k - self.a.length()))

class ListJ:
  """Model of a list of array elements: its length and its element at position J."""
  def __init__(self, J, n=None, v=None): self.J, self.n, self.v = J, n, v
  def length(self): return self.n
  def copy(self): return ListJ(self.J, self.n, self.v)
  def havoc(self):
    e = eng(); self.n, self.v = e.fresh_int('len'), e.fresh_real('elt')
  def append(self, x):
    self.v = z3.If(self.n == self.J, L(x).r(), self.v); self.n = z3.simplify(self.n + 1)
  def read(self, k):
    if eng().valid(k == self.J, quick=True)[0] == 'proved': return A(self.v)
    raise EngineLimit('list element at an untracked position')
  def store(self, k, x):
    self.v = z3.If(k == self.J, L(x).r(), self.v)
  def to_seq(self):
    m = self.copy(); return Seq(m.n, m.read)
