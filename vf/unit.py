"""Base class of a verification unit (a set of functions with contracts)."""
import z3
from .core import *
from .core import _CUR
from . import rt

class Unit:
  name = '?'
  functions = ()       # qualified names of the functions of /repo under contract in this unit
  assumptions = ()     # assumed, unchecked facts
  eager_restart = True
  stubs = {}

  def __init__(self):
    self.obl_prefix = ''

  # -- to override
  def run(self, e): raise NotImplementedError
  def start_path(self, e): pass
  def templates(self, loop, name, v):
    k = rt.kind(v)
    if k == 'int' and loop.n is not None:
      v0 = iv(v)
      yield 'const', lambda x, i: iv(x) == v0
      yield 'plus', lambda x, i: iv(x) == v0 + i
      yield 'minus', lambda x, i: iv(x) == v0 - i
      yield 'nonneg', lambda x, i: iv(x) >= 0
    elif k == 'int':
      v0 = iv(v)
      yield 'const', lambda x, i: iv(x) == v0
      yield 'plus', lambda x, i: iv(x) == v0 + i
      yield 'minus', lambda x, i: iv(x) == v0 - i
      yield 'nonneg', lambda x, i: iv(x) >= 0
      for n, y in loop.bounds:     # integers that the loop does not assign
        yield f'at most {n}', (lambda y: lambda x, i: iv(x) <= y)(y)
        yield f'at most {n} + 1', (lambda y: lambda x, i: iv(x) <= y + 1)(y)
    if k == 'real':
      v0 = rv(v)
      yield 'const', lambda x, i: rv(x) == v0
    if k == 'bool':
      v0 = bv(v)
      yield 'const', lambda x, i: bv(x) == v0
  def state_templates(self, loop, st): return ()
  def lemmas(self, pc, goal): return ()
  def is_dom(self, v): return False
  def havoc_extra(self, loop): return ()
  def site_name(self, site):
    p = site.split(':')
    return f'{p[1]}#L'
  def mkdict(self, d): return d
  def reset(self, e):
    e.vlists = []
    self.frame(e)
    self.start_path(e)
  def frame(self, e):
    """Frame condition: the functions under contract leave no state behind in module-level containers."""
    w = getattr(self, 'world', None)
    if w is None: return
    now = {(m, k): snapshot(v) for m, mod in w.mods.items() for k, v in vars(mod).items() if isinstance(v, (dict, list, set, bytearray)) and not k.startswith('__')}
    old, self._frame = getattr(self, '_frame', None), now
    if old is None: return
    for k in old:
      if k in now and now[k] != old[k]: raise EngineLimit(f'the state of {k[0]}.{k[1]} is changed by a call')

  def _nolimit(self, what): raise EngineLimit(f'unsupported: {what}')
  def __getattr__(self, n):
    if n in ('list_model', 'havoc', 'widen', 'repeat', 'concat', 'slice', 'to_tuple', 'to_list', 'to_set', 'list_extend',
             'conc_index', 'minmax', 'dictcomp', 'int_pow', 'real_pow', 'rpow', 'factorial', 'comb'):
      if n == 'widen': return lambda *a: None
      def f(*a, **k): raise EngineLimit(f'unsupported operation on symbolic value: {n}')
      return f
    raise AttributeError(n)

  # -- helpers
  def label(self, s): return f'{self.name}: {s}'

def snapshot(v):
  """Shallow contents of a container, by identity."""
  if isinstance(v, dict): return ('d', tuple((id(a), id(b)) for a, b in dict.items(v)))
  if isinstance(v, (list, tuple)): return ('l', tuple(id(a) for a in list.__iter__(v)) if isinstance(v, list) else tuple(id(a) for a in v))
  if isinstance(v, set): return ('s', frozenset(id(a) for a in v))
  return id(v)
def captured(fn):
  """Contents of the variables captured by a function."""
  out = {}
  for n, c in zip(getattr(getattr(fn, '__code__', None), 'co_freevars', ()), getattr(fn, '__closure__', None) or ()):
    try: v = c.cell_contents
    except ValueError: out[n] = None; continue
    out[n] = (v, id(v), snapshot(v) if isinstance(v, (dict, list, set)) else None)
  return out
def same_captured(a, b): return a.keys() == b.keys() and all((x is None) == (y is None) and (x is None or x[1:] == y[1:]) for x, y in ((a[k], b[k]) for k in a))

def call_contract(e, name, fn, raises=()):
  """Runs code under verification; AssertionError/any exception not allowed by the contract is a failed obligation."""
  try:
    return 'ok', fn()
  except (PathEnd, EngineLimit): raise
  except raises as ex:
    return 'raise', ex
  except z3.Z3Exception as ex:
    raise EngineLimit(f'z3: {ex}')
  except RecursionError as ex:
    raise EngineLimit('recursion')
  except (AttributeError, NameError) as ex:
    # the stub lacks an operation: outside the verifier's subset
    import traceback
    raise EngineLimit(f'{type(ex).__name__}: {ex} @ {traceback.format_exc().splitlines()[-3:]}')
  except Exception as ex:
    import traceback
    e.fail(f'{name}: no unexpected exception', f'{type(ex).__name__}: {ex}\n' + ''.join(traceback.format_exc()[-600:]))
