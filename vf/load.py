"""Mechanical extraction: loads the *current* source of /repo for verification.

What the extraction changes (and nothing else):
  * `for`/`while` loops and comprehensions get a second copy of
    their body that is entered only when the iterable/condition is symbolic (loop
    cut by invariants); with concrete iterables the original loop runs.
  * list and dict displays build verifier lists/dicts (same behaviour).
  * calls with * or ** arguments go through a helper that accepts symbolic sequences.
  * builtins len/range/enumerate/zip/sum/min/max/tuple/list/... and
    functools.reduce, itertools.chain, math.factorial/comb accept symbolic values.
  * a loop over itertools.product is the nest of loops, `yield from` is a loop.
  * `import` of jax / numpy-like back ends may be redirected to a specification
    stub by the unit.
Annotations and docstrings are not executed differently.
"""
import ast, builtins, os, sys, types as _types, importlib
from . import rt

REPO = os.environ.get('VF_REPO', '/repo')

def _assigned_names(nodes):
  """Names (re)bound or mutated by the statements."""
  out = []
  def add(n):
    if n not in out: out.append(n)
  class V(ast.NodeVisitor):
    def visit_Name(self, n):
      if isinstance(n.ctx, (ast.Store, ast.Del)): add(n.id)
    def visit_FunctionDef(self, n): add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n):
      for g in n.generators: self.visit(g.iter)
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    def visit_Subscript(self, n):
      if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): add(n.value.id)
      self.generic_visit(n)
    def visit_Call(self, n):
      if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
          'append', 'extend', 'insert', 'pop', 'update', 'add', 'remove', 'clear', 'setdefault'):
        add(n.func.value.id)
      self.generic_visit(n)
    def visit_NamedExpr(self, n):
      add(n.target.id); self.visit(n.value)
  v = V()
  for s in nodes: v.visit(s)
  return out

class _BreakRewriter(ast.NodeTransformer):
  def __init__(self, L): self.L = L
  def visit_For(self, n): return n
  visit_While = visit_For
  def visit_FunctionDef(self, n): return n
  def visit_Break(self, n):
    return [_expr(f'{self.L}.brk()'), ast.Break()]

def _expr(s): return ast.parse(s).body[0]
def _stmts(s): return ast.parse(s).body

class Desugar(ast.NodeTransformer):
  """Two rewritings into equivalent Python, before the transformation itself:
  a loop over itertools.product(a, b, ...) is the nest of loops over a, b, ... (evaluated first, in this order);
  `yield from x` (as a statement) is a loop that yields the elements of x."""
  n = 0
  def product_args(self, it, target):
    f = it.func if isinstance(it, ast.Call) else None
    if not (isinstance(f, ast.Attribute) and f.attr == 'product' and isinstance(f.value, ast.Name) and f.value.id == 'itertools'): return None
    if it.keywords or len(it.args) < 2 or any(isinstance(a, ast.Starred) for a in it.args): return None
    if not isinstance(target, (ast.Tuple, ast.List)) or len(target.elts) != len(it.args) or any(isinstance(x, ast.Starred) for x in target.elts): return None
    return list(zip(target.elts, it.args))
  def visit_For(self, n):
    self.generic_visit(n)
    pa = self.product_args(n.iter, n.target)
    if pa is None or n.orelse or _breaks(n.body): return n
    names = []
    for _, a in pa:
      Desugar.n += 1; names.append(f'__vf_p{Desugar.n}')
    out = [ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], _call('_vf.again', a)), a) for x, (_, a) in zip(names, pa)]
    body = n.body
    for x, (t, a) in reversed(list(zip(names, pa))):
      body = [ast.copy_location(ast.For(target=t, iter=ast.copy_location(ast.Name(x, ast.Load()), a), body=body, orelse=[]), a)]
    return [ast.fix_missing_locations(s) for s in out + body]
  def comp(self, n):
    self.generic_visit(n)
    gens = []
    for i, g in enumerate(n.generators):
      pa = self.product_args(g.iter, g.target)
      if pa is None or g.is_async: gens.append(g); continue
      if not all(isinstance(a, ast.Name) or isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('range', 'enumerate') for _, a in pa): return n
      for j, (t, a) in enumerate(pa): gens.append(ast.comprehension(target=t, iter=a, ifs=g.ifs if j == len(pa) - 1 else [], is_async=0))
    n.generators = gens
    return n
  visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = comp
  def visit_Expr(self, n):
    self.generic_visit(n)
    if not isinstance(n.value, ast.YieldFrom): return n
    Desugar.n += 1; x = f'__vf_y{Desugar.n}'
    loop = ast.For(target=ast.Name(x, ast.Store()), iter=n.value.value, body=[ast.Expr(ast.Yield(ast.Name(x, ast.Load())))], orelse=[])
    return ast.fix_missing_locations(ast.copy_location(loop, n))

def _breaks(stmts):
  class V(ast.NodeVisitor):
    found = False
    def visit_For(self, n):
      for s in n.orelse: self.visit(s)
    visit_While = visit_For
    def visit_FunctionDef(self, n): pass
    def visit_Break(self, n): self.found = True
  v = V()
  for s in stmts: v.visit(s)
  return v.found

class Transformer(ast.NodeTransformer):
  def __init__(self, modname):
    self.mod = modname
    self.n = 0
    self.depth = 0
    self.fn = []
    self.loops = []

  def uid(self):
    self.n += 1
    return self.n

  def site(self, node):
    return f"{self.mod}:{'.'.join(self.fn) or '<module>'}:{node.lineno}:{node.col_offset}"

  # -- functions: only bodies and defaults
  def visit_FunctionDef(self, n):
    self.fn.append(n.name)
    self.depth += 1; loops, self.loops = self.loops, []
    n.body = self._body(n.body)
    self.depth -= 1; self.loops = loops
    self.fn.pop()
    n.args.defaults = [self.visit(d) for d in n.args.defaults] if self.depth else n.args.defaults
    return n
  def visit_ClassDef(self, n):
    self.fn.append(n.name)
    d, self.depth = self.depth, 0
    n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
    self.depth = d
    self.fn.pop()
    return n
  def visit_Module(self, n):
    n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
    return n
  def _body(self, stmts):
    out = []
    for s in stmts:
      r = self.visit(s)
      out.extend(r if isinstance(r, list) else [r])
    return out
  def visit_Return(self, n):
    """A return out of a loop that was cut leaves that loop."""
    self.generic_visit(n)
    if not self.loops: return n
    r = f'__vf_r{self.uid()}'
    return [ast.copy_location(x, n) for x in [ast.Assign([ast.Name(r, ast.Store())], n.value or ast.Constant(None)), *[_expr(f'{L}.brk()') for L in reversed(self.loops)], ast.Return(ast.Name(r, ast.Load()))]]
  def _loop_body(self, L, stmts):
    self.loops.append(L)
    try: return self._body(stmts)
    finally: self.loops.pop()
  def visit_AnnAssign(self, n):
    if n.value is not None: n.value = self.visit(n.value)
    return n

  def visit_For(self, n):
    import copy
    if not self.depth: return n
    k = self.uid(); it, L, S = f'__vf_it{k}', f'__vf_L{k}', f'__vf_s{k}'
    names = [x for x in _assigned_names(n.body + [n.target])]
    site = self.site(n)
    iter_e = self.visit(n.iter)
    body1 = self._body(copy.deepcopy(n.body)); orelse1 = self._body(copy.deepcopy(n.orelse))
    body2 = self._loop_body(L, copy.deepcopy(n.body)); orelse2 = self._body(copy.deepcopy(n.orelse))
    brw = _BreakRewriter(L)
    b2 = []
    for s in body2:
      r = brw.visit(s); b2.extend(r if isinstance(r, list) else [r])
    tgt = ast.unparse(n.target)
    out = [ast.Assign([ast.Name(it, ast.Store())], _call('_vf.iter', iter_e))]
    conc = ast.For(target=n.target, iter=ast.Name(it, ast.Load()), body=body1, orelse=orelse1)
    sym = _stmts(f'{L} = _vf.Loop({it}, {site!r}, {tuple(names)!r})\n{S} = {L}.enter(locals())\n' +
                 ''.join(f'{x} = {S}[{x!r}]\n' for x in names))
    once = ast.For(target=ast.Name('__vf_o', ast.Store()), iter=ast.parse('(0,)', mode='eval').body,
                   body=_stmts(f'{tgt} = {L}.item()') + b2, orelse=[])
    sym.append(ast.If(test=ast.parse(f'{L}.body()', mode='eval').body,
                      body=[once] + _stmts(f'if not {L}.broken: {L}.step(locals())'),
                      orelse=_stmts(f'{L}.exit()') + orelse2))
    out.append(ast.If(test=ast.parse(f'_vf.concrete({it})', mode='eval').body, body=[conc], orelse=sym))
    for s in out: ast.copy_location(s, n)
    return out

  def visit_While(self, n):
    import copy
    if not self.depth: return n
    k = self.uid(); L, S, C = f'__vf_L{k}', f'__vf_s{k}', f'__vf_c{k}'
    names = _assigned_names(n.body)
    site = self.site(n)
    test1 = self.visit(copy.deepcopy(n.test)); test2 = self.visit(copy.deepcopy(n.test)); test3 = self.visit(copy.deepcopy(n.test))
    body1 = self._body(copy.deepcopy(n.body)); orelse1 = self._body(copy.deepcopy(n.orelse))
    body2 = self._loop_body(L, copy.deepcopy(n.body)); orelse2 = self._body(copy.deepcopy(n.orelse))
    brw = _BreakRewriter(L); b2 = []
    for s in body2:
      r = brw.visit(s); b2.extend(r if isinstance(r, list) else [r])
    conc = ast.While(test=test1, body=body1, orelse=orelse1)
    sym = _stmts(f'{L} = _vf.Loop(None, {site!r}, {tuple(names)!r})\n{S} = {L}.enter(locals())\n' +
                 ''.join(f'{x} = {S}[{x!r}]\n' for x in names))
    once = ast.For(target=ast.Name('__vf_o', ast.Store()), iter=ast.parse('(0,)', mode='eval').body, body=b2, orelse=[])
    sym.append(ast.If(test=test3,
                      body=_stmts(f'{L}.wbody()') + [once] + _stmts(f'if not {L}.broken: {L}.step(locals())'),
                      orelse=_stmts(f'{L}.exit()') + orelse2))
    out = [ast.If(test=_call('_vf.concrete_cond', ast.Lambda(args=_noargs(), body=test2)), body=[conc], orelse=sym)]
    for s in out: ast.copy_location(s, n)
    return out

  # -- comprehensions
  def _target(self, t):
    """The names a comprehension binds, and how an element is taken apart (False: not at all, True: a tuple of names, otherwise the nesting)."""
    names = []
    def go(t):
      if isinstance(t, ast.Name):
        if t.id in names: names[names.index(t.id)] = f'__vf_d{self.uid()}'
        names.append(t.id); return None
      if isinstance(t, (ast.Tuple, ast.List)):
        r = [go(e) for e in t.elts]
        return False if any(x is False for x in r) else tuple(r)
      return False
    spec = go(t)
    if spec is False or spec == (): return None
    return names, False if spec is None else True if all(x is None for x in spec) else spec
  def _comps(self, n, kind):
    gens, names = [], []
    def lam(body): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
    for g in n.generators:
      ft = self._target(g.target)
      if ft is None: return self.generic_visit(n)
      new, star = ft
      if g.is_async or set(new) & set(names): return self.generic_visit(n)
      itf = lam(self.visit(g.iter)); names += new
      gens.append(ast.Tuple([itf, ast.Constant(star), ast.Tuple([lam(self.visit(i)) for i in g.ifs], ast.Load())], ast.Load()))
    return ast.copy_location(_call('_vf.' + kind, ast.List(gens, ast.Load()), lam(self.visit(n.elt)), ast.Constant(self.site(n))), n)
  def visit_SetComp(self, n): return self._comps(n, 'setcomps') if self.depth else n
  def _comp(self, n, kind):
    if self.depth and len(n.generators) > 1 and kind in ('listcomp', 'genexp'): return self._comps(n, kind + 's')
    if not self.depth or len(n.generators) != 1 or n.generators[0].is_async:
      return self.generic_visit(n)
    g = n.generators[0]
    ft = self._target(g.target)
    if ft is None: return self.generic_visit(n)
    args, star = ft
    nested = star if isinstance(star, tuple) else None
    if nested: star = False
    site = self.site(n)
    it = self.visit(g.iter); elt = self.visit(n.elt); ifs = [self.visit(i) for i in g.ifs]
    def lam(body):
      f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
      return _call('_vf.unnest', ast.parse(repr(nested), mode='eval').body, f) if nested else f
    c = ast.Call(func=ast.Attribute(ast.Name('_vf', ast.Load()), kind, ast.Load()),
                 args=[it, lam(elt), ast.Tuple([lam(i) for i in ifs], ast.Load()), ast.Constant(star), ast.Constant(site)],
                 keywords=[])
    return ast.copy_location(c, n)
  def visit_ListComp(self, n): return self._comp(n, 'listcomp')
  def visit_GeneratorExp(self, n): return self._comp(n, 'genexp')

  def visit_Call(self, n):
    self.generic_visit(n)
    if not self.depth or not (any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)): return n
    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == '_vf': return n
    args = [ast.Tuple([ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ast.Load()) for a in n.args]
    kws = [ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in n.keywords]
    return ast.copy_location(_call('_vf.apply', n.func, ast.Tuple(args, ast.Load()), ast.Tuple(kws, ast.Load())), n)

  def visit_List(self, n):
    self.generic_visit(n)
    if not self.depth or not isinstance(n.ctx, ast.Load): return n
    if any(isinstance(x, ast.Starred) for x in n.elts): return self._display(n, 'list')
    return ast.copy_location(_call('_vf.mklist', n), n)
  def visit_Assign(self, n):
    self.generic_visit(n)
    t = n.targets[0]
    if self.depth and len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts) and not isinstance(n.value, ast.Tuple):
      n.value = ast.copy_location(_call('_vf.unpack', n.value, ast.Constant(len(t.elts))), n.value)
    return n
  def visit_Tuple(self, n):
    self.generic_visit(n)
    if not self.depth or not isinstance(n.ctx, ast.Load) or not any(isinstance(x, ast.Starred) for x in n.elts): return n
    return self._display(n, 'tuple')
  def _display(self, n, kind):
    """(*a, b, *c): the parts may be symbolic sequences."""
    parts = [ast.Tuple([ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ast.Load()) for x in n.elts]
    return ast.copy_location(_call('_vf.display', ast.Constant(kind), *parts), n)
  def visit_Compare(self, n):
    self.generic_visit(n)
    if not self.depth or len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Is, ast.IsNot)): return n
    if any(isinstance(x, ast.Constant) for x in (n.left, n.comparators[0])): return n
    c = _call('_vf.is_', n.left, n.comparators[0])
    if isinstance(n.ops[0], ast.IsNot): c = ast.UnaryOp(ast.Not(), c)
    return ast.copy_location(c, n)
  def visit_Dict(self, n):
    self.generic_visit(n)
    if not self.depth: return n
    return ast.copy_location(_call('_vf.mkdict', n), n)
  def visit_DictComp(self, n):
    if not self.depth or len(n.generators) != 1: return self.generic_visit(n)
    pair = ast.Tuple([n.key, n.value], ast.Load())
    ge = ast.GeneratorExp(elt=pair, generators=n.generators)
    ast.copy_location(ge, n); ast.fix_missing_locations(ge)
    c = self._comp(ge, 'dictcomp')
    if isinstance(c, ast.GeneratorExp): return self.generic_visit(n)
    return ast.copy_location(c, n)

def _noargs(): return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
def _call(fn, *args):
  return ast.Call(func=ast.parse(fn, mode='eval').body, args=list(args), keywords=[])

_SRC = {}
def source_path(mod):
  p = os.path.join(REPO, *mod.split('.'))
  if os.path.isdir(p): return os.path.join(p, '__init__.py')
  return p + '.py'

def parse(mod):
  if mod not in _SRC:
    src = open(source_path(mod)).read()
    tree = ast.parse(src)
    tree = Transformer(mod).visit(Desugar().visit(tree))
    ast.fix_missing_locations(tree)
    _SRC[mod] = compile(tree, source_path(mod), 'exec')
  return _SRC[mod]

class World:
  """A fresh set of verification copies of the repo's modules."""
  def __init__(self, stubs=None):
    self.mods = {}
    self.stubs = dict(stubs or {})     # module name -> object
    self.builtins = dict(vars(builtins))
    self.builtins.update(rt.BUILTINS)
    self.builtins['__import__'] = self._import
    self.libs = rt.LIBS

  def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
    top = name.split('.')[0]
    if name in self.stubs:
      return self.stubs[name] if fromlist else self.stubs.get(top, self.stubs[name])
    if top in self.stubs:
      return self.stubs[top]
    if top == 'autobound':
      m = self.get(name)
      for f in fromlist or ():
        if not hasattr(m, f) and os.path.exists(source_path(name + '.' + f)):
          setattr(m, f, self.get(name + '.' + f))
      return m if fromlist else self.get('autobound')
    if name in self.libs and name not in ('collections.abc',):
      return self.libs[name]
    return importlib.__import__(name, globals, locals, fromlist, level)

  def get(self, mod):
    if mod in self.stubs: return self.stubs[mod]
    if mod in self.mods: return self.mods[mod]
    m = _types.ModuleType(mod)
    m.__file__ = source_path(mod)
    self.mods[mod] = m
    if mod == 'autobound' or mod == 'autobound.jax':
      m.__path__ = [os.path.dirname(m.__file__)]
      return m          # package __init__ (re-exports only) is not executed
    m.__dict__['__builtins__'] = self.builtins
    m.__dict__['_vf'] = rt
    # dataclasses look the module up by name
    saved = sys.modules.get(mod)
    sys.modules[mod] = m
    try:
      exec(parse(mod), m.__dict__)
    finally:
      if saved is None: del sys.modules[mod]
      else: sys.modules[mod] = saved
    return m
