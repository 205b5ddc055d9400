"""Scope-aware walks over the syntax tree."""
import ast

from .prog import dotted

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Scope:
  """A function (or module) with its bindings."""

  def __init__(self, node, parent, mod, cls=None):
    self.node, self.parent, self.mod, self.cls = node, parent, mod, cls
    self.names, self.imports, self.globals = set(), {}, set()
    if isinstance(node, FUNCS):
      a = node.args
      self.names |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
      body = node.body if isinstance(node.body, list) else [node.body]
      for s in body:
        self._collect(s)
      self.names -= self.globals

  def _collect(self, n):
    if isinstance(n, FUNCS + (ast.ClassDef,)):
      if hasattr(n, 'name'):
        self.names.add(n.name)
      return
    if isinstance(n, ast.Global):
      self.globals |= set(n.names)
    elif isinstance(n, ast.Import):
      for a in n.names:
        self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    elif isinstance(n, ast.ImportFrom):
      for a in n.names:
        self.imports[a.asname or a.name] = f'{n.module}.{a.name}'
    elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      self.names.add(n.id)
    elif isinstance(n, ast.ExceptHandler) and n.name:
      self.names.add(n.name)
    for c in ast.iter_child_nodes(n):
      self._collect(c)

  @property
  def name(self):
    out, s = [], self
    while s is not None and s.node is not None and not isinstance(s.node, ast.Module):
      out.append(getattr(s.node, 'name', '<lambda>'))
      if s.cls is not None:
        out.append(s.cls.name)
      s = s.parent
    return '.'.join(reversed(out)) or '<module>'

  def resolve(self, d):
    """Canonical dotted path of a source name, or None for a local value."""
    head, _, rest = d.partition('.')
    s = self
    while s is not None:
      if isinstance(s.node, FUNCS):
        if head in s.imports:
          return s.mod.prog.canon(s.imports[head] + ('.' + rest if rest else ''))
        if head in s.names:
          return None
      s = s.parent
    return self.mod.resolve_name(d)

  def params(self):
    a = self.node.args
    return a.posonlyargs + a.args + a.kwonlyargs


class Walk:
  """parents, scopes and references of one module."""

  def __init__(self, mod):
    self.mod = mod
    self.parent, self.scope, self.ann = {}, {}, set()
    self.funcs = []
    self._visit(mod.tree, Scope(mod.tree, None, mod), None)

  def _visit(self, n, sc, cls):
    self.scope[n] = sc
    for f, v in ast.iter_fields(n):
      for c in v if isinstance(v, list) else [v]:
        if not isinstance(c, ast.AST):
          continue
        self.parent[c] = n
        if f in ('annotation', 'returns'):
          for x in ast.walk(c):
            self.ann.add(x)
        if isinstance(n, FUNCS) and f in ('body',):
          inner = self._inner(n, sc, cls)
          self._visit(c, inner, None)
        elif isinstance(n, ast.ClassDef) and f == 'body':
          self._visit(c, sc, n)
        else:
          self._visit(c, sc, cls if isinstance(n, ast.ClassDef) else None if not isinstance(c, FUNCS) else cls)

  def _inner(self, n, sc, cls):
    for s in self.funcs:
      if s.node is n:
        return s
    s = Scope(n, sc, self.mod, cls)
    self.funcs.append(s)
    return s

  def where(self, n):
    sc = self.scope.get(n)
    return f'{self.mod.rel}:{getattr(n, "lineno", 0)} {sc.name if sc else ""}'

  def references(self):
    """(node, resolved dotted path) of every maximal name/attribute chain outside annotations."""
    for n in ast.walk(self.mod.tree):
      if n in self.ann or not isinstance(n, (ast.Name, ast.Attribute)):
        continue
      p = self.parent.get(n)
      if isinstance(p, ast.Attribute) and p.value is n:
        continue
      if not isinstance(getattr(n, 'ctx', None), ast.Load):
        continue
      d = dotted(n)
      if d:
        r = self.scope[n].resolve(d) if n in self.scope else None
        if r:
          yield n, r

  def function_of(self, n):
    sc = self.scope.get(n)
    return sc if sc is not None and isinstance(sc.node, FUNCS) else None


_walks = {}


def walk(mod):
  k = id(mod)
  if k not in _walks:
    _walks[k] = (mod, Walk(mod))
  return _walks[k][1]
