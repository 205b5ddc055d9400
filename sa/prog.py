"""Program model: modules, imports, classes, functions, annotations."""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'putting_dune'


class AnalysisBroken(Exception):
  """An anchor the analysis depends on is gone: no verdict."""


class Func:
  def __init__(self, mod, node, qual, cls=None):
    self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
    self.name = node.name
    decs = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]
    self.decs = [mod.resolve_name(d) if d else None for d in decs]
    self.is_property = any(d and (d.split('.')[-1] in ('property', 'cached_property') or d.endswith('.getter'))
                           for d in self.decs)
    self.is_setter = any(d and d.endswith('.setter') for d in decs if d)
    self.is_static = 'staticmethod' in self.decs
    self.is_classmethod = 'classmethod' in self.decs
    self.is_abstract = any(d and 'abstract' in d for d in self.decs)
    self.is_overload = any(d and d.endswith('overload') for d in self.decs)
    self.is_gen = is_generator(node)

  @property
  def where(self):
    return f'{self.mod.rel}:{self.node.lineno} {self.qual}'

  def params(self):
    a = self.node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a

  def __repr__(self):
    return f'<Func {self.qual}>'


def is_generator(node):
  stack = list(node.body) if isinstance(node.body, list) else [node.body]
  while stack:
    n = stack.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack.extend(ast.iter_child_nodes(n))
  return False


def dotted(n):
  parts = []
  while isinstance(n, ast.Attribute):
    parts.append(n.attr)
    n = n.value
  if isinstance(n, ast.Name):
    parts.append(n.id)
    return '.'.join(reversed(parts))
  return None


class Class:
  def __init__(self, mod, node):
    self.mod, self.node, self.name = mod, node, node.name
    self.qual = f'{mod.name}.{node.name}'
    self.bases = []
    for b in node.bases:
      if isinstance(b, ast.Subscript):
        b = b.value
      d = dotted(b)
      self.bases.append(mod.resolve_name(d) if d else None)
    self.methods, self.setters, self.consts, self.fields = {}, {}, {}, []
    self.is_dataclass, self.frozen = False, False
    for d in node.decorator_list:
      dn = mod.resolve_name(dotted(d.func if isinstance(d, ast.Call) else d) or '')
      if dn and dn.split('.')[-1] in ('dataclass',) :
        self.is_dataclass = True
        if isinstance(d, ast.Call):
          for k in d.keywords:
            if k.arg == 'frozen' and isinstance(k.value, ast.Constant):
              self.frozen = bool(k.value.value)
    for s in node.body:
      self._stmt(s)
    if any(b and b.split('.')[-1] in ('NamedTuple', 'TypedDict') for b in self.bases):
      self.is_dataclass = True
      self.frozen = True
    self.is_typeddict = any(b and b.split('.')[-1] == 'TypedDict' for b in self.bases)
    self.is_enum = any(b and b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum') for b in self.bases)

  def _stmt(self, s):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      f = Func(self.mod, s, f'{self.qual}.{s.name}', self)
      if f.is_overload:
        return
      if f.is_setter:
        self.setters[s.name] = f
      else:
        self.methods[s.name] = f
    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
      ann = s.annotation
      is_cv = 'ClassVar' in ast.dump(ann)
      if is_cv:
        if s.value is not None:
          self.consts[s.target.id] = s.value
      else:
        self.fields.append((s.target.id, ann, s.value))
    elif isinstance(s, ast.Assign):
      for t in s.targets:
        if isinstance(t, ast.Name):
          self.consts[t.id] = s.value
    elif isinstance(s, ast.If):
      for x in s.body + s.orelse:
        self._stmt(x)

  def __repr__(self):
    return f'<Class {self.qual}>'


LOGGERS = ('logging', 'absl.logging', 'warnings')


def _silent(s, mod):
  """A statement that only writes a log, or nothing."""
  if isinstance(s, ast.Pass):
    return True
  if not isinstance(s, ast.Expr):
    return False
  if isinstance(s.value, ast.Constant):
    return True
  f = s.value.func if isinstance(s.value, ast.Call) else None
  if not isinstance(f, ast.Attribute) or not isinstance(f.value, ast.Name):
    return False
  if mod.imports.get(f.value.id) not in LOGGERS or f.attr in ('fatal', 'shutdown'):
    return False
  return not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr)) for a in [*s.value.args, *[k.value for k in s.value.keywords]] for x in ast.walk(a))


class Tidy(ast.NodeTransformer):
  """Spellings with one meaning are brought to one form before any analysis: a `try` that only passes exceptions on (possibly after
  logging them) is its body; extending a list by one written element appends it."""

  def __init__(self, mod):
    self.mod = mod

  def visit_Try(self, n):
    self.generic_visit(n)
    while n.handlers and isinstance(n.handlers[-1].body[-1], ast.Raise) and self.passes_on(n.handlers[-1]):
      n.handlers.pop()
    if all(_silent(s, self.mod) for s in n.finalbody):
      n.finalbody = []
    if n.handlers or n.finalbody:
      return n
    return n.body + n.orelse

  def visit_ClassDef(self, n):
    self.generic_visit(n)
    for f in n.body:
      if not isinstance(f, ast.FunctionDef) or any('static' in ast.unparse(d) or 'class' in ast.unparse(d) for d in f.decorator_list):
        continue
      ps = f.args.posonlyargs + f.args.args
      inside = [x for b in f.body for x in ast.walk(b)]
      if not ps or ps[0].arg in ('self', 'cls') or any(isinstance(x, ast.Name) and x.id == 'self' or isinstance(x, ast.arg) and x.arg in ('self', ps[0].arg) for x in inside):
        continue
      if any(a.arg == 'self' for a in ps[1:] + f.args.kwonlyargs):
        continue
      for x in inside:  # the receiver, whatever it is called
        if isinstance(x, ast.Name) and x.id == ps[0].arg:
          x.id = 'self'
      ps[0].arg = 'self'
    return n

  def passes_on(self, h):
    last = h.body[-1]
    same = last.exc is None or (h.name and isinstance(last.exc, ast.Name) and last.exc.id == h.name and last.cause is None)
    return bool(same) and all(_silent(s, self.mod) for s in h.body[:-1])

  def visit_Expr(self, n):
    self.generic_visit(n)
    c = n.value
    if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and len(c.args) == 1 and not c.keywords
        and isinstance(c.args[0], (ast.List, ast.Tuple)) and len(c.args[0].elts) == 1 and not isinstance(c.args[0].elts[0], ast.Starred)):
      c.func.attr, c.args = 'append', [c.args[0].elts[0]]
    return n


class Module:
  def __init__(self, prog, path, name, rel, src=None):
    self.prog, self.path, self.name, self.rel = prog, path, name, rel
    if src is None:
      with open(path, encoding='utf-8') as f:
        src = f.read()
    self.src = src
    self.tree = ast.parse(self.src, path)
    self.imports, self.defs = {}, {}
    self.assign_counts = {}
    self._collect(self.tree.body)
    self.tree = Tidy(self).visit(self.tree)

  def _collect(self, body):
    for s in body:
      if isinstance(s, ast.Import):
        for a in s.names:
          if a.asname:
            self.imports[a.asname] = a.name
          else:
            self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
      elif isinstance(s, ast.ImportFrom):
        base = s.module or ''
        if s.level:
          up = self.name.split('.')[:-s.level]
          base = '.'.join(up + ([base] if base else []))
        for a in s.names:
          self.imports[a.asname or a.name] = f'{base}.{a.name}'
      elif isinstance(s, (ast.If, ast.Try)):
        for part in ('body', 'orelse', 'finalbody'):
          self._collect(getattr(s, part, []) or [])
        for h in getattr(s, 'handlers', []):
          self._collect(h.body)
      elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.defs[s.name] = ('func', s)
      elif isinstance(s, ast.ClassDef):
        self.defs[s.name] = ('class', s)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.assign_counts[t.id] = self.assign_counts.get(t.id, 0) + 1
            self.defs[t.id] = ('value', s.value)
          elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(
              t.elts) == len(s.value.elts):
            for a, b in zip(t.elts, s.value.elts):
              if isinstance(a, ast.Name):
                self.defs[a.id] = ('value', b)
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        self.defs[s.target.id] = ('value', s.value)
      elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        self.assign_counts[s.target.id] = 99

  def resolve_name(self, d):
    """Resolves a dotted source name to a canonical dotted path (or builtin)."""
    if not d:
      return d
    head, _, rest = d.partition('.')
    if head in self.imports:
      full = self.imports[head] + ('.' + rest if rest else '')
    elif head in self.defs:
      full = f'{self.name}.{d}'
    else:
      full = d
    return self.prog.canon(full)


ALIASES = {'jax.numpy': 'jnp', 'numpy': 'numpy'}


class Program:
  def __init__(self, repo=None):
    self.repo = repo or REPO
    self.modules, self.classes, self.funcs = {}, {}, {}
    self.overrides, self.class_alias, self.redirect = {}, {}, {}
    root = os.path.join(self.repo, PKG)
    if not os.path.isdir(root):
      raise AnalysisBroken(f'{root} not found')
    self.errors = []
    for dp, dn, fn in os.walk(root):
      dn[:] = sorted(d for d in dn if not d.startswith('.') and d != '__pycache__')
      for f in sorted(fn):
        if not f.endswith('.py') or f.endswith('_test.py') or f.endswith('_pb2.py'):
          continue
        path = os.path.join(dp, f)
        rel = os.path.relpath(path, self.repo)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
          name = name[:-9]
        try:
          self.modules[name] = Module(self, path, name, rel)
        except SyntaxError as e:
          self.errors.append(f'{rel}: {e}')
    for m in self.modules.values():
      for n, (k, node) in list(m.defs.items()):
        if k == 'func':
          self.funcs[f'{m.name}.{n}'] = Func(m, node, f'{m.name}.{n}')
        elif k == 'class':
          self.classes[f'{m.name}.{n}'] = Class(m, node)
    self._subs = {}
    from . import extmodels
    extmodels.load(self)
    for c in self.classes.values():
      for b in c.bases:
        self._subs.setdefault(b, []).append(c)

  def add_module(self, name, src, overrides=()):
    """Adds a model module (for generated or external code); overrides: (external name, function) pairs."""
    m = Module(self, f'<{name}>', name, f'<{name}>', src)
    self.modules[name] = m
    for n, (k, node) in m.defs.items():
      if k == 'func':
        self.funcs[f'{name}.{n}'] = Func(m, node, f'{name}.{n}')
      elif k == 'class':
        self.classes[f'{name}.{n}'] = Class(m, node)
    for c in [c for q, c in self.classes.items() if q.startswith(name + '.')]:
      for b in c.bases:
        self._subs.setdefault(b, []).append(c)
    for ext, fn in overrides:
      self.overrides[ext] = self.funcs[f'{name}.{fn}']
    return m

  def canon(self, full):
    """Follows re-exports inside the package; normalises jax numpy."""
    for _ in range(5):
      parts = full.split('.')
      done = True
      for i in range(len(parts) - 1, 0, -1):
        mn = '.'.join(parts[:i])
        m = getattr(self, 'modules', {}).get(mn)
        if m is not None and i < len(parts):
          nm = parts[i]
          if nm in m.imports and nm not in m.defs:
            full = '.'.join([m.imports[nm]] + parts[i + 1:])
            done = False
          elif nm in m.defs and m.defs[nm][0] == 'value':
            d = dotted(m.defs[nm][1])
            if d and (d.split('.')[0] in m.imports or d.split('.')[0] in m.defs) and d.split('.')[0] != nm:
              tgt = m.resolve_name(d)
              if tgt != full:
                full = '.'.join([tgt] + parts[i + 1:])
                done = False
          break
      if done:
        break
    for ext, model in (getattr(self, 'redirect', None) or {}).items():
      if full == ext or full.startswith(ext + '.'):
        return model + full[len(ext):]
    return full

  def module(self, short):
    m = self.modules.get(f'{PKG}.{short}')
    if m is None:
      raise AnalysisBroken(f'module {short} not found')
    return m

  def cls(self, short):
    c = self.classes.get(f'{PKG}.{short}')
    if c is None:
      raise AnalysisBroken(f'class {short} not found')
    return c

  def func(self, short):
    f = self.funcs.get(f'{PKG}.{short}')
    if f is None:
      raise AnalysisBroken(f'function {short} not found')
    return f

  def method(self, cls_short, name):
    c = self.cls(cls_short)
    f = self.lookup(c, name)
    if f is None:
      raise AnalysisBroken(f'method {cls_short}.{name} not found')
    return f

  def mro(self, c):
    out, stack = [], [c]
    while stack:
      x = stack.pop(0)
      if x in out:
        continue
      out.append(x)
      stack.extend(self.classes[b] for b in x.bases if b in self.classes)
    return out

  def constructors(self, c):
    """__init__ and the private methods nothing but it (or one of them) calls."""
    cache = self.__dict__.setdefault('_constructors', {})
    if c.qual not in cache:
      callers = {}
      for k in set(self.mro(c)) | set(self.subclasses(c.qual)):
        for f in k.methods.values():
          for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr.startswith('_') and isinstance(n.ctx, ast.Load):
              callers.setdefault(n.attr, set()).add(f.name)
      out = {'__init__'}
      grown = True
      while grown:
        new = {n for n, who in callers.items() if n not in out and not n.startswith('__') and self.lookup(c, n) is not None
               and who <= out and not self._named_outside(n)}
        grown = bool(new)
        out |= new
      cache[c.qual] = out
    return cache[c.qual]

  def _named_outside(self, name):
    """Whether an attribute of this name is taken of anything but self."""
    seen = self.__dict__.setdefault('_taken', None)
    if seen is None:
      seen = set()
      for m in self.modules.values():
        for n in ast.walk(m.tree):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
            seen.add(n.attr)
      self._taken = seen
    return name in seen

  def positional(self, name):
    """Parameter names (without self) on which all methods of this name agree."""
    cache = self.__dict__.setdefault('_positional', {})
    if name not in cache:
      sigs = set()
      for c in self.classes.values():
        m = c.methods.get(name)
        if m is not None and not m.is_property:
          a = m.node.args
          ps = [x.arg for x in a.posonlyargs + a.args]
          sigs.add(tuple(ps if m.is_static else ps[1:]))
      cache[name] = sigs.pop() if len(sigs) == 1 else None
    return cache[name]

  def lookup(self, c, name):
    for k in self.mro(c):
      if name in k.methods:
        return k.methods[name]
    return None

  def lookup_const(self, c, name):
    for k in self.mro(c):
      if name in k.consts:
        return k, k.consts[name]
    return None

  def all_fields(self, c):
    out = {}
    for k in reversed(self.mro(c)):
      for n, ann, d in k.fields:
        out[n] = (ann, d, k)
    return out

  def is_subclass(self, c, base_qual):
    return any(k.qual == base_qual or base_qual in k.bases for k in self.mro(c))

  def subclasses(self, qual):
    out, todo = [], [qual]
    while todo:
      q = todo.pop()
      for c in self._subs.get(q, []):
        if c not in out:
          out.append(c)
          todo.append(c.qual)
    return sorted(out, key=lambda c: c.qual)

  # ------------------------------------------------------------ annotations
  def ann_type(self, mod, ann):
    """Annotation AST -> type descriptor: ('cls', Class) | ('seq', T) | ('tup', [T]) | ('ext', dotted) | None."""
    if ann is None:
      return None
    if isinstance(ann, ast.Constant):
      if isinstance(ann.value, str):
        try:
          return self.ann_type(mod, ast.parse(ann.value, mode='eval').body)
        except SyntaxError:
          return None
      return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
      l, r = self.ann_type(mod, ann.left), self.ann_type(mod, ann.right)
      return l if l is not None and l != ('ext', 'None') else r
    if isinstance(ann, ast.Subscript):
      base = mod.resolve_name(dotted(ann.value) or '').split('.')[-1]
      sl = ann.slice
      elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
      if base == 'Optional':
        return self.ann_type(mod, elts[0])
      if base == 'Union':
        for e in elts:
          t = self.ann_type(mod, e)
          if t is not None:
            return t
        return None
      if base in ('Tuple', 'tuple') and not (len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis):
        return ('tup', tuple(self.ann_type(mod, e) for e in elts))
      if base in ('Sequence', 'List', 'list', 'Iterable', 'Iterator', 'tuple', 'Tuple', 'Set', 'set', 'Generator'):
        return ('seq', self.ann_type(mod, elts[0]))
      if base in ('Dict', 'dict', 'Mapping'):
        return ('map', self.ann_type(mod, elts[1]) if len(elts) > 1 else None)
      if base in ('Type', 'type'):
        return ('type', self.ann_type(mod, elts[0]))
      return self.ann_type(mod, ann.value)
    d = dotted(ann)
    if d is None:
      return None
    full = mod.resolve_name(d)
    return self.named_type(full)

  def named_type(self, full):
    for _ in range(5):
      if full in self.classes:
        return ('cls', self.classes[full])
      # NewType aliases
      mn, _, nm = full.rpartition('.')
      m = self.modules.get(mn)
      if m and nm in m.defs and m.defs[nm][0] == 'value':
        v = m.defs[nm][1]
        if isinstance(v, ast.Call) and (m.resolve_name(dotted(v.func) or '') or '').endswith('NewType') and len(v.args) == 2:
          d = dotted(v.args[1])
          if d:
            full = m.resolve_name(d)
            continue
        if isinstance(v, (ast.Subscript,)):
          return self.ann_type(m, v)
        d = dotted(v)
        if d:
          full = m.resolve_name(d)
          continue
      break
    return ('ext', full)

  def newtype_of(self, full):
    """If `full` is a NewType alias: True."""
    mn, _, nm = full.rpartition('.')
    m = self.modules.get(mn)
    if m and nm in m.defs and m.defs[nm][0] == 'value':
      v = m.defs[nm][1]
      return isinstance(v, ast.Call) and (m.resolve_name(dotted(v.func) or '') or '').endswith('NewType')
    return False
