"""Obligations, reference models and canonical event traces."""
import ast
import os

from . import absint, arr, cases, terms as T
from .absint import Interp, Frame
from .prog import Program, Module, Func, AnalysisBroken, PKG
from .terms import mk

HERE = os.path.dirname(os.path.abspath(__file__))
UNKNOWN_OPS = {'unknown', 'bottom', 'maybe'}


class Ob:
  def __init__(self, rule, construct, verdict, detail='', where=''):
    self.rule, self.construct, self.verdict, self.detail, self.where = rule, construct, verdict, detail, where

  @property
  def key(self):
    return f'{self.rule}@{self.construct}'


class Analysis:
  """Collects the obligations of one property."""

  def __init__(self, pid, repo=None, plan=None):
    self.pid = pid
    self.prog = Program(repo)
    self.obs = []
    self.analysed = set()
    self.sites = 0
    self.notes = []
    self.assumptions = []
    self._spec = {}
    self.renames, self._used = {}, {}
    self.plan, self.options = plan or {}, {}
    self.nf, self.vocab, self.known = None, False, set()

  # ---------------------------------------------------------------- runs
  def _register(self, run):
    self.analysed |= {q for q in run.it.inlined if q.startswith(PKG)}
    self.sites += len([e for e in run.it.events if e.kind == 'call'])
    return run

  def method(self, cls, name, **kw):
    f = self.prog.method(cls, name)
    return self._register(Run(self, f, cls=self.prog.cls(cls), **kw))

  def node_of(self, cls, name, **kw):
    """A method (possibly inherited) run on a given class object."""
    f = self.prog.lookup(cls, name)
    if f is None:
      raise AnalysisBroken(f'{cls.qual} has no {name}')
    return self._register(Run(self, f, cls=cls, **kw))

  def func(self, short, **kw):
    f = self.prog.func(short)
    return self._register(Run(self, f, **kw))

  def node(self, func, **kw):
    return self._register(Run(self, func, cls=func.cls, **kw))

  def spec_module(self, name):
    m = self._spec.get(name)
    if m is None:
      path = os.path.join(HERE, 'spec', name + '.py')
      m = Module(self.prog, path, f'pdspec.{name}', f'spec/{name}.py')
      for n, (k, node) in m.defs.items():
        if k == 'func':
          self.prog.funcs[f'pdspec.{name}.{n}'] = Func(m, node, f'pdspec.{name}.{n}')
      self._spec[name] = m
      self.prog.modules[f'pdspec.{name}'] = m
    return m

  def spec(self, short, cls=None, **kw):
    """Runs the reference model `module.function`; `self` gets type cls."""
    mod, _, fn = short.rpartition('.')
    m = self.spec_module(mod)
    f = self.prog.funcs.get(f'pdspec.{mod}.{fn}')
    if f is None:
      raise AnalysisBroken(f'reference model {short} missing')
    c = self.prog.cls(cls) if cls else None
    if c is not None:
      self.attr_map(c, f)
    return Run(self, f, cls=c, **kw)

  def attr_map(self, c, f):
    """Private attributes the reference model names that the class calls differently now."""
    mod = f.mod
    used = self._used.setdefault(mod.name, {
        n.attr for n in ast.walk(mod.tree)
        if isinstance(n, ast.Attribute) and n.attr.startswith('_') and isinstance(n.value, ast.Name) and n.value.id == 'self'})
    fs, todo = [], [f.node]
    while todo:
      x = todo.pop()
      fs.append(x)
      for n in ast.walk(x):
        if isinstance(n, ast.Name) and n.id in mod.defs and mod.defs[n.id][0] == 'func' and mod.defs[n.id][1] not in fs + todo:
          todo.append(mod.defs[n.id][1])
    self._apply(fs, self.renames.get(c.qual, {}))
    here = {n.attr for x in fs for n in ast.walk(x) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'}
    have = class_attrs(self.prog, c)
    missing = sorted(a for a in here if a.startswith('_') and a not in have)
    if not missing:
      return {}
    import difflib
    import itertools
    taken = set(self.renames.get(c.qual, {}).values())
    free = sorted(a for a in have if a not in used and a not in taken and a.startswith('_') and not a.startswith('__'))
    if len(free) < len(missing):
      raise AnalysisBroken(f'{c.qual} keeps no attribute corresponding to {missing}')
    perms = list(itertools.islice(itertools.permutations(free, len(missing)), 5000))
    score = lambda p: -sum(difflib.SequenceMatcher(None, x, y).ratio() for x, y in zip(missing, p))
    perms = sorted(perms, key=score)[:24]
    key = f'{c.qual}:{",".join(missing)}'
    self.options[key] = len(perms)
    out = dict(zip(missing, perms[min(self.plan.get(key, 0), len(perms) - 1)]))
    self._apply(fs, out)
    self.renames.setdefault(c.qual, {}).update(out)
    return out

  def _apply(self, fs, out):
    for x in fs:
      for n in ast.walk(x):
        if isinstance(n, ast.Attribute) and n.attr in out and isinstance(n.value, ast.Name) and n.value.id == 'self':
          n.attr = out[n.attr]

  def know(self, run):
    """Adds the operations a reference run uses to the vocabulary mismatches may be judged in."""
    from . import libnf
    for t in [run.result] + [e.d['fn'] for e in run.events if e.kind == 'call' and isinstance(e.d.get('fn'), T.Term)]:
      n = run.it.closed(t)
      self.known |= libnf.vocabulary(n) | libnf.vocabulary(libnf.nf(n))
    for (_, k), v in run.it.heap.items():
      if isinstance(v, T.Term):
        self.known |= libnf.vocabulary(run.it.closed(v))
    return run

  def attr(self, cls, name):
    """The class's present name of an attribute the reference models mention."""
    return self.renames.get(self.prog.cls(cls).qual, {}).get(name, name)

  # ---------------------------------------------------------------- verdicts
  def ob(self, rule, construct, ok, detail='', where=''):
    """ok: True (discharged) / False (violated) / None (undecided)."""
    self.obs.append(Ob(rule, construct, ok, detail, where))
    return ok

  def same(self, rule, construct, actual, expected, where='', it=None):
    if equal(actual, expected):
      return self.ob(rule, construct, True, T.show(actual, 5), where)
    raw = actual, expected
    if self.nf is not None:
      actual, expected = self.nf(actual), self.nf(expected)
      if equal(actual, expected):
        return self.ob(rule, construct, True, T.show(actual, 5), where)
    ok, leaf = cases.equal(actual, expected)
    if not ok and equiv_arrays(*raw):
      ok = True
    if ok:
      return self.ob(rule, construct, True, T.show(actual, 5), where)
    if self.vocab:
      from . import libnf
      new = libnf.foreign(actual, expected) - self.known
      if new:
        return self.ob(rule, construct, None, f'computed with operations the reference does not model: {sorted(new)}', where)
    if ok is None or unresolved(actual) != unresolved(expected):
      return self.ob(rule, construct, None, f'comparison given up: {T.show(actual, 6)}', where)
    if leaf is not None:
      a, b, val = leaf
      if val and not unknown(a):
        when = ' and '.join(('' if v else 'not ') + T.show(c, 5)[:120] for c, v in val)
        return self.ob(rule, construct, False,
                       f'found {T.show(a, 7)[:500]} where the property requires {T.show(b, 7)[:500]} when {when[:400]}', where)
    if unknown(actual):
      return self.ob(rule, construct, None, f'not interpreted: {T.show(actual, 6)}', where)
    a, b = first_diff(actual, expected)
    return self.ob(rule, construct, False,
                   f'found {T.show(a, 7)[:500]} where the property requires {T.show(b, 7)[:500]}', where)

  def same_trace(self, rule, construct, actual, expected, where=''):
    """Compares canonical traces (lists of (label, terms..., guard, loops))."""
    la, lb = [c.key for c in actual], [c.key for c in expected]
    if la == lb:
      return self.ob(rule, construct, True, f'{len(la)} events in order', where)
    if len(actual) == len(expected) and all(a.matches(b) for a, b in zip(actual, expected)):
      return self.ob(rule, construct, True, f'{len(la)} events in order', where)
    a2, b2 = settled(actual), settled(expected)
    if len(a2) == len(b2) and all(a.matches(b) for a, b in zip(a2, b2)):
      return self.ob(rule, construct, True, f'{len(la)} events in order', where)
    if any(c.unknown for c in actual):
      return self.ob(rule, construct, None, 'event with uninterpreted arguments', where)
    n = 0
    while n < len(la) and n < len(lb) and la[n] == lb[n]:
      n += 1
    rest_a, rest_b = actual[n:], expected[n:]
    sa, sb = set(la), set(lb)
    missing = [c for c in rest_b if c.key not in sa]
    extra = [c for c in rest_a if c.key not in sb]
    parts = []
    if missing:
      parts.append('required but absent: ' + missing[0].text())
    if extra:
      parts.append('present but not required: ' + extra[0].text() + f' at {extra[0].where}')
    if not parts:
      if sorted(map(str, la)) == sorted(map(str, lb)):
        parts.append(f'order differs: {rest_a[0].text()} at {rest_a[0].where} where {rest_b[0].text()} is required')
      elif len(la) < len(lb):
        parts.append(f'required more often: {rest_b[0].text()}')
      else:
        parts.append(f'occurs more often than required: {rest_a[0].text()} at {rest_a[0].where}')
    w = extra[0].where if extra else (rest_a[0].where if rest_a else where)
    return self.ob(rule, construct, False, '; '.join(parts)[:1500], w or where)


def unresolved(t):
  """Local variables and storage a loop summary could not express by its input."""
  out = set()
  if isinstance(t, T.Term) and T.contains(t, lambda x: x.op == 'mu'):
    for x in T.subterms(t):
      if x.op == 'mu' and 'env' in x.args:
        out.add(x.args[-1])
      elif x.op == 'ref':
        out.add(x)
  return out


def class_attrs(prog, c):
  out = set()
  for k in prog.mro(c):
    for n in ast.walk(k.node):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store):
        out.add(n.attr)
    for n in k.node.body:
      if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        out.add(n.target.id)
      elif isinstance(n, ast.Assign):
        out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
  return out


class Run:
  """One abstract run of a function with canonical parameter names."""

  def __init__(self, A, f, cls=None, names=None, opaque=(), setup=None, params=None, exact=True, pure=(), types=None, exact_types=False, **kw):
    self.A, self.f = A, f
    full = lambda q: q if q.startswith(PKG + '.') else f'{PKG}.{q}'
    it = Interp(A.prog, opaque={full(q) for q in list(opaque) + list(pure)}, **kw)
    me = None
    pos, ko, _ = f.params()
    if cls is not None and not f.is_static:
      me = mk('param', 'self')
      it.types[me] = ('cls', cls)
      if exact:
        it.exact.add(me)
    self.params = dict(params or {})
    if types:
      for n, t in types.items():
        p = mk('param', n)
        it.types[p] = ('cls', A.prog.cls(t)) if isinstance(t, str) else t
        if exact_types:
          it.exact.add(p)
        self.params.setdefault(n, p)
    # positional renaming to the reference names
    if names:
      skip = 1 if (cls is not None and not f.is_static) else 0
      for p, n in zip(pos[skip:], names):
        if types and n in types:
          self.params.setdefault(p, self.params[n])
        if p != n and p not in self.params:
          t = mk('param', n)
          ty = A.prog.ann_type(f.mod, {x.arg: x.annotation for x in f.node.args.args}.get(p))
          if ty is not None:
            it.types[t] = ty
          self.params[p] = t
    self.it = it
    it.trace_frame = f
    if f.qual.startswith('pdspec') and me is not None:
      self.result = self._spec_run(it, f, me, setup)
    else:
      self.result = absint._run(it, f, me, setup, self.params)
    self.result = it.closed(self.result)

  def _spec_run(self, it, f, me, setup):
    return absint._run(it, f, me, setup, self.params)

  @property
  def events(self):
    return self.it.events

  @property
  def where(self):
    return self.f.where

  def calls(self, name=None, fn=None):
    out = []
    for e in self.events:
      if e.kind == 'call':
        if name is not None and e.d.get('name') == name:
          out.append(e)
        elif fn is not None and e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0] == fn:
          out.append(e)
    return out

  def heap(self, base, attr):
    v = self.it.heap.get((base, attr))
    return self.it.closed(v) if v is not None else None

  def self_attr(self, attr):
    return self.heap(mk('param', 'self'), attr)

  def trace(self, want, guards=True, keep_raise_guards=False):
    out = []
    for e in self.events:
      lab = want(e)
      if lab is None:
        continue
      out.append(Canon(self, e, lab, guards, keep_raise_guards))
    return out


class Canon:
  """A canonical event."""

  def __init__(self, run, e, lab, guards, keep_raise_guards):
    self.where = e.where
    loops = [c for c in e.ctx if c[0] == 'loop']
    m = {}
    doms = []
    it = run.it
    for d, c in enumerate(loops):
      li = it.loops.get(c[1])
      dom = it.deref(c[2])
      if li is not None and li.kind == 'while':
        dom = mk('while')
      dom = self._sub(dom, m)
      if li is None or not li.exits:
        doms.append(dom)
      m[mk('ix', c[1])] = mk('ixc', d, dom)
      if li is not None:
        order = []
        for key, (mu, init, end) in li.carried.items():
          order.append((T.skey(init) + '|' + T.skey(self._mask(end, li)), mu))
        for i, (_, mu) in enumerate(sorted(order, key=lambda x: x[0])):
          m[mu] = mk('muc', d, dom, i)
        if li.exits:
          doms.append(mk('until', dom, self._sub(it.deref(T.or_(*li.exits)), m)))
    self.m = m
    self.label = tuple(self._sub(it.closed(x), m) if isinstance(x, T.Term) else x for x in lab)
    self.doms = tuple(doms)
    g = T.TRUE
    if guards:
      cs = [it.deref(c) for c in e.conds(asserted=keep_raise_guards)]
      g = self._sub(T.and_(*cs), m)
    self.guard = g
    self.key = (self.label, self.doms, self.guard)
    self.unknown = any(isinstance(x, T.Term) and unknown(x) for x in self.label) or unknown(self.guard)

  def matches(self, other):
    if self.key == other.key:
      return True
    if len(self.label) != len(other.label) or len(self.doms) != len(other.doms):
      return False
    pairs = list(zip(self.label, other.label)) + list(zip(self.doms, other.doms)) + [(self.guard, other.guard)]
    return all((equivalent(x, y) if isinstance(x, T.Term) and isinstance(y, T.Term) else x == y) for x, y in pairs)

  def order(self):
    return [T.skey(x) if isinstance(x, T.Term) else str(x) for x in self.label]

  def under(self, guard):
    c = Canon.__new__(Canon)
    c.__dict__.update(self.__dict__)
    c.guard, c.key = guard, (self.label, self.doms, guard)
    return c

  def _mask(self, t, li):
    if t is None:
      return mk('none')
    mus = {mu for mu, _, _ in li.carried.values()}
    return T.subst(t, lambda x: mk('mumask') if x in mus else None)

  def _sub(self, t, m):
    if not m:
      return t
    return T.subst(t, lambda x: m.get(x))

  def text(self):
    s = ' '.join(T.show(x, 5) if isinstance(x, T.Term) else str(x) for x in self.label)[:600]
    if self.doms:
      s += ' for each of ' + ' x '.join(T.show(d, 4) for d in self.doms)
    if self.guard is not T.TRUE:
      s += ' when ' + T.show(self.guard, 5)[:400]
    return s


def settled(trace):
  """Events of exclusive branches in a fixed order; the same event of both branches is one."""
  out = []
  for c in trace:
    i = len(out)
    while i and out[i - 1].doms == c.doms and T.and_(out[i - 1].guard, c.guard) is T.FALSE:
      if out[i - 1].label == c.label:
        break
      if c.order() > out[i - 1].order():
        break
      i -= 1
    if i and out[i - 1].doms == c.doms and out[i - 1].label == c.label and T.and_(out[i - 1].guard, c.guard) is T.FALSE:
      out[i - 1] = out[i - 1].under(T.or_(out[i - 1].guard, c.guard))
      continue
    out.insert(i, c)
  return out


def equiv_arrays(a, b):
  x, y = arr.canon(a), arr.canon(b)
  if x is a and y is b:
    return False
  return equal(x, y) or bool(cases.equal(x, y)[0])


def equivalent(a, b):
  return equal(a, b) or bool(cases.equal(a, b)[0]) or equiv_arrays(a, b)


def unknown(t):
  return T.contains(t, lambda x: x.op in UNKNOWN_OPS)


def equal(a, b):
  if a is b:
    return True
  if a.op in ('poly',) or b.op in ('poly',):
    try:
      if T.rat_equal(a, b):
        return True
    except RecursionError:
      pass
  if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('poly', 'const'):
    return _eq_args(a.args, b.args)
  return False


def _eq_args(x, y):
  if isinstance(x, T.Term) and isinstance(y, T.Term):
    return equal(x, y)
  if isinstance(x, tuple) and isinstance(y, tuple):
    return len(x) == len(y) and all(_eq_args(p, q) for p, q in zip(x, y))
  return type(x) is type(y) and x == y


def first_diff(a, b):
  """The smallest pair of corresponding subterms that differ."""
  while True:
    if not (isinstance(a, T.Term) and isinstance(b, T.Term)):
      return a, b
    if a.op != b.op or a.op in ('poly', 'const', 'and') or len(a.args) != len(b.args):
      return a, b
    diffs = []
    _collect(a.args, b.args, diffs)
    if len(diffs) != 1 or not isinstance(diffs[0][0], T.Term) or not isinstance(diffs[0][1], T.Term):
      if diffs and isinstance(diffs[0][0], T.Term) and isinstance(diffs[0][1], T.Term) and a.op in ('new', 'list', 'tuple'):
        a, b = diffs[0]
        continue
      return a, b
    a, b = diffs[0]


def _collect(x, y, out):
  if isinstance(x, T.Term) and isinstance(y, T.Term):
    if not equal(x, y):
      out.append((x, y))
  elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
    for p, q in zip(x, y):
      _collect(p, q, out)
  elif x != y:
    out.append((x, y))


def call_label(names=(), fns=(), prefix=()):
  """Event selector for calls by method name / global function / prefix."""
  names, fns = set(names), set(fns)

  def want(e):
    if e.kind != 'call':
      return None
    if e.d.get('name') and e.recv is not None and e.d['name'] in names:
      return ('call', e.name, e.recv) + tuple(e.args) + tuple(x for k, v in sorted(e.kwargs.items()) for x in (k, v))
    fn = e.d.get('fn')
    if fn is not None and fn.op == 'glob' and (fn.args[0] in fns or (prefix and fn.args[0].startswith(tuple(prefix)))):
      return ('call', fn.args[0]) + tuple(e.args) + tuple(x for k, v in sorted(e.kwargs.items()) for x in (k, v))
    return None
  return want


def field(t, name):
  """Field of a `new` record term (or None)."""
  if t.op == 'new':
    for k, v in t.args[1]:
      if k == name:
        return v
  if t.op == 'phi':
    a, b = field(t.args[1], name), field(t.args[2], name)
    if a is not None and b is not None:
      return T.phi(t.args[0], a, b)
  return None


def rebind(op, h, dom, body):
  """A binder term with the canonical (minimal) bound-variable height."""
  b0 = mk('bvtmp')
  body = T.subst(body, lambda x: b0 if x.op == 'bv' and x.args[0] == h else None)
  n = absint.binder_height(body) + 1
  return mk(op, n, dom, T.subst(body, lambda x: mk('bv', n) if x is b0 else None))


def map_field(ss, name):
  """Projects a sequence of records onto one field."""
  if ss.op in ('mapl', 'mapf'):
    f = field(ss.args[2], name)
    if f is not None:
      return rebind(ss.op, ss.args[0], ss.args[1], f)
  if ss.op in ('list', 'tuple'):
    fs = [field(x, name) for x in ss.args]
    if all(f is not None for f in fs):
      return mk('list', *fs)
  if ss.op == 'call' and ss.args[0].op == 'glob' and ss.args[0].args[0] in ('seqcopy', 'tuple', 'list'):
    return map_field(ss.args[1][0], name)
  if ss.op == 'seqcopy':
    return map_field(ss.args[0], name)
  return ss


def strip_copy(t):
  """Ignores list/tuple copies of sequences."""
  return T.rewrite(t, lambda x: x.args[0] if x.op == 'seqcopy' else None)
