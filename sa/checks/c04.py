"""Frame inference over the value graph of every function: values get their frame from declarations (frame-typed parameters, fields, returns
and casts) and from the two conversions; it is carried through arithmetic by dimensional analysis (angstroms against fractions of the
field of view). Reported: a value of one frame passed, stored, cast, returned or converted as the other, and sums, differences,
comparisons and joins of both."""
import ast
import signal

from .. import frames as FR, terms as T
from ..prog import PKG

MIN_OBLIGATIONS = 60
TECHNIQUE = 'type-qualifier inference (coordinate frames as qualifiers, dimensional analysis of polynomials) over value graphs and event traces'
ASSUMPTIONS = ['declared frames (NewTypes in annotations, *_material_frame / *_microscope_frame names, the frames of Drift and of field-of-view corners) are the specification']
OPAQUE = ['microscope_utils.MicroscopeFieldOfView.' + x for x in FR.CONVERT]
SKIP = ('microscope_utils.MicroscopeFieldOfView.' + FR.TO_MAT, 'microscope_utils.MicroscopeFieldOfView.' + FR.TO_MIC)
HEAVY = ['alignment.' + x for x in ('get_lattice_clusterer', 'classify_lattice_types', 'align_latest', 'clique_merge', 'naive_merge')]
# drivers: what they call in other modules is judged there, and taken by its declaration here
DRIVERS = {PKG + x for x in ('.eval_lib', '.pipeline.align_trajectories', '.run_helpers', '.experiment_definitions')}


def show(t):
  if isinstance(t, tuple):
    return ' * '.join(T.show(b, 5)[:120] for b, _ in t)
  return T.show(t, 5)[:200]


def terms_of(r):
  yield r.result, r.where
  for e in r.events:
    for k, v in e.d.items():
      if k == 'bound':
        continue
      vs = v if isinstance(v, (list, tuple)) else list(v.values()) if isinstance(v, dict) else [v]
      for x in vs:
        if isinstance(x, T.Term):
          yield r.it.closed(x), e.where
    yield e.guard(), e.where


class Check:
  def __init__(self, A):
    self.A, self.seen, self.decls = A, {}, {}

  def expect(self, rule, what, want, t, fr, where):
    got = fr(t)
    if want is None:
      return
    if got is None:
      if not (t.op == 'const' or T.is_num(t) or t in fr.mixed) and fr.used.setdefault(t, (want, what))[0] != want:
        self.A.ob('one-frame', f'{what} and {fr.used[t][1]}', False, f'{show(t)} is used both in the {want} frame and in the {fr.used[t][0]} frame', where)
      return
    key = (rule, what, where)
    ok = want == got
    if self.seen.get(key, True) is False or (key in self.seen and ok):
      return
    self.seen[key] = ok
    self.A.ob(rule, what, ok, f'{show(t)} is in the {got} frame' + ('' if ok else f', the {want} frame is expected'), where)

  def params(self, f):
    """Declared frames of a function's parameters."""
    if f not in self.decls:
      a = f.node.args
      self.decls[f] = {x.arg: FR.param_frame(self.A.prog, f, x)
                       for x in a.posonlyargs + a.args + a.kwonlyargs if not FR.elementwise(x.annotation)} if not isinstance(f.node, ast.Lambda) else {}
    return self.decls[f]

  def methods(self, name):
    return [m for c in self.A.prog.classes.values() for m in [c.methods.get(name)] if m is not None and m.mod.name.startswith(PKG) and not m.mod.name.endswith('test_utils')]

  def run(self, f, cls):
    A = self.A
    nm = (f'{cls.qual}.{f.name}' if cls is not None else f.qual).replace(PKG + '.', '')
    r = A.node(f, opaque=OPAQUE + [h for h in HEAVY if not nm == h], no_inline=(lambda g: g.mod is not f.mod) if f.mod.name in DRIVERS else None)
    fr = FR.Frames(A, r)
    for e in r.events:
      d = e.d
      if e.kind == 'enter' and hasattr(d.get('callee'), 'node') and d['callee'] is not f:
        for k, want in self.params(d['callee']).items():
          if want and k in d['bound']:
            self.expect('argument', f'{nm}: {k} of {d["callee"].name}', want, r.it.closed(d['bound'][k]), fr, e.where)
      elif e.kind == 'cast':
        v = r.it.closed(d['value'])
        want = FR.alias_frame(d['alias'])
        got = fr.find(v) if v not in fr.memo or fr.casts.get(v) else fr(v)
        if got and want:
          self.expect('cast', f'{nm}: {d["alias"].rsplit(".", 1)[-1]}', want, v, fr, e.where)
      elif e.kind == 'call':
        n = d.get('name')
        if n in FR.CONVERT and d.get('recv') is not None:
          for x in list(d['args']) + list((d.get('kwargs') or {}).values()):
            self.expect('conversion', f'{nm}: {n}', FR.CONVERT[n][0], r.it.closed(x), fr, e.where)
        elif n and d.get('recv') is not None and n not in ('append', 'add', 'update', 'get'):
          self.virtual(nm, n, e, r, fr)
        elif isinstance(d.get('fn'), T.Term) and d['fn'].op == 'glob' and d['fn'].args[0] in A.prog.funcs:
          g = A.prog.funcs[d['fn'].args[0]]
          pos, ko, _ = g.params()
          for k, x in zip(pos + ko, d['args']):
            if self.params(g).get(k):
              self.expect('argument', f'{nm}: {k} of {g.name}', self.params(g)[k], r.it.closed(x), fr, e.where)
        elif isinstance(d.get('fn'), T.Term) and d['fn'].op in ('attr', 'param', 'item', 'init') or (isinstance(d.get('fn'), T.Term) and r.it.cls_of(d['fn']) is not None):
          self.virtual(nm, '__call__', e, r, fr, recv=d['fn'])
      elif e.kind == 'new' and d.get('fields'):
        c = d['cls']
        for k, v in d['fields'].items():
          if isinstance(v, T.Term):
            self.expect('field', f'{nm}: {c.name}.{k}', self.declared(fr, c, k), r.it.closed(v), fr, e.where)
      elif e.kind == 'setattr':
        b = d['base']
        self.expect('field', f'{nm}: {d["attr"]}', fr.field(b, d['attr']), r.it.closed(d['value']), fr, e.where)
      elif e.kind == 'leave' and not isinstance(d['callee'].node, ast.Lambda):
        self.returned(d['callee'], r.it.closed(d['value']), nm, fr, e.where, r.it)
    done = set()
    for t, w in terms_of(r):
      for x in T.subterms(t, done):
        if x.op in ('poly', 'eq', 'call', 'store'):
          fr(x)
          if x in fr.mixed:
            a, b = fr.mixed[x]
            key = ('arithmetic', w, x)
            if key not in self.seen:
              self.seen[key] = False
              A.ob('same-frame', f'{nm}: {T.show(x, 3)[:100]}', False, f'puts together {show(a)} (material frame) and {show(b)} (microscope frame)', w)
          elif x.op == 'poly' and fr(x) and sum(1 for c, m in T.poly_terms(x) if any(fr(b) for b, _ in m)) > 1:
            key = ('arithmetic', w, x)
            if key not in self.seen:
              self.seen[key] = True
              self.n = getattr(self, 'n', 0) + 1
              if self.n <= 400:
                A.ob('same-frame', f'{nm}: {T.show(x, 3)[:100]}', True, f'all in the {fr(x)} frame', w)

  def declared(self, fr, c, name):
    while c is not None:
      if (c.qual, name) in FR.KNOWN_FIELDS:
        return FR.KNOWN_FIELDS[(c.qual, name)]
      for n in c.node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
          return FR.ann_frame(self.A.prog, c.mod, n.annotation)
      c = next((self.A.prog.classes[b] for b in c.bases if b in self.A.prog.classes), None)
    return FR.named(name)

  def virtual(self, nm, name, e, r, fr, recv=None):
    """Calls whose target is not known: every method of that name of the receiver's class (or of the program) declares the same frames."""
    c = r.it.cls_of(recv if recv is not None else e.d['recv'])
    ms = self.methods(name)
    if c is not None:
      m = self.A.prog.lookup(c, name)
      ms = [m] if m is not None else []
    elif recv is not None:
      ms = []
    if not ms:
      return
    ds = [self.params(m) for m in ms]
    args = list(e.d['args'])
    for i, x in enumerate(args):
      want = set()
      for m, q in zip(ms, ds):
        pos = [p for p in m.params()[0] if p not in ('self', 'cls')]
        want.add(q.get(pos[i]) if i < len(pos) else None)
      if len(want) == 1:
        self.expect('argument', f'{nm}: {name}', want.pop(), r.it.closed(x), fr, e.where)
    for k, x in (e.d.get('kwargs') or {}).items():
      want = {q.get(k) for q in ds}
      if len(want) == 1:
        self.expect('argument', f'{nm}: {k} of {name}', want.pop(), r.it.closed(x), fr, e.where)

  def returned(self, f, v, nm, fr, where, it):
    ann = f.node.returns
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
      ann = ast.parse(ann.value, mode='eval').body
    name = f.qual.replace(PKG + '.', '')

    def each(t, want, what):
      if t.op == 'phi':
        each(t.args[1], want, what)
        each(t.args[2], want, what)
      elif want:
        self.expect('returned', what, want, t, fr, f.where)

    def walk(t):
      if t.op == 'phi':
        walk(t.args[1])
        walk(t.args[2])
      elif t.op == 'tuple' and len(t.args) == len(ann.slice.elts):
        for i, (x, a) in enumerate(zip(t.args, ann.slice.elts)):
          each(x, FR.ann_frame(self.A.prog, f.mod, a), f'{name}: element {i}')
    if FR.elementwise(ann):
      walk(v)
    else:
      each(v, FR.ann_frame(self.A.prog, f.mod, ann), name)


class TooLong(Exception):
  pass


def too_long(*_):
  raise TooLong


def check(A):
  signal.signal(signal.SIGALRM, too_long)
  k = Check(A)
  fs = [(f, None) for f in A.prog.funcs.values()] + [(m, c) for c in A.prog.classes.values() for m in c.methods.values()]
  for f, c in sorted(fs, key=lambda x: (x[0].mod.name, x[0].node.lineno)):
    nm = (f'{c.qual}.{f.name}' if c is not None else f.qual).replace(PKG + '.', '')
    if not f.mod.name.startswith(PKG + '.') or f.is_abstract or f.mod.name.endswith('test_utils') or nm in SKIP or not relevant(f):
      continue
    try:
      signal.alarm(40)
      k.run(f, c)
    except (RecursionError, TooLong) as e:
      A.ob('frames', nm, None, f'not analysed: {type(e).__name__}', f.where)
    finally:
      signal.alarm(0)


WORDS = {'grid', 'fov', 'position', 'atom_positions', 'controls', 'drift', 'jitter', 'goal', 'lower_left', 'upper_right', 'Point', 'BeamControl', 'AtomicGrid', 'observation', 'previous_observation'}


def relevant(f):
  """Whether a function handles coordinates at all."""
  for n in ast.walk(f.node):
    w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, ast.arg) else None
    if w is not None and (w in WORDS or w.endswith('_frame') or w.endswith('Frame') or 'position' in w or 'grid' in w or 'fov' in w):
      return True
  return False
