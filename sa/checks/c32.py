"""Exporter, training program, data set and loader of a model are separate programs; each side's use of the archive, the signature, the
output numbering, the sizes, the classes and the metrics is extracted from its value graph and the two sides are compared."""
import ast

from .. import libnf, terms as T
from ..prog import PKG
from ..terms import mk
from .c36 import calls, is_glob, plain, reported_by, selection, split_not

MIN_OBLIGATIONS = 12
TECHNIQUE = 'interface comparison across programs: constants and value graphs of exporter, trainer, data set and loader are extracted and matched'
# exporter/trainer package, loader class, its steps of history
PAIRS = (('atom_detection', 'atom_detector.AtomDetector', 'from_url'), ('image_alignment', 'alignment.ImageAligner', 'from_path'))


def check(A):
  A.nf, A.vocab = libnf.nf, False
  for name, cls, make in PAIRS:
    ex = A.func(f'{name}.save_model.save')
    ld = A.method(cls, '__call__')
    signature(A, name, ex, cls, ld)
    archive(A, name, ex, cls, make)
    checkpoint(A, name, ex)
    model(A, name, ex)
    classes(A, name, cls, ld)


# ---------------------------------------------------------------- helpers

def evs(r, name):
  """Call events of a function or method of the given last name."""
  return [e for e in r.events if e.kind == 'call' and (e.d.get('name') == name or is_glob(e.d.get('fn'), name))]


def closed(r, v):
  return plain(r.it.closed(v))


def default(A, cls, field):
  """The constant a class gives a field, or None."""
  c = A.prog.classes.get(f'{PKG}.{cls}')
  if c is None:
    return None
  for n in c.node.body:
    t, v = (n.target, n.value) if isinstance(n, ast.AnnAssign) else (n.targets[0], n.value) if isinstance(n, ast.Assign) else (None, None)
    if isinstance(t, ast.Name) and t.id == field and v is not None:
      if isinstance(v, ast.Call):
        v = next((k.value for k in v.keywords if k.arg == 'default'), v)
      try:
        return ast.literal_eval(v)
      except ValueError:
        return None
  return None


def with_defaults(A, t, classes):
  """Attributes of a configuration or of self replaced by the constants their class gives them."""
  def const(v):
    return mk('tuple', *[T.const(x) for x in v]) if isinstance(v, tuple) else T.const(v)

  def f(x):
    if x.op == 'attr' and x.args[0].op == 'param' and x.args[0].args[0] in classes:
      d = default(A, classes[x.args[0].args[0]], x.args[1])
      return None if d is None or isinstance(d, (dict, set, list)) else const(d)
    return None
  return T.subst(t, f)


def dims(t):
  """A shape as a list of integers, or None where not known."""
  out = []
  if t.op not in ('tuple', 'list'):
    return None
  for x in t.args:
    if x.op == 'star':
      d = dims(x.args[0])
      if d is None:
        return None
      out += d
    else:
      out.append(T.cval(x) if T.is_num(x) else None)
  return out


# ---------------------------------------------------------------- signature

def serving(r):
  """[(event, key looked up, names of the inputs given)] of the calls of a loaded model."""
  out = []
  for e in r.events:
    fn = closed(r, e.d['fn']) if e.kind == 'call' and isinstance(e.d.get('fn'), T.Term) else None
    if fn is not None and fn.op == 'item' and fn.args[0].op == 'attr' and fn.args[0].args[1] == 'signatures' and fn.args[1].op == 'const':
      out.append((e, T.cval(fn.args[1]), e.d.get('kwargs') or {}))
  return out


def exported(A, name, r):
  """(tf.function terms made callable, keyword arguments of saved_model.save, event)."""
  out = []
  for e in r.events:
    if e.kind == 'call' and is_glob(e.d.get('fn'), 'saved_model.save') and e.d['args']:
      mod = closed(r, e.d['args'][0])
      fns = [closed(r, w.d['value']) for w in r.events if w.kind == 'setattr' and closed(r, w.d['base']) is mod]
      out.append((fns, {**({'signatures': e.d['args'][2]} if len(e.d['args']) > 2 else {}), **(e.d.get('kwargs') or {})}, e))
  return out


def signature(A, name, ex, cls, ld):
  use = serving(ld)
  saved = exported(A, name, ex)
  if len(use) != 1 or len(saved) != 1:
    A.ob('input', f'{name}: signature', None, f'{len(use)} uses of a loaded model, {len(saved)} models saved', ld.where)
    return
  (e, key, inputs), (fns, kw, se) = use[0], saved[0]
  fns = [f for f in fns if f.op == 'call' and is_glob(f.args[0], 'tensorflow.function')]
  keys = {'serving_default'}
  if 'signatures' in kw:
    s = closed(ex, kw['signatures'])
    keys = {T.cval(k) for k, _ in s.args} if s.op == 'dict' and all(k.op == 'const' for k, _ in s.args) else None if s.op == 'dict' else keys
  A.ob('signature', f'{name}: key', None if keys is None else key in keys, f'loader looks up {key!r}, saved with {sorted(keys) if keys else "not known"}', e.where)
  specs = [x for f in fns for x in T.subterms(mk('w', *[v for k, v in f.args[2] if k == 'input_signature'])) if x.op == 'call' and is_glob(x.args[0], 'TensorSpec')]
  if len(fns) != 1 or not specs:
    A.ob('input', f'{name}: signature', None, f'{len(fns)} functions exported', se.where)
    return
  have, shapes = [], []
  for x in specs:
    k = dict(x.args[2])
    n = k.get('name') or (x.args[1][2] if len(x.args[1]) > 2 else None)
    have.append(T.cval(n) if n is not None and n.op == 'const' else None)
    shapes.append(k.get('shape') or (x.args[1][0] if x.args[1] else None))
  A.ob('input', f'{name}: names', None if None in have else sorted(have) == sorted(inputs), f'the exported model takes {have}, the loader gives {sorted(inputs)}', e.where)
  shape(A, name, ex, cls, ld, shapes, inputs, e)
  outputs(A, name, ex, ld, fns[0], e)


def shape(A, name, ex, cls, ld, shapes, inputs, e):
  if len(shapes) != 1 or len(inputs) != 1 or shapes[0] is None:
    return
  want = dims(with_defaults(A, shapes[0], {'config': f'{name}.save_model.Config'}))
  got = closed(ld, next(iter(inputs.values())))
  sizes = set()
  for x in calls(got, 'image.resize'):
    a = x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get('size')
    if a is not None and dims(a) is not None:
      sizes.add(tuple(dims(a)))
  if want is None or len(want) != 3 or None in want or len(sizes) != 1 or None in next(iter(sizes)):
    A.ob('input', f'{name}: size', None, f'exported {want}, loader resizes to {sorted(sizes, key=str)}', e.where)
  else:
    A.ob('input', f'{name}: size', tuple(want[:2]) == next(iter(sizes)), f'exported for {want}, loader resizes to {sorted(sizes)}', e.where)
    known = lambda b: any(dims(x.args[1][1]) is not None for x in calls(b, 'image.resize') if len(x.args[1]) > 1)
    part = [x for x in T.subterms(got) if x.op == 'phi' and known(x.args[1]) != known(x.args[2])]
    for x in part:
      size = [y for y in T.subterms(x.args[0]) if y.op == 'attr' and y.args[1] == 'shape']
      eq = [y for y in T.subterms(x.args[0]) if y.op in ('eq', 'ne')]
      if size:
        A.ob('input', f'{name}: every image', False if not eq and T.contains(x.args[0], lambda y: y.op in ('lt0', 'le0')) else None, f'resized only depending on {T.show(x.args[0], 4)[:120]}', e.where)
  # images of the history are stacked
  hist = [x for x in ld.events if x.kind == 'call' and is_glob(x.d.get('fn'), 'collections.deque') and 'maxlen' in (x.d.get('kwargs') or {})]
  if hist and want is not None and len(want) == 3 and want[2] is not None:
    lens = {with_defaults(A, closed(ld, x.d['kwargs']['maxlen']), {'self': cls}) for x in hist}
    known = [T.cval(x) for x in lens if T.is_num(x)]
    A.ob('input', f'{name}: channels', None if len(known) < len(lens) else {n + 1 for n in known} == {want[2]}, f'exported for {want[2]} images, the loader keeps {known} and adds the new one', e.where)


def features(t):
  """Configuration sizes on which an output of the model depends through its last layer."""
  t = plain(t)
  seen = {x.args[1] for x in T.subterms(t) if x.op == 'attr' and x.args[0].op == 'param' and x.args[0].args[0] == 'self' and str(x.args[1]).endswith('output_size')}
  return seen


def outputs(A, name, ex, ld, fn, e):
  """Which output is which, and that they are raw logits."""
  f = fn.args[1][0] if fn.args[1] else None
  conv = calls(f, 'jax2tf.convert') if f is not None else []
  lam = conv[0].args[1][0] if conv and conv[0].args[1] else None
  if lam is not None and lam.op == 'lam':
    b = lam.args[2]
    direct = b.op == 'mcall' and b.args[0] in ('apply_fn', 'apply') or b.op == 'call' and b.args[0].op == 'attr'
    squash = [x for x in T.subterms(b) if x.op == 'call' and any(is_glob(x.args[0], n) for n in ('softmax', 'log_softmax', 'sigmoid', 'argmax'))]
    A.ob('output', f'{name}: raw outputs', True if direct else False if squash else None, f'exports {T.show(b, 2)[:160]}', e.where)
  m = A.prog.modules.get(f'{PKG}.{name}.model')
  nets = [c for c in A.prog.classes.values() if c.mod is m and '__call__' in c.methods]
  if len(nets) != 1:
    A.ob('output', f'{name}: outputs', None, f'{len(nets)} models', e.where)
    return
  r = A.node_of(nets[0], '__call__')
  t = r.result
  parts = list(t.args) if t.op == 'tuple' else [t]
  used = {}
  for x in all_terms(ld):
    if x.op == 'item' and x.args[1].op == 'const' and isinstance(T.cval(x.args[1]), str) and T.cval(x.args[1]).startswith('output_'):
      b = x.args[0]
      if b.op == 'call' and b.args[0].op == 'item' and b.args[0].args[0].op == 'attr' and b.args[0].args[0].args[1] == 'signatures':
        used.setdefault(T.cval(x.args[1]), x)
  have = {f'output_{i}' for i in range(len(parts))}
  A.ob('output', f'{name}: outputs looked up', bool(used) and set(used) <= have if used else None, f'the model returns {sorted(have)}, the loader reads {sorted(used)}', e.where)
  soft = [x for x in all_terms(ld) if x.op == 'call' and is_glob(x.args[0], 'softmax')]
  for i, p in enumerate(parts):
    x = used.get(f'output_{i}')
    if x is None or len(parts) < 2:
      continue
    size = features(p)
    w = widths(ld, x)
    which = {'local_output_size'} if any(T.contains_term(s, x) for s in soft) else {'global_output_size'}
    A.ob('output', f'{name}: output_{i}', size == which if len(size) == 1 else None, f'sized by {sorted(size)}, read as {"classes" if which == {"local_output_size"} else "drift"}', e.where)
    kw = model_kw(A, name, ex)
    if kw is not None and len(size) == 1 and next(iter(size)) in kw and len(w) == 1:
      n = next(iter(w))
      A.ob('output', f'{name}: width of output_{i}', multiple(kw[next(iter(size))], n), f'{T.show(kw[next(iter(size))], 4)} values read in groups of {n}', e.where)


ALL = {}


def all_terms(r):
  """Every value a function computes, once."""
  if id(r) not in ALL:
    seen, todo = {}, []
    for e in r.events:
      for v in list(e.d.get('args') or ()) + list((e.d.get('kwargs') or {}).values()) + [e.d.get('result'), e.d.get('recv')]:
        if isinstance(v, T.Term) and v not in seen:
          todo.append(closed(r, v))
    while todo:
      x = todo.pop()
      if x not in seen:
        seen[x] = True
        todo.extend(T.children(x))
    ALL[id(r)] = r, list(seen)
  return ALL[id(r)][1]


def widths(r, out):
  """Last dimensions to which an output is reshaped."""
  ws = set()
  for x in all_terms(r):
    shape = None
    if x.op == 'call' and is_glob(x.args[0], 'reshape') and len(x.args[1]) == 2 and core(x.args[1][0]) is out:
      shape = x.args[1][1]
    elif x.op == 'mcall' and x.args[0] == 'reshape' and core(x.args[1]) is out and x.args[2]:
      shape = x.args[2][0] if len(x.args[2]) == 1 else mk('tuple', *x.args[2])
    if shape is not None and shape.op in ('tuple', 'list') and shape.args and T.is_num(shape.args[-1]):
      ws.add(T.cval(shape.args[-1]))
  return ws


def core(t):
  while t.op == 'mcall' and t.args[0] in ('numpy',):
    t = t.args[1]
  return t


def multiple(t, n):
  """Whether a size is a multiple of n in every case."""
  if t.op == 'phi':
    a, b = multiple(t.args[1], n), multiple(t.args[2], n)
    return False if a is False or b is False else None if a is None or b is None else True
  if T.is_num(t):
    return T.cval(t) % n == 0
  if t.op == 'poly':
    return True if all(c % n == 0 for c, _ in T.poly_terms(t)) else False
  return None


# ---------------------------------------------------------------- model

def model_kw(A, name, r):
  """Sizes given to the model by a program."""
  m = A.prog.modules.get(f'{PKG}.{name}.model')
  for e in r.events:
    if e.kind == 'new' and e.d['cls'].mod is m:
      return {k: closed(r, v) for k, v in (e.d.get('kwargs') or {}).items()}
  return None


def model(A, name, ex):
  """The exporter rebuilds the model that was trained."""
  tr = A.func(f'{name}.train.train')
  a, b = model_kw(A, name, tr), model_kw(A, name, ex)
  if a is None or b is None:
    A.ob('model', f'{name}: model', None, 'not found', ex.where)
    return
  A.ob('model', f'{name}: options', set(a) == set(b), f'trained with {sorted(a)}, exported with {sorted(b)}', ex.where)
  for k in sorted(set(a) & set(b)):
    p, q = rename(A, name, a[k], b[k])
    A.same('model', f'{name}: {k}', q, p, ex.where)


def rename(A, name, p, q):
  """The number of images is measured on the data in training and configured in the exporter."""
  n = mk('param', 'sequence length')

  def f(x):
    if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape':
      return n
    if x.op == 'attr' and x.args[1] == 'sequence_length':
      return n
    if x.op == 'attr' and x.args[0].op == 'param' and x.args[0].args[0] == 'config':
      return mk('attr', mk('param', 'config'), x.args[1])
    return None
  return T.subst(p, f), T.subst(q, f)


# ---------------------------------------------------------------- checkpoint

def checkpoint(A, name, ex):
  selection(A, ex, ex.events, f'{name}: exporter', reported_by(A, name))
  got = [e for e in evs(ex, 'restore') if e.d.get('args')]
  for e in got:
    t = closed(ex, e.d['args'][0])
    ways = [x for x in split_not(t)]
    best = [x.op == 'mcall' and x.args[0] == 'best_step' for x in ways]
    other = [x.op == 'mcall' and x.args[0] == 'latest_step' or T.is_num(x) for x in ways]
    when = [x.args[0] for x in T.subterms(t) if x.op == 'phi']
    A.ob('best-checkpoint', f'{name}: exporter restores the best', True if all(best) else False if any(other) and not any(T.contains(c, lambda y: y.op == 'mcall' and y.args[0] == 'best_step') for c in when) else None,
         T.show(t, 2)[:120], e.where)


# ---------------------------------------------------------------- archive

def last_name(t):
  """The last component of a path, when constant."""
  t = plain(t)
  while t.op == 'call' and len(t.args[1]) == 1 and (is_glob(t.args[0], 'Path') or is_glob(t.args[0], 'fspath') or is_glob(t.args[0], 'str')):
    t = t.args[1][0]
  if t.op == 'pathjoin' or t.op == 'call' and is_glob(t.args[0], 'os.path.join'):
    xs = t.args if t.op == 'pathjoin' else t.args[1]
    return last_name(xs[-1]), mk('pathjoin', *xs[:-1]) if len(xs) > 2 else xs[0]
  if t.op == 'const' and isinstance(T.cval(t), str):
    s = T.cval(t).rstrip('/')
    return s.rsplit('/', 1)[-1], None
  return None, None


def leafname(t):
  n, _ = last_name(t)
  while isinstance(n, tuple):
    n = n[0]
  return n


def base_of(t):
  n, b = last_name(t)
  return b


def bare(t):
  """A path without its wrappers."""
  t = plain(t)
  while t.op == 'call' and len(t.args[1]) == 1 and (is_glob(t.args[0], 'Path') or is_glob(t.args[0], 'fspath') or is_glob(t.args[0], 'str') or is_glob(t.args[0], 'abspath')):
    t = t.args[1][0]
  return t


def stored(t, root, parent):
  """Where a file is stored: 'under' (as <root name>/…), 'inside' (without the root's name), 'absolute', or None."""
  t = plain(t)
  if t.op == 'call' and is_glob(t.args[0], 'os.path.join') and t.args[1]:
    return stored(t.args[1][0], root, parent)
  if t.op == 'call' and is_glob(t.args[0], 'relpath') and len(t.args[1]) == 2 and origin(t.args[1][0], root):
    b = bare(t.args[1][1])
    return 'under' if b is bare(parent) else 'inside' if b is bare(root) else None
  if t.op == 'mcall' and t.args[0] in ('replace', 'removeprefix') and t.args[2] and origin(t.args[1], root):
    p = t.args[2][0]
    if p.op == 'strcat':
      return 'under' if bare(p.args[0]) is bare(parent) and len(p.args) == 2 and T.cval(p.args[1]) == '/' else 'inside' if p.args[0] is bare(root) else None
    return None
  if t.op == 'mcall' and t.args[0] == 'relative_to' and t.args[2] and origin(t.args[1], root):
    b = bare(t.args[2][0])
    return 'under' if b is bare(parent) else 'inside' if b is bare(root) else None
  if origin(t, root):
    return 'absolute'
  return None


def origin(t, root):
  """A directory or file met while walking over the saved model, as it is met."""
  t = bare(t)
  if t is bare(root):
    return True
  if t.op == 'call' and is_glob(t.args[0], 'os.path.join'):
    return origin(t.args[1][0], root)
  if t.op == 'pathjoin':
    return origin(t.args[0], root)
  if t.op == 'item' and t.args[0].op == 'item':
    w = t.args[0].args[0]
    return T.is_num(t.args[1]) and T.cval(t.args[1]) == 0 and w.op == 'call' and is_glob(w.args[0], 'os.walk') and bare(w.args[1][0]) is bare(root)
  if t.op == 'item' and t.args[0].op == 'mcall' and t.args[0].args[0] in ('rglob', 'glob'):
    return bare(t.args[0].args[1]) is bare(root)
  return False


def archive(A, name, ex, cls, make):
  saved = [e for e in ex.events if e.kind == 'call' and is_glob(e.d.get('fn'), 'saved_model.save') and len(e.d['args']) > 1]
  if len(saved) != 1:
    A.ob('archive', f'{name}: model saved', None, f'{len(saved)} models saved', ex.where)
    return
  root = closed(ex, saved[0].d['args'][1])
  parent = base_of(root)
  ld = A.method(cls, make)
  place = {leafname(closed(ld, e.d['recv'])) for e in evs(ld, 'exists') if e.d.get('recv') is not None}
  want = {x for x in place if x}
  have = leafname(root)
  A.ob('archive', f'{name}: directory', {have} == want if have and want else None, f'saved as {have!r}, loaded from {sorted(want)}', saved[0].where)
  writes = [e for e in ex.events if e.kind == 'call' and e.d.get('name') == 'write' and e.d.get('recv') is not None and is_glob(strip_call(closed(ex, e.d['recv'])), 'ZipFile')]
  packs = evs(ex, 'make_archive')
  if not writes and not packs:
    A.ob('archive', f'{name}: names', None, 'no archive is written', ex.where)
  cwd = [i for i, e in enumerate(ex.events) if e.kind == 'call' and is_glob(e.d.get('fn'), 'os.chdir') and parent is not None and bare(closed(ex, e.d['args'][0])) is bare(parent)]
  for e in writes:
    a = [closed(ex, x) for x in e.d['args']]
    kw = {k: closed(ex, v) for k, v in (e.d.get('kwargs') or {}).items()}
    file = a[0] if a else kw.get('filename')
    arc = a[1] if len(a) > 1 else kw.get('arcname')
    if file is None or parent is None:
      A.ob('archive', f'{name}: names in the archive', None, 'path not known', e.where)
      continue
    skip(A, ex, name, e)
    as_ = stored(arc if arc is not None and arc is not T.NONE else file, root, parent)
    what = 'a directory' if not T.contains(file, lambda x: x.op == 'call' and is_glob(x.args[0], 'os.path.join')) else 'a file'
    A.ob('archive', f'{name}: name of {what} in the archive', None if as_ is None else as_ == 'under',
         {'under': 'relative to the directory of the model', 'inside': 'without the directory the loader looks for', 'absolute': 'with the temporary directory in front', None: T.show(arc or file, 4)[:160]}[as_], e.where)
    if arc is None and as_ == 'under':
      A.ob('archive', f'{name}: {what} is found', bool([i for i in cwd if i < ex.events.index(e)]), 'relative to the directory of the model, which is the current one' if cwd else 'the current directory is another one', e.where)
  for e in packs:
    kw = {k: closed(ex, v) for k, v in (e.d.get('kwargs') or {}).items()}
    a = [closed(ex, x) for x in e.d['args']]
    rd, bd = kw.get('root_dir') or (a[2] if len(a) > 2 else None), kw.get('base_dir') or (a[3] if len(a) > 3 else None)
    if rd is not None and parent is not None:
      under = bare(rd) is bare(parent) and (bd is None or leafname(bd) == have)
      A.ob('archive', f'{name}: names in the archive', True if under else False if bare(rd) is bare(root) else None, f'{T.show(rd, 3)[:120]}', e.where)


def skip(A, ex, name, e):
  """Every file of every directory is put into the archive."""
  g = closed(ex, e.guard())
  if g is not T.TRUE and T.contains(g, lambda x: x.op == 'ix') and not T.contains(g, lambda x: x.op in ('unknown', 'bottom', 'maybe')):
    test = T.contains(g, lambda x: x.op == 'mcall' and x.args[0] in ('startswith', 'endswith') or x.op in ('in', 'eq') and any(y.op == 'const' and isinstance(T.cval(y), str) for y in x.args))
    A.ob('archive', f'{name}: every file', False if test else None, f'only put into the archive when {T.show(g, 4)[:160]}', e.where)
  for c in e.ctx:
    if c[0] == 'loop' and isinstance(c[2], T.Term):
      d = closed(ex, c[2])
      cut = [x for x in T.subterms(d) if x.op == 'item' and x.args[1].op == 'slice' and calls(x.args[0], 'os.walk')]
      for x in cut:
        lo, hi, st = x.args[1].args
        A.ob('archive', f'{name}: every directory', True if (lo is T.NONE or lo is T.ZERO) and hi is T.NONE and (st is T.NONE or T.is_num(st) and abs(T.cval(st)) == 1) else False if T.is_num(lo) or T.is_num(hi) else None,
             f'{T.show(d, 4)[:160]}', e.where)


def strip_call(t):
  if t.op == 'entered':
    t = t.args[0]
  return t.args[0] if t.op == 'call' else t


# ---------------------------------------------------------------- classes

def classes(A, name, cls, ld):
  """The class numbers of the data set are those the loader reads."""
  c = A.prog.classes.get(f'{PKG}.{name}.dataset.RemapAndOneHotMask')
  if c is None:
    A.ob('classes', f'{name}: data set', None, 'the remapping of classes was not found', '')
    return
  r = A.node_of(c, 'map')
  num = {}
  for x in T.subterms(plain(r.result)):
    if x.op == 'call' and is_glob(x.args[0], 'where') and len(x.args[1]) == 3:
      k, v = x.args[1][0], x.args[1][1]
      sides = k.args if k.op == 'eq' else k.args[1] if k.op == 'call' and is_glob(k.args[0], 'equal') else ()
      z = [y for y in sides if T.is_num(y)]
      v = [y for y in T.subterms(v) if T.is_num(y)]
      if len(z) == 1 and len(v) == 1:
        num[T.cval(z[0])] = T.cval(v[0])
  # atoms of a number are counted by the places found in a class
  found = {}
  for x in all_terms(ld):
    if x.op in ('repeat', 'fill') and len(x.args) == 2:
      n, v = x.args
      v = v.args[0] if v.op in ('list', 'tuple') and len(v.args) == 1 else v
      if T.is_num(v) and T.cval(v) in num:
        found.setdefault(T.cval(v), set()).update(layers(n))
  if not num or not found:
    A.ob('classes', f'{name}: classes', None, f'data set {num}, loader {found}', ld.where)
    return
  for z in sorted(num):
    if z in found and found[z]:
      A.ob('classes', f'{name}: atomic number {z}', num[z] in found[z], f'class {num[z]} in the data set, read from {sorted(found[z])}', ld.where)
    else:
      A.ob('classes', f'{name}: atomic number {z}', None, f'class {num[z]} in the data set, the loader\'s is not known', ld.where)
  count(A, name, c, ld)


def count(A, name, c, ld):
  """The number of classes of the data set is that of the model."""
  mk_ds = A.prog.funcs.get(f'{PKG}.{name}.dataset.make_dataset')
  if mk_ds is None:
    return
  r = A.node(mk_ds)
  ns = {closed(r, e.d['fields']['num_classes']) for e in r.events if e.kind == 'new' and e.d['cls'] is c and 'num_classes' in (e.d.get('fields') or {})}
  have = default(A, f'{name}.model.UNet', 'num_classes')
  if have is None:
    use = serving(ld)
    ws = [widths(ld, x) for x in all_terms(ld) if x.op == 'item' and x.args[1] is T.const('output_0') and use]
    have = next((next(iter(w)) for w in ws if len(w) == 1), None)
  known = [T.cval(n) for n in ns if T.is_num(n)]
  A.ob('classes', f'{name}: number of classes', None if not known or have is None or len(known) < len(ns) else set(known) == {have}, f'{known} in the data set, {have} in the model', r.where)


def layers(t):
  """Class numbers by which predictions are selected."""
  out = set()
  for x in T.subterms(t):
    if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) >= 2 and T.is_num(x.args[1].args[-1]) and any(y.op == 'call' and is_glob(y.args[0], 'softmax') for y in T.subterms(x.args[0])):
      out.add(T.cval(x.args[1].args[-1]))
    if x.op in ('eq', 'ne') and any(T.is_num(y) for y in x.args) and any(y.op == 'call' and is_glob(y.args[0], 'argmax') for y in T.subterms(x)):
      out |= {T.cval(y) for y in x.args if T.is_num(y)}
  return out
