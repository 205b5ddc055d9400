"""Typestate of every cached model: the path whose existence makes a loader skip the fetch may only come into being by an atomic move or a
marker, after the last operation of the fetch that can fail. Paths are compared in normal form; every path through each loader is walked."""
import ast

from .. import files as F, terms as T
from ..prog import PKG
from ..terms import mk

MIN_OBLIGATIONS = 3
TECHNIQUE = 'typestate analysis of file-system effects over the event trace of each loader, paths in normal form'
LOADERS = (('atom_detector.AtomDetector', 'from_url'), ('alignment.ImageAligner', 'from_path'), ('experiments.registry._TfAgentCreator', '__call__'))
ASSUMPTIONS = ['a rename within one file system is atomic, and an archive holds its model under the name the loader looks for']
TEST = {'exists', 'is_dir', 'is_file'}
TEST_FN = {'os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.path.lexists', 'tensorflow.io.gfile.exists', 'tensorflow.io.gfile.isdir'}
UNPACK = {'extractall', 'extract'}
COPY_FN = {'shutil.unpack_archive', 'shutil.copytree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'tensorflow.io.gfile.copy', 'distutils.dir_util.copy_tree'}
MOVE_FN = {'os.rename', 'os.replace', 'shutil.move', 'tensorflow.io.gfile.rename', 'os.renames'}
DOWNLOAD_FN = {'urllib.request.urlretrieve', 'wget.download'}
READ_FN = {'urllib.request.urlopen', 'requests.get', 'zipfile.ZipFile', 'tarfile.open', 'shutil.copyfileobj'}
FETCH_NAMES = {'extractall', 'extract', 'unpack_archive', 'urlretrieve', 'urlopen', 'copytree'}
DONE_NAMES = {'rename', 'replace', 'move', 'touch', 'write_text', 'write_bytes', 'renames'}
SCRATCH = {'tempfile.TemporaryDirectory', 'tempfile.mkdtemp', 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile', 'tempfile.gettempdir'}


def path(run, t):
  """A path in normal form: parents, names and siblings worked out."""
  t = F.norm(run.it.closed(t))

  def f(x):
    b = x.args[0] if x.op == 'attr' else None
    if b is not None and b.op == 'pathjoin':
      if x.args[1] == 'parent':
        return mk('pathjoin', *b.args[:-1]) if len(b.args) > 2 else b.args[0]
      if x.args[1] == 'name' and not (T.is_const(b.args[-1]) and '/' in str(b.args[-1].args[0])):
        return b.args[-1]
    g = F.gname(x)
    if g == 'os.path.dirname' and x.args[1] and x.args[1][0].op == 'pathjoin':
      return f(mk('attr', x.args[1][0], 'parent'))
    if g == 'os.path.basename' and x.args[1] and x.args[1][0].op == 'pathjoin':
      return f(mk('attr', x.args[1][0], 'name'))
    if x.op == 'mcall' and x.args[0] == 'with_name' and x.args[2] and x.args[1].op == 'pathjoin':
      return mk('pathjoin', *x.args[1].args[:-1], x.args[2][0])
    if x.op == 'pathjoin':
      out, cut = [], False
      for q in x.args:
        if q.op == 'const' and isinstance(q.args[0], str) and '/' in q.args[0].strip('/') and out:
          out += [T.const(z) for z in q.args[0].split('/') if z]
          cut = True
        elif q.op == 'pathjoin':
          out += q.args
          cut = True
        else:
          out.append(q)
      return mk('pathjoin', *out) if cut else None
    return None
  for _ in range(5):
    n = F.norm(T.rewrite(t, f))
    if n is t:
      break
    t = n
  return t


def parts(p):
  return list(p.args) if p.op == 'pathjoin' else [p]


def below(p, q):
  """Whether p is q or inside it."""
  a, b = parts(p), parts(q)
  return len(a) >= len(b) and all(x is y for x, y in zip(a, b))


class Op:
  def __init__(self, kind, at, guard, where, src=None, atomic=False, makes=False, text=''):
    self.kind, self.at, self.guard, self.where, self.src, self.atomic, self.makes, self.text = kind, at, guard, where, src, atomic, makes, text


def effects(run):
  """The file-system operations of a run, in order."""
  out, suppress = [], []
  for e in run.events:
    if e.kind == 'with_enter' and F.gname(e.d['value']) == 'contextlib.suppress':
      suppress.append(len(out))
    if e.kind == 'with_exit' and F.gname(e.d['value']) == 'contextlib.suppress' and suppress:
      k = suppress.pop()
      for o in out[k:]:
        o.swallowed = len(out)
    if e.kind != 'call':
      continue
    n, r = e.d.get('name'), e.d.get('recv')
    g = e.fn.args[0] if isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' else None
    a, kw = list(e.args), dict(e.d.get('kwargs') or {})
    P = lambda t: path(run, t)
    def arg(i, *names):
      for k in names:
        if k in kw:
          return kw[k]
      return a[i] if len(a) > i else None

    def put(kind, t, **k):
      o = Op(kind, P(t) if t is not None else None, e.guard(), e.where, text=n or g, **k)
      o.swallowed, o.event = None, e
      out.append(o)
    if r is not None:
      if n in TEST:
        put('test', r)
        out[-1].value = e.d['result']
      elif n == 'mkdir':
        put('mkdir', r, makes=T.is_const(kw.get('parents', T.FALSE)) and kw.get('parents', T.FALSE) is not T.FALSE)
      elif n in UNPACK:
        d = arg(0 if n == 'extractall' else 1, 'path')
        put('fill', d)
      elif n in ('rename', 'replace') and len(a) + len(kw) == 1 and not T.is_const(r):
        put('move', arg(0, 'target', 'dst'), src=P(r), atomic=True)
      elif n == 'copy' and (a or 'dst' in kw) and P(r).op == 'pathjoin':
        put('fill', arg(0, 'dst'))
      elif n == 'touch':
        put('mark', r)
      elif n in ('write_bytes', 'write_text'):
        c = run.it.closed(arg(0, 'data'))
        put('mark' if plain(c) else 'fill', r)
      elif n == 'write':
        o = F.opened(F.strip_at(run.it.closed(r)))
        if o is not None:
          put('mark' if a and plain(run.it.closed(a[0])) else 'fill', o[0])
      elif n == 'open' and a and T.is_const(a[0]) and any(c in str(a[0].args[0]) for c in 'wxa'):
        put('mark', r)
      elif n in ('unlink', 'rmtree', 'rmdir'):
        put('remove', r)
      elif n in ('read', 'read_bytes', 'iter_content'):
        put('read', None)
    elif g is not None:
      if g in TEST_FN:
        put('test', arg(0, 'path', 's'))
        out[-1].value = e.d['result']
      elif g in ('os.makedirs', 'os.mkdir', 'tensorflow.io.gfile.makedirs', 'tensorflow.io.gfile.mkdir'):
        put('mkdir', arg(0, 'name', 'path'), makes='makedirs' in g)
      elif g in DOWNLOAD_FN:
        put('fill', arg(1, 'filename', 'out'))
      elif g in COPY_FN:
        put('fill', arg(1, 'dst', 'extract_dir'))
      elif g in MOVE_FN:
        put('move', arg(1, 'dst'), src=P(arg(0, 'src')), atomic=g != 'shutil.move' or not elsewhere(P(arg(0, 'src'))))
      elif g in F.REMOVE:
        put('remove', arg(0, 'path'))
      elif g in F.OPEN:
        m = arg(1, 'mode')
        if m is not None and T.is_const(m) and any(c in str(m.args[0]) for c in 'wxa'):
          put('mark', arg(0, 'file'))
      elif g in READ_FN:
        put('read', None)
        if g == 'shutil.copyfileobj':
          o = F.opened(F.strip_at(run.it.closed(arg(1, 'fdst')))) if arg(1, 'fdst') is not None else None
          if o is not None:
            put('fill', o[0])
  return out


def plain(t):
  """Content that does not depend on what was fetched."""
  return not any(x.op in ('mcall', 'entered', 'unknown') or (F.gname(x) or '').startswith(('urllib', 'requests', 'zipfile')) for x in T.subterms(t))


def elsewhere(p):
  """A scratch path on what may be another file system."""
  for x in T.subterms(p):
    if F.gname(x) in SCRATCH and not x.args[1] and 'dir' not in dict(x.args[2]):
      return True
  return False


def fresh(p):
  """A path inside a scratch directory made by this very call."""
  return any(F.gname(x) in ('tempfile.TemporaryDirectory', 'tempfile.mkdtemp') for x in T.subterms(parts(p)[0]))


def under(guard, value, on):
  """A guard once the outcome of a test is known."""
  return T.rewrite(guard, lambda x: (T.TRUE if on else T.FALSE) if x is value else None)


def creates(o, g, marker):
  """How an operation brings path g into being: None, 'whole' (all at once) or 'piecemeal'."""
  if o.at is None:
    return None
  if o.kind == 'mkdir':
    return 'mark' if o.at is g or (o.makes and below(o.at, g)) else None
  if o.kind == 'move':
    return ('whole' if o.atomic else 'piecemeal') if below(g, o.at) else None
  if o.kind == 'mark':
    return 'mark' if o.at is g else None
  if o.kind == 'fill':
    if o.at is g or below(o.at, g):
      return 'piecemeal'
    return 'piecemeal' if below(g, o.at) and not marker else None
  return None


def loader(A, name, run):
  ops = effects(run)
  n = 0
  done = set()
  for t in [o for o in ops if o.kind == 'test']:
    g = t.at
    ruled = [o for o in ops if o.kind in ('fill', 'read', 'move') and any(x is t.value for x in T.subterms(o.guard))]
    if not any(o.kind in ('fill', 'read') for o in ruled) or fresh(g):
      continue
    if any(e.kind == 'raise' and under(e.guard(), t.value, True) is T.FALSE and e.guard() is not T.FALSE for e in run.events) and not any(o.kind in ('fill', 'read') and under(o.guard, t.value, True) is T.FALSE for o in ruled):
      continue                         # insists that something is there
    n += 1
    key = (T.show(g, 6), t.where)
    if key in done:
      continue
    done.add(key)
    label = f'{name}: {T.show(g, 6)[-120:]}'
    marker = any(o.kind == 'mark' and o.at is g for o in ops)
    found, problem, covers = False, None, False
    for on in (False, True):
      seq = [o for o in ops if under(o.guard, t.value, on) is not T.FALSE]
      for k, o in enumerate(seq):
        how = creates(o, g, marker)
        if how is None or (how == 'mark' and on):
          continue
        if ops.index(o) < ops.index(t) and not on and how != 'mark':
          continue
        found = found or not on
        if how == 'piecemeal':
          if not on or o in ruled:
            problem = problem or (o, f'{T.show(g, 6)} is filled in place by {o.text}: once an interrupted call has begun, later calls take it for a complete model')
          continue
        later = []
        for q in seq[k + 1:]:
          if q.kind == 'remove' and q.at is not None and below(g, q.at):
            break
          if q.kind in ('fill', 'read') and q.guard is not T.FALSE:
            later.append(q)
          elif how == 'mark' and q.kind == 'move' and q.at is not None and not marker and below(g, q.at) and q.guard is not T.FALSE:
            later.append(q)
        if later and not (on and how == 'mark'):
          problem = problem or (o, f'{T.show(g, 6)} exists from {o.text} on, before {later[0].text} at {later[0].where} has finished: an interruption leaves what later calls take for a complete model')
        sw = [q for q in seq[:k] if q.swallowed is not None and q.kind == 'fill' and ops.index(o) >= q.swallowed]
        if sw:
          problem = problem or (o, f'{o.text} is reached even when {sw[0].text} at {sw[0].where} fails')
      if not on:
        covers = any(o.kind in ('fill', 'read') for o in seq if o in ruled)
    if problem:
      A.ob('complete-before-present', label, False, problem[1], problem[0].where)
    elif not covers:
      A.ob('complete-before-present', label, False, 'nothing is fetched when it does not exist', t.where)
    else:
      A.ob('complete-before-present', label, True if found else None, 'moved into place, or marked, when the fetch is over' if found else 'what creates it is not known', t.where)
  if not n:
    fetch = [o for o in ops if o.kind in ('fill', 'read')]
    always = any(o.guard is T.TRUE for o in fetch)
    A.ob('complete-before-present', name, True if always else None, 'fetched on every call' if always else 'no existence test decides the fetch', run.where)
  return ops


def calls_in(nodes, names):
  for b in nodes:
    for c in ast.walk(b):
      if isinstance(c, ast.Call):
        n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
        if n in names:
          yield n, c


def reaches(A, f, nodes, names, depth=0):
  """Calls of the given names in some statements, also through functions of the package."""
  hit = list(calls_in(nodes, names))
  if hit or depth > 3:
    return hit
  for b in nodes:
    for c in ast.walk(b):
      if isinstance(c, ast.Call):
        n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
        for q in [z for z in A.prog.funcs.values() if z.mod is f.mod] + [m for k in A.prog.classes.values() if k.mod is f.mod for m in k.methods.values()]:
          if q.name == n and q is not f:
            hit = reaches(A, q, q.node.body, names, depth + 1)
            if hit:
              return hit
  return hit


def leaves(body):
  """Whether a handler never falls through to what follows the try statement."""
  last = body[-1]
  if isinstance(last, (ast.Raise, ast.Return, ast.Continue)):
    return True
  if isinstance(last, ast.If):
    return bool(last.orelse) and leaves(last.body) and leaves(last.orelse)
  if isinstance(last, ast.With):
    return leaves(last.body)
  if isinstance(last, ast.Expr) and isinstance(last.value, ast.Call):
    f = last.value.func
    return isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit', 'fatal')
  return False


def failures(A, f):
  """A failed fetch does not go on to put the model in place."""
  for t in ast.walk(f.node):
    if not isinstance(t, ast.Try):
      continue
    got = reaches(A, f, t.body, FETCH_NAMES)
    if not got:
      continue
    where = f'{f.mod.name}:{t.lineno} in {f.qual.replace(PKG + ".", "")}'
    fin = list(calls_in(t.finalbody, DONE_NAMES))
    A.ob('failure-is-not-completion', f'{f.qual.replace(PKG + ".", "")}: finally', not fin, f'{fin[0][0]} is called even when {got[0][0]} failed' if fin else '', where)
    unpack = [c for n, c in got if n in UNPACK | {'unpack_archive', 'copytree'}]
    for h in t.handlers:
      if leaves(h.body):
        A.ob('failure-is-not-completion', f'{f.qual.replace(PKG + ".", "")}: handler', True, 'the failure goes on to the caller', where)
        continue
      inside = list(calls_in(t.body, DONE_NAMES - {'touch'})) and not list(calls_in(h.body, DONE_NAMES))
      A.ob('failure-is-not-completion', f'{f.qual.replace(PKG + ".", "")}: handler', None if not unpack else True if inside else False,
           '' if inside else f'a failed {got[0][0]} is swallowed and the model is put in place all the same', where)


def check(A):
  entered = set()
  runs = []
  for cls, name in LOADERS:
    r = A.method(cls, name)
    runs.append((f'{cls}.{name}', r))
    entered |= {e.d['callee'].qual for e in r.events if e.kind == 'enter' and hasattr(e.d.get('callee'), 'qual')}
  rest = [(f, None) for f in A.prog.funcs.values()] + [(m, c) for c in A.prog.classes.values() for m in c.methods.values()]
  for f, c in sorted(rest, key=lambda x: (x[0].mod.name, x[0].node.lineno)):
    if f.mod.name.startswith(PKG + '.') and not f.mod.name.endswith('_test') and not f.is_abstract and f.qual not in entered and list(calls_in([f.node], FETCH_NAMES)):
      r = A.node(f)
      runs.append((f.qual.replace(PKG + '.', ''), r))
      entered |= {e.d['callee'].qual for e in r.events if e.kind == 'enter' and hasattr(e.d.get('callee'), 'qual')}
  seen = set()
  for name, r in runs:
    loader(A, name, r)
    for e in r.events:
      f = e.d.get('callee') if e.kind == 'enter' else None
      if f is not None and hasattr(f, 'node') and f.qual not in seen and f.qual.startswith(PKG):
        seen.add(f.qual)
        failures(A, f)
