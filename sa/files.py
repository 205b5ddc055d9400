"""What a program leaves on disk and what another reads back: paths in normal form, contents as value graphs, codecs and their inverses."""
import re

from . import absint, terms as T
from .terms import mk, const

PATHS = {'etils.epath.Path', 'pathlib.Path', 'pathlib.PurePath', 'os.fspath', 'os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.path.expanduser',
         'etils.epath.resource_path_', 'etils.epath.PathLike'}
PATH_METHODS = {'as_posix', '__fspath__', 'resolve', 'expanduser', 'absolute', '__str__'}
OPEN = {'open', 'io.open', 'tensorflow.io.gfile.GFile', 'tensorflow.io.gfile.open', 'gzip.open', 'bz2.open'}
ENCODE = {'msgpack_numpy.packb': 'msgpack_numpy', 'msgpack_numpy.dumps': 'msgpack_numpy', 'msgpack.packb': 'msgpack', 'msgpack.dumps': 'msgpack',
          'json.dumps': 'json', 'pickle.dumps': 'pickle', 'flax.serialization.to_bytes': 'flax', 'flax.serialization.msgpack_serialize': 'flaxraw',
          'dill.dumps': 'pickle', 'cloudpickle.dumps': 'pickle', 'zlib.compress': 'zlib', 'gzip.compress': 'gzip', 'base64.b64encode': 'b64'}
DECODE = {'msgpack_numpy.unpackb': 'msgpack_numpy', 'msgpack_numpy.loads': 'msgpack_numpy', 'msgpack.unpackb': 'msgpack', 'msgpack.loads': 'msgpack',
          'json.loads': 'json', 'pickle.loads': 'pickle', 'flax.serialization.from_bytes': 'flax', 'flax.serialization.msgpack_restore': 'flaxraw',
          'zlib.decompress': 'zlib', 'gzip.decompress': 'gzip', 'base64.b64decode': 'b64'}
DUMP = {'json.dump': 'json', 'pickle.dump': 'pickle', 'msgpack_numpy.pack': 'msgpack_numpy', 'msgpack_numpy.dump': 'msgpack_numpy', 'msgpack.pack': 'msgpack', 'msgpack.dump': 'msgpack'}
LOAD = {'json.load': 'json', 'pickle.load': 'pickle', 'msgpack_numpy.unpack': 'msgpack_numpy', 'msgpack_numpy.load': 'msgpack_numpy', 'msgpack.unpack': 'msgpack', 'msgpack.load': 'msgpack'}
MOVE = {'os.replace', 'os.rename', 'shutil.move', 'tensorflow.io.gfile.rename', 'tensorflow.io.gfile.copy', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2'}
REMOVE = {'os.remove', 'os.unlink', 'shutil.rmtree', 'tensorflow.io.gfile.remove', 'tensorflow.io.gfile.rmtree'}
SAVED_MODEL = const('<saved model>')
CONFIG = {'ml_collections.config_dict.ConfigDict', 'ml_collections.config_dict.FrozenConfigDict', 'ml_collections.ConfigDict', 'ml_collections.FrozenConfigDict'}
PATH_OPS = {'param', 'const', 'pathjoin', 'strcat', 'fmt', 'conv', 'attr'}


def gname(t):
  return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'glob' else None


def args_of(t):
  """Positional then keyword argument values of a call."""
  return list(t.args[1]) + [v for _, v in t.args[2]]


def norm(t, dirs=()):
  """Paths in normal form: joins flattened, path objects and their strings alike, the directory parameter called DIR; attribute versions dropped."""
  def f(x):
    if x.op == 'param' and x.args[0] in dirs:
      return mk('param', 'DIR')
    if x.op == 'attr' and len(x.args) > 2:
      return mk('attr', *x.args[:2])
    if x.op == 'at':
      return x.args[0]
    g = gname(x)
    if g in PATHS or g == 'os.path.join':
      a = list(x.args[1])
      if len(a) == 1:
        return a[0]
      if a:
        out = []
        for q in a:
          out += list(q.args) if q.op == 'pathjoin' else [q]
        return mk('pathjoin', *out)
    if g == 'str' and len(x.args[1]) == 1 and (x.args[1][0].op == 'pathjoin' or x.args[1][0] is mk('param', 'DIR')):
      return x.args[1][0]
    if x.op == 'mcall':
      if x.args[0] in PATH_METHODS and not x.args[2]:
        return x.args[1]
      if x.args[0] == 'joinpath':
        out = list(x.args[1].args) if x.args[1].op == 'pathjoin' else [x.args[1]]
        for q in x.args[2]:
          out += list(q.args) if q.op == 'pathjoin' else [q]
        return mk('pathjoin', *out)
    if x.op in ('strformat', 'strmod') and (y := template(x)) is not None:
      return y
    if x.op == 'pathjoin' and any(q.op == 'pathjoin' for q in x.args):
      out = []
      for q in x.args:
        out += list(q.args) if q.op == 'pathjoin' else [q]
      return mk('pathjoin', *out)
    if x.op == 'strcat' and any(gname(q) == 'str' for q in x.args):
      return absint.strcat([q.args[1][0] if gname(q) == 'str' and len(q.args[1]) == 1 else q for q in x.args])
    if x.op == 'strcat' and x.args[0] is mk('param', 'DIR') and len(x.args) > 1 and x.args[1].op == 'const' and str(x.args[1].args[0]).startswith('/'):
      rest = absint.strcat([const(x.args[1].args[0][1:])] + list(x.args[2:]))
      return mk('pathjoin', x.args[0], rest)
    return None
  for _ in range(4):
    n = T.rewrite(t, f)
    if n is t:
      break
    t = n
  return t


def template(x):
  """'{}.ckpt'.format(step) and '%s.ckpt' % step as concatenations; None for anything with field names or format specs."""
  f = x.args[0]
  if f.op != 'const' or not isinstance(f.args[0], str):
    return None
  if x.op == 'strformat':
    if x.args[2] or re.search(r'\{[^}]|\}\}', f.args[0]):
      return None
    parts, vals = f.args[0].split('{}'), list(x.args[1])
  else:
    if re.search(r'%[^sd]', f.args[0]):
      return None
    parts = re.split('%[sd]', f.args[0])
    vals = list(x.args[1].args) if x.args[1].op == 'tuple' else [x.args[1]]
  if len(parts) != len(vals) + 1:
    return None
  out = [const(parts[0])]
  for v, q in zip(vals, parts[1:]):
    out += [v, const(q)]
  return absint.strcat(out)


def comparable(p):
  """Whether a path is built only of parts this analysis understands."""
  return all(x.op in PATH_OPS or gname(x) == 'str' for x in T.subterms(p) if isinstance(x, T.Term) and x.op != 'glob')


def opened(t):
  """(path, mode) of an opened file."""
  if t.op == 'entered':
    t = t.args[0]
  if t.op == 'mcall' and t.args[0] == 'open':
    a, kw = list(t.args[2]), dict(t.args[3])
    m = a[0] if a else kw.get('mode', const('r'))
    return t.args[1], m
  if gname(t) in OPEN:
    a, kw = list(t.args[1]), dict(t.args[2])
    m = a[1] if len(a) > 1 else kw.get('mode', const('r'))
    return a[0] if a else kw.get('file', mk('unknown')), m
  return None


class File:
  def __init__(self, content, guard, where, appended=False):
    self.content, self.guard, self.where, self.appended, self.pieces = content, guard, where, appended, 1


def written(run, dirs):
  """path -> File, in the end, and the list of operations that are not understood."""
  out, odd = {}, []

  def put(path, content, e, mode=None):
    path = norm(run.it.closed(path), dirs)
    content = run.it.closed(content)
    g = e.guard()
    old = out.get(path)
    same_handle = old is not None and mode is not None and getattr(old, 'handle', None) is mode
    if old is not None and same_handle:
      old.pieces += 1
      old.content = mk('concat', old.content, content)
      return
    if old is not None and old.guard is not T.TRUE:
      if g is T.TRUE:
        f = File(content, g, e.where)
      else:
        f = File(T.phi(g, content, old.content), T.or_(g, old.guard), e.where)
    else:
      f = File(content, g, e.where) if g is T.TRUE or old is None else File(T.phi(g, content, old.content), T.TRUE, e.where)
    f.handle = mode
    if old is not None and old.guard is T.TRUE:
      f.guard = T.TRUE
    out[path] = f

  for e in run.events:
    if e.kind != 'call':
      continue
    n, r = e.d.get('name'), e.d.get('recv')
    g = e.fn.args[0] if isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' else None
    a = list(e.args)
    kw = e.d.get('kwargs') or {}
    if r is not None:
      rc = run.it.closed(r)
      if n in ('write_bytes', 'write_text') and (a or kw):
        put(rc, a[0] if a else next(iter(kw.values())), e)
      elif n == 'write' and a:
        o = opened(strip_at(rc))
        if o is None:
          odd.append(e)
          continue
        put(o[0], a[0], e, strip_at(rc))
        if o[1].op == 'const' and 'a' in str(o[1].args[0]):
          out[norm(o[0], dirs)].appended = True
      elif n in ('rename', 'replace', 'copy') and a and absint.is_path(norm(rc, dirs)) or n in ('rename',) and a:
        src = norm(rc, dirs)
        if src in out:
          out[norm(run.it.closed(a[0]), dirs)] = out[src]
          if n != 'copy':
            del out[src]
      elif n in ('unlink', 'rmtree') and norm(rc, dirs) in out:
        del out[norm(rc, dirs)]
    elif g is not None:
      if g in DUMP and (len(a) > 1 or 'fp' in kw or 'file' in kw):
        h = strip_at(run.it.closed(a[1] if len(a) > 1 else kw.get('fp', kw.get('file'))))
        o = opened(h)
        if o is None:
          odd.append(e)
        else:
          put(o[0], mk('call', mk('glob', [k for k, v in ENCODE.items() if v == DUMP[g]][0]), (a[0],), (), None), e, h)
      elif g in ('tensorflow.saved_model.save',) and (a or kw):
        d = a[1] if len(a) > 1 else kw.get('export_dir')
        o = a[0] if a else kw.get('obj')
        if d is not None and o is not None:
          put(mk('pathjoin', norm(run.it.closed(d), dirs), SAVED_MODEL), o, e)
      elif g in MOVE and len(a) == 2:
        src, dst = norm(run.it.closed(a[0]), dirs), norm(run.it.closed(a[1]), dirs)
        if src in out:
          out[dst] = out[src]
          if 'copy' not in g:
            del out[src]
      elif g in REMOVE and a:
        out.pop(norm(run.it.closed(a[0]), dirs), None)
      elif g in ('numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'joblib.dump', 'torch.save'):
        odd.append(e)
  return out, odd


def strip_at(t):
  return t.args[0] if t.op == 'at' else t


def reads(t, dirs):
  """Replaces what is read from a file by content(path)."""
  def f(x):
    if x.op == 'mcall' and x.args[0] in ('read_bytes', 'read_text'):
      return mk('content', norm(x.args[1], dirs))
    if x.op == 'mcall' and x.args[0] == 'read' and not x.args[2]:
      o = opened(strip_at(x.args[1]))
      if o is not None:
        return mk('content', norm(o[0], dirs))
    g = gname(x)
    if g in LOAD and x.args[1]:
      o = opened(strip_at(x.args[1][0]))
      if o is not None:
        return mk('call', mk('glob', [k for k, v in DECODE.items() if v == LOAD[g]][0]), (mk('content', norm(o[0], dirs)),), (), None)
    if g == 'tensorflow.saved_model.load' and (x.args[1] or x.args[2]):
      return mk('content', mk('pathjoin', norm(args_of(x)[0], dirs), SAVED_MODEL))
    return None
  return norm(T.rewrite(t, f), dirs)


def items(t):
  """The parts of a tuple, list or dictionary, by key."""
  if t.op in ('tuple', 'list'):
    return {const(i): v for i, v in enumerate(t.args)}
  if t.op == 'dict':
    return dict(t.args)
  if t.op == 'init':
    return items(t.args[0])
  if t.op in ('popd', 'deleted'):
    d, k = items(t.args[0]), t.args[1][0] if t.op == 'popd' and t.args[1] else t.args[1]
    if d is not None and isinstance(k, T.Term) and T.is_const(k):
      return {a: b for a, b in d.items() if a is not k}
  return None


def restore(t, files):
  """Read values with the written contents in place: decoding undoes encoding, items are taken out of what was packed."""
  def f(x):
    if x.op == 'content':
      w = files.get(x.args[0])
      return norm(w.content) if w is not None else None
    g = gname(x)
    if g in DECODE:
      fam, a = DECODE[g], list(x.args[1])
      d = a[1] if fam == 'flax' and len(a) > 1 else a[0] if a else None
      kw = dict(x.args[2])
      if fam == 'flax' and d is None:
        d = kw.get('encoded_bytes')
      if d is None:
        return None
      v = encoded(d, fam)
      if v is None:
        return None
      if fam == 'flax':
        target = a[0] if a else kw.get('target')
        if target is T.NONE:
          return mk('statedict', v)
        p, q = items(norm(target)), items(v)
        if norm(target) is v:
          return v
        if p is not None and q is not None:
          return mk('misplaced', target, v)
        return mk('restored', target, v)
      return v
    if g in CONFIG and len(x.args[1]) == 1 and not x.args[2] and (x.args[1][0].op in ('attr', 'param') or gname(x.args[1][0]) in CONFIG):
      return x.args[1][0]
    if g in ('numpy.asarray', 'numpy.array') and len(x.args[1]) == 1 and not x.args[2]:
      a = x.args[1][0]
      if a.op == 'mcall' and a.args[0] == 'tolist':
        return a.args[1]
      if a.op == 'attr':
        return a
    if g == 'float' and len(x.args[1]) == 1 and x.args[1][0].op == 'attr':
      return x.args[1][0]
    if x.op == 'item':
      b, i = x.args
      while b.op in ('seqcopy',) or gname(b) in ('tuple', 'list', 'dict') and len(b.args[1]) == 1 and not b.args[2]:
        b = b.args[0] if b.op == 'seqcopy' else b.args[1][0]
      d = items(b)
      if d is not None and i in d:
        return d[i]
      if d is not None and T.is_const(i):
        return mk('missing-entry', i)
    if x.op == 'popped' and x.args[1]:
      d = items(x.args[0])
      if d is not None and T.is_const(x.args[1][0]):
        return d.get(x.args[1][0]) or mk('missing-entry', x.args[1][0])
    if x.op == 'mcall' and x.args[0] in ('get', 'pop') and x.args[2]:
      d = items(x.args[1])
      if d is not None:
        return d.get(x.args[2][0]) or mk('missing-entry', x.args[2][0])
    if x.op == 'mcall' and x.args[0] == 'decode' and x.args[1].op == 'mcall' and x.args[1].args[0] == 'encode':
      return x.args[1].args[1]
    return None
  for _ in range(6):
    n = T.rewrite(t, f)
    if n is t:
      break
    t = n
  return t


def encoded(d, fam):
  """The value a byte string encodes in the given codec family."""
  g = gname(d)
  if g in ENCODE and ENCODE[g] == fam and d.args[1]:
    return d.args[1][0]
  if fam == 'json' and d.op == 'mcall' and d.args[0] in ('to_json_best_effort', 'to_json'):
    return d.args[1]
  if d.op == 'mcall' and d.args[0] in ('encode', 'decode'):
    return encoded(d.args[1], fam)
  return None
