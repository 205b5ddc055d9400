"""The files a saver leaves (paths, codecs and value graphs of their contents, every path through the saver) are put in place of what the
loader reads; each field the loader sets must then be the very field the saver wrote. Methods that change a rate model's parameters must
drop or rebuild the model packaged from the old ones."""
from .. import files as F, libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 14
TECHNIQUE = 'composition of the value graphs of saver and loader through a model of the files between them'
GMM = 'graphene.GaussianMixtureRateFunction'
P = 'rate_learning.learn_rates.LearnedTransitionRatePredictor'
ME = mk('param', 'self')
STOP = lambda f: f.name in ('package_model', 'apply_model', 'predict')


def first(f):
  pos, ko, _ = f.params()
  return [p for p in pos if p not in ('self', 'cls')][:1]


def save_side(A, cls, name):
  r = A.method(cls, name, no_inline=STOP)
  w, odd = F.written(r, first(r.f))
  short = f'{cls.split(".")[-1]}.{name}'
  for p, f in sorted(w.items(), key=lambda x: T.show(x[0], 6)):
    ok = f.guard is T.TRUE
    A.ob('always-written', f'{short}: {T.show(p, 5)}', ok if ok or not F_unknown(f.guard) else None, '' if ok else f'only written when {T.show(f.guard, 5)[:300]}', f.where)
    A.ob('written-afresh', f'{short}: {T.show(p, 5)}', not f.appended, 'appended to what an earlier save left' if f.appended else 'replaces an earlier save', f.where)
  for e in odd:
    A.ob('always-written', short, None, f'written by {T.show(e.d["result"], 3)[:200]}', e.where)
  return r, w, odd, short


def F_unknown(t):
  return any(x.op in ('unknown', 'bottom', 'maybe') for x in T.subterms(t))


def paths_read(t):
  return {x.args[0] for x in T.subterms(t) if x.op == 'content'}


def fields_back(A, short, where, got, saved, files, odd):
  """got: field -> value graph as read. saved: fields whose values are in the files."""
  read = set()
  for a, (v, w) in sorted(got.items()):
    ps = paths_read(v)
    read |= ps
    lost = [p for p in ps if p not in files]
    for p in lost:
      A.ob('read-what-was-written', f'{short}: {a}', None if odd or not F.comparable(p) or not all(F.comparable(q) for q in files) else False,
           f'reads {T.show(p, 5)}, which is never written (written: {", ".join(T.show(q, 4) for q in files)})', w)
    if lost:
      continue
    v = F.restore(v, files)
    want = mk('attr', ME, a)
    if v is want:
      A.ob('field-restored', f'{short}: {a}', True, 'what was saved', w)
    elif any(x.op in ('misplaced', 'missing-entry', 'statedict') for x in T.subterms(v)):
      A.ob('field-restored', f'{short}: {a}', False, f'comes back as {T.show(v, 6)[:300]}', w)
    elif v.op == 'attr' and v.args[0] is ME:
      A.ob('field-restored', f'{short}: {a}', False, f'comes back as the saved {v.args[1]}', w)
    elif any(x.op in ('call', 'mcall') and F.gname(x) in F.DECODE for x in T.subterms(v)) and any(F.gname(x) in F.ENCODE for x in T.subterms(v)):
      fams = {F.ENCODE.get(F.gname(x)) or F.DECODE.get(F.gname(x)) for x in T.subterms(v)} - {None}
      A.ob('field-restored', f'{short}: {a}', False if len(fams) > 1 else None, f'comes back as {T.show(v, 6)[:300]}', w)
    else:
      A.ob('field-restored', f'{short}: {a}', lossy(v, want), f'comes back as {T.show(v, 6)[:300]}', w)
  return read


def lossy(v, want):
  """False when the value is the saved field put through something that changes it, None otherwise."""
  src = [x for x in T.subterms(v) if x.op == 'attr' and x.args[0] is ME]
  if not src:
    return None if any(x.op in ('content', 'unknown', 'phi') for x in T.subterms(v)) else False
  names = {x.args[0] for x in T.subterms(v) if x.op == 'mcall'} | {F.gname(x) for x in T.subterms(v) if x.op == 'call'}
  if v.op == 'poly' or names & {'round', 'numpy.round', 'numpy.around', 'int', 'numpy.float16', 'flatten', 'ravel', 'transpose', 'numpy.transpose', 'sum', 'numpy.sum', 'mean', 'tolist', 'numpy.int32', 'numpy.abs',
                                'sort', 'numpy.sort', 'reshape', 'numpy.reshape', 'numpy.flatten', 'numpy.ravel'}:
    return False
  if any(x.op == 'glob' and x.args[0] in ('numpy.float16', 'int', 'numpy.int32', 'jax.numpy.bfloat16', 'jax.numpy.float16') for x in T.subterms(v)):
    return False
  if v.op == 'attr' and v.args[0] is want and v.args[1] in ('T', 'real', 'imag', 'size', 'shape'):
    return False
  if len({x.args[1] for x in src}) and want not in src:
    return False
  return None


def leaves(files):
  """Fields of the saver's receiver found in the files."""
  out = {}
  for p, f in files.items():
    for x in T.subterms(F.norm(f.content)):
      if x.op == 'attr' and x.args[0] is ME:
        out.setdefault(x.args[1], []).append((p, f))
  return out


def entries(t):
  """Keys of every dictionary packed."""
  for x in T.subterms(t):
    if x.op == 'dict':
      for k, v in x.args:
        yield k, v


def check(A):
  A.nf, A.vocab = libnf.nf, True
  gmm(A)
  predictor(A)
  stale(A)


def gmm(A):
  r, files, odd, short = save_side(A, GMM, 'serialize_to_directory')
  l = A.method(GMM, 'deserialize_from_directory')
  ls = f'{GMM.split(".")[-1]}.deserialize_from_directory'
  out = l.result
  if out.op != 'new':
    A.ob('field-restored', ls, None, f'returns {T.show(out, 4)}', l.where)
    return
  got = {a: (F.reads(v, first(l.f)), l.where) for a, v in dict(out.args[1]).items()}
  read = fields_back(A, ls, l.where, got, None, files, odd)
  cover(A, short, ls, files, read, r, got)
  have = leaves(files)
  for a in A.prog.all_fields(A.prog.cls(GMM)):
    A.ob('field-saved', f'{short}: {a}', True if a in have else None if odd else False, f'in {T.show(have[a][0][0], 4)}' if a in have else 'in none of the files written', r.where)
    if a not in got:
      A.ob('field-restored', f'{ls}: {a}', False, 'left to its default', l.where)
  used = {x.args[1] for v, _ in got.values() for x in T.subterms(v) if x.op == 'item' and T.is_const(x.args[1])}
  used |= {x.args[2][0] for v, _ in got.values() for x in T.subterms(v) if x.op == 'mcall' and x.args[0] in ('get', 'pop') and x.args[2]}
  for p, f in files.items():
    for k, v in entries(f.content):
      if not T.is_const(v):
        A.ob('entry-used', f'{short}: {T.show(k, 3)}', k in used or not used, '' if k in used else 'saved but never read back', f.where)


def cover(A, short, ls, files, read, r, got):
  for p, f in sorted(files.items(), key=lambda x: T.show(x[0], 6)):
    A.ob('file-read', f'{short}: {T.show(p, 5)}', True if p in read else (None if any(not F.comparable(q) for q in read) else False),
         f'read by {ls}' if p in read else f'{ls} never reads it', f.where)


def predictor(A):
  r, files, odd, short = save_side(A, P, 'save')
  l = A.method(P, 'load', no_inline=STOP)
  ls = 'LearnedTransitionRatePredictor.load'
  got = {}
  for e in l.events:
    if e.kind == 'setattr' and e.base is ME:
      got[e.attr] = (F.reads(l.it.closed(e.value), first(l.f)), e.where)
      g = l.it.closed(e.guard())
      if e.attr in ('params', 'state', 'config') and T.contains(g, lambda x: x.op == 'attr' and root(x) is ME):
        A.ob('field-restored', f'{ls}: {e.attr}, always', False if optional(g) else None, f'only restored when {T.show(g, 4)[:160]}', e.where)
  read = fields_back(A, ls, l.where, got, None, files, odd)
  cover(A, short, ls, files, read, r, got)
  have = leaves(files)
  for a in ('params', 'state', 'packaged_model', 'config'):
    A.ob('field-saved', f'{short}: {a}', True if a in have else None if odd or a == 'packaged_model' else False, f'in {T.show(have[a][0][0], 4)}' if a in have else 'in none of the files written', r.where)
    if a not in got:
      A.ob('field-restored', f'{ls}: {a}', False if a in have else None, 'not set by the loader', l.where)
  # what is packaged is the present model, with the requested context
  sm = [e for e in r.events if e.kind == 'call' and isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' and e.fn.args[0] == 'tensorflow.saved_model.save']
  pk = [e for e in r.events if e.kind == 'call' and e.d.get('name') == 'package_model']
  if 'packaged_model' in have:
    ok = bool(pk) and bool(sm) and any(e.seq < sm[-1].seq and e.guard() is T.TRUE for e in pk)
    A.ob('packaged-anew', short, ok, 'packaged before it is saved' if ok else 'saves a model that may have been packaged from other parameters or for another context', (sm or pk or [r])[0].where)
    if pk:
      a = list(pk[-1].args) + list((pk[-1].d.get('kwargs') or {}).values())
      fc = mk('param', 'fixed_context')
      A.ob('packaged-context', short, any(x is fc for x in a) if not a or all(x.op in ('param', 'const') for x in a) else None, f'packaged with {[T.show(x, 3) for x in a]}', pk[-1].where)


def root(t):
  while t.op in ('attr', 'item', 'at', 'v'):
    t = t.args[0]
  return t


def cached(t):
  return any(x.op in ('attr', 'mcall') and x.args[1 if x.op == 'attr' else 0] == 'packaged_model' or x.op == 'const' and x.args[0] == 'packaged_model' for x in T.subterms(t))


def stale(A):
  c = A.prog.cls(P)
  pr = A.method(P, 'predict', no_inline=lambda f: f.name in ('package_model', 'standardize_beam_and_neighbors'))
  pk = [e for e in pr.events if e.kind == 'call' and e.d.get('name') == 'package_model']
  when = T.or_(*[e.guard() for e in pk]) if pk else None
  always = when is T.TRUE
  plain = when is not None and (always or cached(when))
  for n, m in sorted(c.methods.items()):
    if n.startswith('_') and n != '__init__' or n == 'predict':
      continue
    s = A.method(P, n, no_inline=STOP)
    sets = [e for e in s.events if e.kind == 'setattr' and e.base is ME and e.attr in ('params', 'state') and not e.d.get('aug')]
    if not sets or n == '__init__':
      continue
    last = sets[-1].seq
    builds = [e for e in s.events if e.kind == 'call' and e.d.get('name') in ('package_model', 'predict') and e.seq < last]
    since = max([e.seq for e in builds], default=-1)
    drops = [e for e in s.events if (e.seq > since if dropping(e) else e.seq > last and rebuilding(e))]
    g = T.or_(*[strip_has(e.guard()) for e in drops]) if drops else T.FALSE
    have = T.or_(T.not_(strip_has(sets[-1].guard())), g) is T.TRUE
    A.ob('packaged-model-current', f'LearnedTransitionRatePredictor.{n}', True if have or always else None if not plain or g is not T.FALSE and not optional(g) else False,
         'drops or rebuilds the packaged model' if have else 'changes the parameters but keeps the model packaged from the old ones, which predict goes on using', sets[-1].where)


def optional(g):
  """A condition on numbers and switches of the model or the call, which may well not hold."""
  return not T.contains(g, lambda x: x.op not in ('param', 'attr', 'v', 'const', 'poly', 'lt0', 'le0', 'lt', 'le', 'eq', 'ne', 'not', 'and') or cached(x)) and T.not_(g) is not T.FALSE


def dropping(e):
  """Leaves no packaged model behind."""
  pm = T.const('packaged_model')
  return (e.kind == 'delattr' and e.base is ME and e.attr == 'packaged_model'
          or e.kind == 'setattr' and e.base is ME and e.attr == 'packaged_model' and e.value is T.NONE
          or e.kind == 'call' and e.d.get('name') == 'pop' and bool(e.args) and e.args[0] is pm
          or e.kind == 'mutate' and bool(e.d.get('args')) and pm in e.d['args']
          or e.kind == 'call' and isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' and e.fn.args[0] in ('delattr', 'setattr') and pm in e.args)


def rebuilding(e):
  return e.kind == 'setattr' and e.base is ME and e.attr == 'packaged_model' or e.kind == 'call' and e.d.get('name') == 'package_model'


def strip_has(g):
  """The guard without the question whether there is a packaged model."""
  return T.rewrite(g, lambda x: T.TRUE if x.op in ('call', 'mcall', 'hasattr', 'not', 'eq') and cached(x) else None)
