"""What a training example consists of: the transformations of each dataset are composed, in the order in which they are listed, into one
function of the stored example, whose entries are compared with a reference model; the classes of the mask are decided for every atomic number
that a mask contains; and the loaders of the two splits are compared with the declared ones."""
from .. import libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 6
TECHNIQUE = 'composition of the listed transformations into one value graph, compared with a reference model; constant evaluation of the class mapping'
EXAMPLE = mk('param', 'example')
CLASSES = ((0, 0), (6, 1), (14, 2))  # atomic number: class
LOADER = 'grain.tensorflow.load_from_tfds'
IGNORED = {'tf_data_options', 'transformations'}
SETS = (('atom_detection.dataset', 'examples.detection', ('image', 'mask'), (None,)),
        ('image_alignment.dataset', 'examples.alignment', ('images', 'mask', 'drift'), (False, True)),
        ('graph_alignment.dataset', 'examples.graphs', (), (None,)))
FUNCS = {
    'tensorflow.image.resize': ('images size method', {}), 'tensorflow.transpose': ('a perm', {}), 'tensorflow.reshape': ('tensor shape', {}),
    'tensorflow.one_hot': ('indices depth on_value off_value axis dtype', {'on_value': None, 'off_value': None, 'dtype': None}),
    'tensorflow.squeeze': ('input axis', {}), 'tensorflow.where': ('condition x y', {}), 'tensorflow.equal': ('x y', {}), 'tensorflow.cast': ('x dtype', {}),
    'tensorflow.image.convert_image_dtype': ('image dtype saturate', {'saturate': False}),
}
MOVES = {'tensorflow.image.resize', 'tensorflow.transpose'}
CASTS = {'numpy.uint8', 'numpy.int32', 'numpy.int64', 'numpy.asarray', 'tensorflow.constant', 'tensorflow.convert_to_tensor', 'int', 'numpy.array'}


def name_of(x):
  return x.args[0].args[0] if x.op == 'call' and x.args[0].op == 'glob' else None


def tidy(t):
  """One spelling for each call; mappings read by key."""
  def f(x):
    n = name_of(x)
    if n in FUNCS:
      b = libnf.bind(x.args[1], x.args[2], FUNCS[n])
      if b is not None:
        kw = tuple((k, mk('tuple', *v.args) if v.op == 'list' else v) for k, v in b[1])
        x2 = mk('call', x.args[0], b[0], kw, None)
        return x2 if x2 is not x else None
    if x.op == 'item' and x.args[1].op == 'const':
      return entry(x.args[0], x.args[1])
    if x.op == 'mcall' and x.args[0] == 'get' and len(x.args[2]) == 1 and x.args[2][0].op == 'const':
      return entry(x.args[1], x.args[2][0])
    if x.op == 'phi':
      return resized(*x.args)
    if x.op == 'repeat' and x.args[0].op == 'const' and x.args[1].op in ('tuple', 'list') and len(x.args[1].args) * T.cval(x.args[0]) <= 8:
      return mk('tuple', *x.args[1].args * T.cval(x.args[0]))
    return None
  for _ in range(6):
    n = T.rewrite(t, f)
    if n is t:
      break
    t = n
  return t


def entry(m, k):
  if m.op in ('store', 'dset'):
    return m.args[2] if m.args[1] is k else mk('item', m.args[0], k) if m.args[1].op == 'const' else None
  if m.op == 'dupdate' and m.args[0].op == 'dict' and not m.args[0].args or m.op in ('seqcopy', 'init'):
    return mk('item', m.args[-1], k)
  if m.op == 'phi':
    return T.phi(m.args[0], mk('item', m.args[1], k), mk('item', m.args[2], k))
  if m.op == 'dict':
    for a, b in m.args:
      if a is k:
        return b
  return None


def resized(c, a, b):
  """Resizing to the size that an image already has (the condition must say so) does nothing."""
  if name_of(b) != 'tensorflow.image.resize':
    return None
  kw = dict(b.args[2])
  if kw.get('images') is not a or 'size' not in kw or kw['size'].op != 'tuple' or len(kw['size'].args) != 2:
    return None
  shape = mk('attr', a, 'shape')
  for i in (0, 1):
    if c is T.and_(T.eq(kw['size'].args[0], mk('item', shape, T.const(i))), T.eq(kw['size'].args[1], mk('item', shape, T.const(i + 1)))):
      return b
  return None


def loaders(t):
  """(options of the loader, options of the reading) of each dataset returned."""
  if t.op != 'tuple':
    return None
  out = []
  for x in t.args:
    if x.op != 'mcall' or x.args[0] != 'as_dataset' or name_of(x.args[1]) != LOADER or x.args[1].args[1]:
      return None
    out.append((dict(x.args[1].args[2]), x.args[2], x.args[3]))
  return out


def listed(t):
  if t.op in ('list', 'tuple'):
    return list(t.args)
  if t.op in ('concat', 'seqcopy'):
    out = [listed(x) for x in t.args]
    return None if None in out else [y for x in out for y in x]
  if t.op == 'item' and t.args[1].op == 'slice' and all(x is T.NONE or x.op == 'const' for x in t.args[1].args):
    out = listed(t.args[0])
    return None if out is None else out[slice(*[None if x is T.NONE else T.cval(x) for x in t.args[1].args])]
  return None


def composed(A, steps):
  """The example after the transformations, and where they are."""
  t, where = EXAMPLE, []
  for s in steps:
    if s.op != 'new':
      return None, where
    r = A.node_of(A.prog.cls(s.args[0].removeprefix('putting_dune.')), 'map', names=['features'])
    kw, feats, me = dict(s.args[1]), mk('param', 'features'), mk('param', 'self')

    def f(x, t=t, kw=kw):
      if x.op == 'init' and x.args[0] is feats or x is feats:
        return t
      if x.op == 'attr' and x.args[0] is me and x.args[1] in kw:
        return kw[x.args[1]]
      return None
    t = T.subst(r.it.closed(r.result), f)
    where.append(r.where)
  return t, where


def classes(t, base):
  """The class that each atomic number of the mask is mapped to, as a function of the mask resized; None if not read."""
  out = []
  for number, _ in CLASSES:
    def f(x, n=number):
      if x is base:
        return T.const(n)
      g = name_of(x)
      kw = dict(x.args[2]) if g else {}
      if g in CASTS and x.args[1] and x.args[1][0].op == 'const':
        return x.args[1][0]
      if g == 'tensorflow.cast' and 'x' in kw and kw['x'].op == 'const':
        return kw['x']
      if g == 'tensorflow.equal' and {'x', 'y'} <= set(kw) and kw['x'].op == kw['y'].op == 'const':
        return T.TRUE if kw['x'] is kw['y'] else T.FALSE
      if g == 'tensorflow.where' and {'x', 'y', 'condition'} <= set(kw) and kw['condition'] in (T.TRUE, T.FALSE):
        return kw['x'] if kw['condition'] is T.TRUE else kw['y']
      return None
    v = t
    for _ in range(8):
      n = T.rewrite(v, f)
      if n is v:
        break
      v = n
    out.append(T.cval(v) if v.op == 'const' else None)
  return out


def masked(A, name, t, want, where):
  """Checks the classes of a mask, and leaves them abstract."""
  hot = [x for x in T.subterms(t) if name_of(x) == 'tensorflow.one_hot']
  ref = [x for x in T.subterms(want) if name_of(x) == 'tensorflow.one_hot']
  base = dict(ref[0].args[2])['indices']
  if len(hot) != 1 or 'indices' not in dict(hot[0].args[2]):
    A.ob('classes', name, None, f'one-hot encoding not read: {T.show(t, 4)[:200]}', where)
    return t
  i = dict(hot[0].args[2])['indices']
  tested = {y for x in T.subterms(i) for y in ([dict(x.args[2]).get('x')] if name_of(x) == 'tensorflow.equal' else [z for z in x.args if z.op != 'const'] if x.op == 'eq' else [])
            if isinstance(y, T.Term) and not any(name_of(z) == 'tensorflow.where' for z in T.subterms(y)) and any(name_of(z) in MOVES or z is EXAMPLE for z in T.subterms(y)) and not (y.op == 'item' and y.args[0].op == 'attr')}
  if not any(x is base for x in T.subterms(i)) and len(tested) == 1:
    base = tested.pop()
  got = classes(i, base)
  if None in got:
    A.ob('classes', name, None, f'classes not read: {T.show(i, 5)[:300]}', where)
    return None
  A.ob('classes', name, got == [c for _, c in CLASSES], f'atomic numbers {[n for n, _ in CLASSES]} become classes {got}', where)
  return T.subst(t, lambda x: base if x is i else None)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  for mod, ref, keys, cases in SETS:
    r = A.func(f'{mod}.make_dataset', names=['config'])
    x = A.know(A.spec(ref, names=['config']))
    got, want = loaders(r.it.closed(r.result)), loaders(x.it.closed(x.result))
    if got is None or len(got) != 2:
      A.ob('loaders', mod, None, f'datasets not read: {T.show(r.it.closed(r.result), 3)[:200]}', r.where)
      continue
    for split, (opts, a, kw), (opts2, a2, kw2) in zip(('train', 'test'), got, want):
      pick = lambda o, args, k: plain(mk('dict', *[(T.const(n), v) for n, v in sorted(o.items()) if n not in IGNORED], *[(T.const('at ' + n), v) for n, v in sorted(k)], *[(T.const(f'at {i}'), v) for i, v in enumerate(args)]))
      A.same('loaders', f'{mod}: {split}', pick(opts, a, kw), pick(opts2, a2, kw2), r.where)
      for final in cases:
        put = lambda y, final=final: (T.TRUE if final else T.FALSE) if final is not None and y.op == 'attr' and y.args[1] == 'final_only' and y.args[0] is mk('param', 'config') else None
        tag = f'{mod}: {split}' + ('' if final is None else ', last step only' if final else ', all steps')
        steps, steps2 = [listed(T.subst(o.get('transformations', mk('tuple')), put)) for o in (opts, opts2)]
        t, where = composed(A, steps) if steps is not None else (None, [])
        w = T.subst(T.subst(x.it.closed(A.spec(ref + '_example', names=['features', 'config']).result), put), lambda y: EXAMPLE if y is mk('param', 'features') or y.op == 'init' and y.args[0] is mk('param', 'features') else None)
        if t is None:
          A.ob('examples', tag, None, 'transformations not read', r.where)
          continue
        where = (where or [r.where])[-1]
        for key in keys:
          p, q = [tidy(mk('item', v, T.const(key))) for v in (t, w)]
          if key == 'mask':
            p = masked(A, tag, p, q, where)
            if p is None:
              continue
          known = set(A.known)
          A.known |= {'tensorflow.cast'} if key != 'mask' else set()
          A.same('examples', f'{tag}: {key}', plain(p), plain(q), where)
          A.known = known
        if not keys:
          A.same('examples', tag, t, EXAMPLE, where)


def plain(t):
  def f(x):
    if x.op == 'call' and x.args[3] is not None:
      return mk('call', *x.args[:3], None)
    if x.op == 'mod':
      return T.sub(x.args[0], T.mul(x.args[1], mk('floordiv', *x.args)))
    return None
  return T.rewrite(t, f)
