"""Shape and dtype inference over the value graph of get_features (all branches), compared leaf by leaf with the structure,
keys, shapes and dtypes in the value graph of observation_spec; plus value-graph comparison of the content with the reference
(silicon position, vectors to its three nearest neighbours, vector to the goal in Angstroms, the image)."""
from . import adapters as D
from .. import arr
from .. import terms as T
from ..terms import mk, const

MIN_OBLIGATIONS = 12
TECHNIQUE = 'shape/dtype inference on value graphs against the declared spec; value-graph comparison with a reference model'
KNOWN = {'SingleSiliconPristineGrapheneFeatureConstuctor': 'pristine', 'SingleSiliconMaterialFrameFeatureConstructor': 'material',
         'ImageFeatureConstructor': 'image'}
KW = dict(names=['observation', 'goal'], types={'observation': 'microscope_utils.MicroscopeObservation', 'goal': 'goals.SingleSiliconGoalReaching'},
          no_inline=lambda f: 'frame_to_' in f.name, pure=('graphene.get_single_silicon_position',))
KEEP = {'reshape', 'squeeze', 'ravel', 'flatten', 'copy', 'transpose'}
KEEPF = {'numpy.' + n for n in ('reshape', 'squeeze', 'ravel', 'copy', 'transpose', 'expand_dims', 'ascontiguousarray', 'clip')} | {'seqcopy'}


def dtype(t):
  """(dtype term | 'input' when it follows the observation | None unknown)."""
  if t.op == 'mcall':
    name, recv, args, kw = t.args[0], t.args[1], t.args[2], dict(t.args[3])
    if name == 'astype':
      return args[0] if args else kw.get('dtype')
    if name in KEEP:
      return dtype(recv)
    if name in ('frame_to', 'microscope_frame_to_material_frame', 'material_frame_to_microscope_frame'):
      return 'input'
    return None
  if t.op == 'call' and t.args[0].op == 'glob':
    g, args, kw = t.args[0].args[0], t.args[1], dict(t.args[2])
    if g in ('numpy.asarray', 'numpy.array', 'numpy.concatenate', 'numpy.stack', 'numpy.hstack', 'numpy.zeros', 'numpy.ones'):
      if 'dtype' in kw:
        return kw['dtype']
      if len(args) > 1 and g in ('numpy.asarray', 'numpy.array', 'numpy.zeros', 'numpy.ones'):
        return args[1]
      if g in ('numpy.zeros', 'numpy.ones'):
        return mk('glob', 'numpy.float64')
      parts = args[0].args if args[0].op in ('list', 'tuple') else (args[0],)
      ds = {dtype(x) for x in parts}
      return ds.pop() if len(ds) == 1 else ('input' if 'input' in ds else None)
    if g == 'numpy.float32' and args:
      return mk('glob', 'numpy.float32')
    if g in KEEPF:
      return dtype(args[0])
    if g == 'cv2.resize' or g.startswith('putting_dune.'):
      return 'input'
    return None
  if t.op in ('attr', 'item', 'param'):
    return 'input' if t.op != 'item' else dtype(t.args[0]) or 'input'
  if t.op == 'poly':
    ds = {dtype(b) for m, _ in t.args for b, _e in m}
    return ds.pop() if len(ds) == 1 else ('input' if 'input' in ds else None)
  return None


def uncast(t):
  """Content regardless of floating-point width."""
  fl = ('numpy.float32', 'numpy.float64', 'float')

  def f(x):
    if x.op == 'mcall' and x.args[0] == 'astype' and x.args[2] and x.args[2][0].op == 'glob' and x.args[2][0].args[0] in fl:
      return x.args[1]
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('numpy.asarray', 'numpy.array', 'numpy.concatenate') and dict(x.args[2]).get('dtype', T.NONE).op == 'glob':
      kw = dict(x.args[2])
      if kw['dtype'].args[0] in fl:
        return mk('call', x.args[0], x.args[1], tuple((k, v) for k, v in x.args[2] if k != 'dtype'), x.args[3])
    return None
  return T.rewrite(t, f)


def spec_record(s):
  if s.op == 'call' and s.args[0].op == 'glob' and s.args[0].args[0].startswith('dm_env.specs.'):
    kw = dict(s.args[2])
    for n, v in zip(('shape', 'dtype'), s.args[1]):
      kw.setdefault(n, v)
    return kw
  return None


def leaves(A, cons, v, s, where):
  if v.op == 'phi':
    leaves(A, cons, v.args[1], s, where)
    leaves(A, cons, v.args[2], s, where)
    return
  if s.op == 'dict':
    if v.op != 'dict':
      A.ob('structure', cons, None if T.contains(v, lambda x: x.op == 'unknown') or v.op not in ('poly', 'list', 'tuple', 'mcall') else False,
           f'declared a dictionary, found {T.show(v, 4)}', where)
      return
    ks, kv = [k for k, _ in s.args], [k for k, _ in v.args]
    show = lambda xs: sorted(T.show(k, 2) if isinstance(k, T.Term) else str(k) for k in xs)
    A.ob('keys', cons, show(ks) == show(kv), f'declared {show(ks)}, built {show(kv)}', where)
    dv = {(T.show(k, 2) if isinstance(k, T.Term) else str(k)): x for k, x in v.args}
    for k, x in s.args:
      k = T.show(k, 2) if isinstance(k, T.Term) else str(k)
      if k in dv:
        leaves(A, f'{cons}[{k}]', dv[k], x, where)
    return
  kw = spec_record(s)
  if kw is None or 'shape' not in kw or 'dtype' not in kw:
    A.ob('structure', cons, None, f'spec not interpreted: {T.show(s, 4)}', where)
    return
  if v.op == 'dict':
    A.ob('structure', cons, False, f'declared an array, found a dictionary {T.show(v, 3)}', where)
    return
  try:
    want = arr.dims(kw['shape'])
  except arr.NoShape:
    A.ob('structure', cons, None, f'spec not interpreted: {T.show(s, 4)}', where)
    return
  c = arr.Canon({})
  got = c.known(v)
  if got is None:
    A.ob('shape', cons, False if c.mismatch else None, f'shape of {T.show(v, 6)[:300]} {"is inconsistent: " + str(c.mismatch[0]) if c.mismatch else "not derived"}', where)
  else:
    sym = any(not isinstance(d, int) for d in got)
    A.ob('shape', cons, got == want if not sym or len(got) != len(want) else (None if all(not isinstance(a, int) or a == b for a, b in zip(got, want)) else False),
         f'declared {want}, built {tuple(d if isinstance(d, int) else T.show(d, 2) for d in got)}', where)
  d = dtype(v)
  A.ob('dtype', cons, None if d is None else d is kw['dtype'], f'declared {T.show(kw["dtype"], 2)}, built {d if not isinstance(d, T.Term) else T.show(d, 2)}', where)


def check(A):
  n = 0
  for c in A.prog.subclasses('putting_dune.feature_constructors.FeatureConstructor'):
    if not c.qual.startswith('putting_dune.'):
      continue
    n += 1
    r = A.node_of(c, 'get_features', **KW)
    s = A.node_of(c, 'observation_spec')
    v = T.rewrite(r.result, D.bare)
    leaves(A, f'{c.name}.get_features', v, s.result, r.where)
    ref = KNOWN.get(c.name)
    if ref:
      w = A.spec(f'features.{ref}', cls=c.qual[len('putting_dune.'):], **KW)
      w = T.rewrite(w.result, D.bare)
      if v.op == 'dict' and w.op == 'dict':
        dv = dict((T.show(k, 2) if isinstance(k, T.Term) else k, x) for k, x in v.args)
        for k, x in w.args:
          k = T.show(k, 2) if isinstance(k, T.Term) else k
          if k in dv:
            A.same('content', f'{c.name}.get_features[{k}]', uncast(dv[k]), uncast(x), r.where)
      else:
        A.same('content', f'{c.name}.get_features', uncast(v), uncast(w), r.where)
  A.ob('constructors-found', 'FeatureConstructor', n >= 3, f'{n}')
