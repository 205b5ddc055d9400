"""The construction of every input of a rate network is compared with one layout (optional context columns in the order current, voltage,
dwell time, then the standardised position) at every place where a model is trained, evaluated, distilled, packaged or queried."""
from .. import libnf, terms as T
from ..terms import mk
from .c26 import leading
from .ratenet import L, P, keyless

MIN_OBLIGATIONS = 18
TECHNIQUE = 'value-graph comparison of every rate-network input against one column layout'
M = 'pipeline.train_rate_learner.'
STEPS = {'train_epoch', 'train_model', 'batched_loss_fn', 'distill_loss', 'distill_train_epoch', 'create_dataset_splits', 'train_multiple_models', 'distill_multiple_models_to_single'}
# (function, reference, parts of the result)
LOOPS = (('train_epoch', 'train_epoch', 'rows and columns given to the loss in an epoch'), ('train_model', 'train_model', 'data trained on and evaluated'),
         ('train_multiple_models', 'train_multiple_models', 'shapes the networks are initialised for'), ('distill_train_epoch', 'distill_train_epoch', 'data distilled on'))


def arg(run, name, pos, param):
  """The values of one argument of every call of a function."""
  out = []
  for e in run.events:
    if e.kind != 'call':
      continue
    fn = e.d.get('fn')
    n = e.d.get('name') or (fn.args[0].rsplit('.', 1)[-1] if isinstance(fn, T.Term) and fn.op == 'glob' else None)
    if n != name:
      continue
    v = e.kwargs.get(param) if hasattr(e, 'kwargs') else None
    if v is None and len(e.args) > pos:
      v = e.args[pos]
    out.append((mk('absent') if v is None else run.it.closed(v), e))
  return out


def check(A):
  A.nf, A.vocab = libnf.nf, True

  def no(*names):
    return dict(no_inline=lambda f: f.name in names)
  r, x = A.func(M + 'stack_data'), A.know(A.spec('transitions.stack_data'))
  A.same('column-order', 'stack_data', r.result, x.result, r.where)
  kw = no('bootstrap_dataset', 'split_dataset', 'augment_data')
  r, x = A.func(L + 'create_dataset_splits', **kw), A.know(A.spec('rates.splits', **kw))
  for i, n in enumerate(('training', 'testing')):
    p, q = (t.args[i] if t.op == 'tuple' and len(t.args) == 2 else t for t in (r.result, x.result))
    A.same('context-then-position', f'create_dataset_splits: {n} data', p, q, r.where)
  for f, s, what in LOOPS:
    kw = dict(no_inline=lambda g, f=f: g.name in STEPS and g.name != f)
    r, x = A.func(L + f, **kw), A.know(A.spec('ratenet.' + s, **kw))
    A.same('same-input-in-training', f'{f}: {what}', keyless(r.result), keyless(x.result), r.where)
  kw = no(*STEPS)
  for attr in ('params', 'state', 'context_dim'):
    r, x = A.method(P, 'train', **kw), A.know(A.spec('ratenet.train', cls=P, **kw))
    a, b = r.self_attr(attr), x.self_attr(attr)
    A.same('same-input-in-training', f'train: {attr}', keyless(a) if a is not None else mk('absent'), keyless(b), r.where)
  r, x = A.method(P, 'distill', **kw), A.know(A.spec('ratenet.distill', cls=P, **kw))
  for i, n in ((10, 'data_mean'), (11, 'data_scale')):
    a, b = (arg(z, 'distill_multiple_models_to_single', i - 1, n) for z in (r, x))
    if len(a) != 1:
      A.ob('same-input-in-distillation', f'distill: {n}', None, f'{len(a)} distillations', r.where)
    else:
      A.same('same-input-in-distillation', f'distill: {n}', a[0][0], b[0][0], a[0][1].where)
  # queries
  kw = no('package_model', 'standardize_beam_and_neighbors')
  r, x = A.method(P, 'predict', **kw), A.know(A.spec('ratenet.predict', cls=P, **kw))
  A.same('same-input-in-queries', 'predict', r.result, x.result, r.where)
  r, x = A.method(P, 'package_model'), A.know(A.spec('ratenet.package_model', cls=P))
  a, b = (fed(z) for z in (r, x))
  if a is None:
    A.ob('same-input-in-queries', 'package_model', None, 'exported function not found', r.where)
  else:
    A.same('same-input-in-queries', 'package_model: input of the exported network', keyless(a), keyless(b), r.where)
  r, x = A.func(L + 'visualize_rates'), A.know(A.spec('ratenet.shown'))
  a, b = (inputs(z, mk('param', 'predict_rates')) for z in (r, x))
  if len(a) != 1:
    A.ob('same-input-in-queries', 'visualize_rates', None, f'{len(a)} queries', r.where)
  else:
    A.same('same-input-in-queries', 'visualize_rates', leading(a[0]), leading(b[0]), r.where)
  # the fixed columns of the exported model and of the plots
  names = {'load_trajectories_from_records', 'trajectories_to_transitions', 'transitions_to_datapoints', 'stack_data', 'create_dataset_splits', 'augment_data',
           'train_sklearn_classifier', 'get_sklearn_classifier', 'train', 'distill', 'save', 'visualize_data', 'visualize_rates', '__init__', 'get_mlp_fn', 'apply_model'}
  r = A.func(M + 'main', no_inline=lambda f: f.name in names)
  st = [e for e in r.events if e.kind == 'call' and isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' and e.fn.args[0].endswith('.stack_data')]
  if len(st) != 1:
    A.ob('columns-as-configured', 'main', None, f'{len(st)} stacked data sets', r.where)
    return
  x = A.know(A.spec('ratenet.configured', no_inline=lambda f: f.name in names))
  y = [e for e in x.events if e.kind == 'call' and isinstance(e.d.get('fn'), T.Term) and e.fn.op == 'glob' and e.fn.args[0].endswith('.stack_data')][0]
  for i, n in ((1, 'current'), (2, 'voltage'), (3, 'dwell time')):
    A.same('columns-as-configured', f'main: {n} column', r.it.closed(st[0].args[i]), x.it.closed(y.args[i]), st[0].where)
  ctx = mk('param', 'stacked_context')
  x = A.know(A.spec('ratenet.fixed_columns'))
  allowed = [libnf.nf(t) for t in x.result.args]
  for name, pos, param in (('save', 2, 'fixed_context'), ('visualize_rates', 4, 'fixed_context')):
    for n, (v, e) in enumerate(arg(r, name, pos, param)):
      t = libnf.nf(present(stand_in(v, ctx)))
      A.same('fixed-columns-from-the-data', f'main: {name} {n}', t, t if t in allowed else allowed[0], e.where)


def stand_in(t, ctx):
  """The context columns of the stacked data set, named."""
  def f(x):
    if x.op == 'item' and x.args[1] is T.const('context') and x.args[0].op == 'call' and x.args[0].args[0].op == 'glob' and x.args[0].args[0].args[0].endswith('.stack_data'):
      return ctx
    return None
  return T.rewrite(t, f)


def present(t):
  """The value when there are context columns."""
  while t.op == 'phi' and (T.NONE is t.args[1] or T.NONE is t.args[2]):
    t = t.args[2] if t.args[1] is T.NONE else t.args[1]
  return t


def fed(run):
  from .c28 import converted
  t = converted(run)
  if t is None:
    return None
  c = [x for x in T.subterms(t) if x.op in ('call', 'mcall') and any(isinstance(a, T.Term) and a.op == 'attr' and a.args[1] in ('params', 'state') for a in (x.args[1] if x.op == 'call' else x.args[2]))]
  return mk('tuple', *sorted(set(c), key=T.skey)) if c else None


def inputs(run, fn):
  return [run.it.closed(e.args[0]) for e in run.events if e.kind == 'call' and e.d.get('fn') is fn and e.args]
