"""Value graphs of the rate-learning data path against a reference model: the rotations and reflections act on position, state and
rate columns by the same permutation, and every split partitions the rows (same index array for every column) before augmentation."""
import ast

from .. import libnf, terms as T
from ..terms import mk
from .c36 import plain
from .ratenet import keyless

MIN_OBLIGATIONS = 12
TECHNIQUE = 'value-graph comparison of the augmentation, splitting and training-data flow against a reference model'
D = 'rate_learning.data_utils.'
M = 'pipeline.train_rate_learner.'
NAMED = ('get_all_state_rotations', 'get_all_rate_rotations', 'get_all_position_rotations', 'get_transition_rotations', 'rotate_dataset',
         'bootstrap_dataset', 'split_dataset', 'augment_data', 'reflect_transition', 'generate_synthetic_data')
PAIRS = (('get_all_position_rotations', 'position_rotations', 'rotation-of-position'), ('get_all_rate_rotations', 'rate_rotations', 'rotation-of-rates'),
         ('get_all_state_rotations', 'state_rotations', 'rotation-of-state'), ('get_transition_rotations', 'transition_rotations', 'rotation-consistent'),
         ('reflect_transition', 'reflect', 'reflection-consistent'), ('rotate_dataset', 'rotate_dataset', 'rotation-of-every-row'),
         ('augment_data', 'augment', 'augmentation-complete'), ('bootstrap_dataset', 'bootstrap', 'disjoint-split'), ('split_dataset', 'split', 'disjoint-split'))
# calls of the pipeline: the arguments that carry the examples
CARRY = {'load_trajectories_from_records': 1, 'trajectories_to_transitions': 1, 'transitions_to_datapoints': 1, 'stack_data': 4,
         'create_dataset_splits': 1, 'augment_data': 7, 'train_sklearn_classifier': 3, 'train': 1, 'distill': 1}
SINKS = {'create_dataset_splits': ('train_data',), 'train_sklearn_classifier': ('training_data', 'testing_data'), 'train': ('train_data',), 'distill': ('train_data',)}


def flow(t):
  """Calls reduced to the arguments that carry the examples."""
  def f(x):
    if x.op == 'call' and x.args[0].op == 'glob':
      n = x.args[0].args[0].rsplit('.', 1)[-1]
      if n in CARRY:
        return mk('call', x.args[0], x.args[1][:CARRY[n]], tuple(p for p in x.args[2] if p[0] == '**'), None)
    return None
  return T.rewrite(t, f)


def sink(run):
  it = run.it

  def want(e):
    if e.kind != 'call':
      return None
    fn = it.closed(e.d['fn']) if e.d.get('fn') is not None else None
    n = e.d.get('name') or (fn.args[0].rsplit('.', 1)[-1] if fn is not None and fn.op == 'glob' else None)
    if n not in SINKS:
      return None
    off = 1 if n == 'train_sklearn_classifier' else 0
    kw = {k: v for k, v in e.kwargs.items()}
    out = []
    for i, p in enumerate(SINKS[n]):
      v = e.args[i + off] if i + off < len(e.args) else kw.get(p)
      out.append(flow(it.closed(v)) if v is not None else mk('absent'))
    return (n,) + tuple(out)
  return want


def leading(t):
  """The first dimension given to a reshape follows from the others."""
  def f(x):
    if x.op == 'mcall' and x.args[0] == 'reshape' and len(x.args[2]) > 1 and x.args[2][0] is not T.const(-1):
      return mk('mcall', 'reshape', x.args[1], (T.const(-1),) + x.args[2][1:], *x.args[3:])
    return None
  return T.rewrite(t, f)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  kw = dict(no_inline=lambda f: f.name in NAMED)
  for f, s, rule in PAIRS:
    r, x = A.func(D + f, **kw), A.know(A.spec('rates.' + s, **kw))
    A.same(rule, f, leading(r.result), leading(x.result), r.where)
  f = 'rate_learning.learn_rates.create_dataset_splits'
  r, x = A.func(f, **kw), A.know(A.spec('rates.splits', **kw))
  A.same('split-before-augmentation', 'create_dataset_splits', r.result, x.result, r.where)
  r, x = A.func(M + 'train_sklearn_classifier'), A.know(A.spec('rates.fitted'))
  A.same('scored-on-the-test-part', 'train_sklearn_classifier', plain(r.result), plain(x.result), r.where)
  seq = [[(e.d['name'],) + tuple(plain(q.it.closed(a)) for a in e.args) for e in q.events if e.kind == 'call' and e.d.get('name') in ('fit', 'score', 'partial_fit')] for q in (r, x)]
  fits = [i for i, c in enumerate(seq[0]) if c[0] == 'fit']
  scores = [i for i, c in enumerate(seq[0]) if c[0] == 'score']
  plain_fit = [e for e in r.events if e.kind == 'call' and e.d.get('name') == 'fit' and e.guard() is T.TRUE]
  A.ob('fitted-on-the-training-part', 'train_sklearn_classifier', True if seq[0][:1] == seq[1][:1] and len(fits) == 1 and plain_fit else False if scores and (not fits or fits[0] > scores[0]) or len(fits) == 1 and plain_fit and
       len(seq[0][fits[0]]) == 3 and seq[0][fits[0]] != seq[1][0] else None, f'{len(fits)} fits, {len(scores)} scores', r.where)
  m = A.prog.modules['putting_dune.rate_learning.data_utils']
  d = m.defs.get('reflect_dataset')
  ok, txt = None, 'not found'
  if d is not None and d[0] == 'value' and isinstance(d[1], ast.Call):
    c = d[1]
    over = [a for a in c.args[1:]] + [k.value for k in c.keywords if k.arg in ('in_axes', 'out_axes')]
    txt = ast.unparse(c)
    ok = ast.unparse(c.func).endswith('vmap') and bool(c.args) and ast.unparse(c.args[0]) == 'reflect_transition'
    if ok and over:
      ok = True if all(ast.unparse(v).strip('()').replace(',', '').replace('0', '').strip() == '' for v in over) else None
    ok = ok or None
  elif d is not None and d[0] == 'func':
    txt = 'a function of its own'
  A.ob('reflection-of-every-row', 'reflect_dataset', ok, txt, m.rel)
  f = D + 'generate_synthetic_data'
  kw = dict(no_inline=lambda f: f.name in NAMED[:4] + ('single_silicon_prior_rates',))
  mode = A.prog.cls(D + 'SyntheticDataType').qual
  r, x = A.func(f, params={'mode': mk('glob', mode + '.PRIOR')}, **kw), A.know(A.spec('rates.synthetic_prior', **kw))
  A.same('synthetic-rotated-together', 'generate_synthetic_data', keyless(r.result), keyless(x.result), r.where)
  names = set(CARRY) | {'get_sklearn_classifier', 'visualize_data', 'visualize_rates', 'save', '__init__', 'get_mlp_fn', 'apply_model', 'package_model'}
  kw = dict(no_inline=lambda f: f.name in names)
  r, x = A.func(M + 'main', **kw), A.know(A.spec('rates.pipeline', **kw))
  a, b = r.trace(sink(r), guards=False), x.trace(sink(x), guards=False)
  for n in ('train', 'distill', 'create_dataset_splits', 'train_sklearn_classifier'):
    p, q = ([c for c in l if c.label[0] == n] for l in (a, b))
    A.same_trace('trained-on-the-split-data', f'main: {n}', p, q, r.where)
