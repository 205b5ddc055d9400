"""Every place that turns rate-network outputs into rates is compared with one decoding: softmax of all but the last output, times the
last output. Random keys are taken alike; spellings of the component selection are one form."""
from .. import libnf, terms as T
from ..terms import mk
from .ratenet import L, P, outputs

MIN_OBLIGATIONS = 8
TECHNIQUE = 'value-graph comparison of every decode site against one reference decoding'
OPAQUE = dict(no_inline=lambda f: f.name in ('package_model', 'standardize_beam_and_neighbors'))


def converted(r):
  for e in r.calls(fn='jax.experimental.jax2tf.convert'):
    if e.args:
      return r.it.closed(e.args[0])
  return None


def uses(t, out):
  """Contexts in which the components of the network outputs occur."""
  bad = []
  for x in T.subterms(t):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in ('softmax', 'log_softmax'):
      a = x.args[1] or tuple(v for _, v in x.args[2])
      if a and a[0].op in ('total', 'total1'):
        bad.append(T.show(x, 4))
  return bad


def check(A):
  A.nf, A.vocab = libnf.nf, True
  two, any_d = outputs(True), outputs(False)
  r, x = A.func(L + 'batched_loss_fn'), A.know(A.spec('ratenet.loss'))
  a, b = two(r.result), two(x.result)
  parts = [('training loss', ()), ('network state returned', (1, 0)), ('predicted rates', (1, 1)), ('total-rate loss', (1, 2)), ('next-state loss', (1, 3))]
  for name, path in parts:
    p, q = a, b
    for i in path or (0,):
      p = p.args[i] if p.op == 'tuple' and len(p.args) > i else mk('unknown')
      q = q.args[i]
    A.same('one-decoding', f'batched_loss_fn: {name}', p, q, r.where)
  r, x = A.func(L + 'distill_loss'), A.know(A.spec('ratenet.distill_loss'))
  A.same('one-decoding', 'distill_loss', two(r.result), two(x.result), r.where)
  r, x = A.method(P, 'apply_model'), A.know(A.spec('ratenet.apply_model', cls=P))
  A.same('one-decoding', 'apply_model', any_d(r.result), any_d(x.result), r.where)
  r, x = A.method(P, 'package_model'), A.know(A.spec('ratenet.package_model', cls=P))
  p, q = converted(r), converted(x)
  if p is None:
    A.ob('one-decoding', 'package_model', None, 'exported function not found', r.where)
  else:
    A.same('one-decoding', 'package_model', any_d(p), any_d(q), r.where)
