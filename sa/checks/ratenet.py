"""Shared by the rate-network checks: random keys taken alike, network outputs and their components named."""
from .. import libnf, terms as T
from ..terms import mk, const

L = 'rate_learning.learn_rates.'
P = L + 'LearnedTransitionRatePredictor'
KEYS = ('key', 'rng', 'rng_key', 'init_key')
ELL = const('...#ellipsis')


def keyless(t):
  """All random keys taken alike (their linear use is property C06); names of mapped axes dropped."""
  def is_key(x):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('jax.random.PRNGKey', 'jax.random.key'):
      return True
    if x.op == 'item':
      b = x.args[0]
      return is_key(b) or b.op == 'call' and b.args[0].op == 'glob' and b.args[0].args[0] == 'jax.random.split'
    return x.op == 'key' or x.op == 'param' and x.args[0] in KEYS or x.op == 'attr' and x.args[1] == 'rng'

  def f(x):
    if x.op != 'key' and is_key(x):
      return mk('key')
    if x.op == 'call' and x.args[0].op == 'call' and x.args[0].args[0].op == 'glob' and x.args[0].args[0].args[0] == 'jax.vmap' and x.args[3] is not None:
      return mk('call', x.args[0], x.args[1], x.args[2], None)
    if x.op == 'call' and x.args[0].op == 'glob':
      g = x.args[0].args[0]
      if g == 'jax.vmap' and any(k == 'axis_name' for k, _ in x.args[2]):
        return mk('call', x.args[0], x.args[1], tuple(p for p in x.args[2] if p[0] != 'axis_name'), x.args[3])
      if g.startswith('jax.random.'):
        kw = dict(x.args[2])
        k = x.args[1][0] if x.args[1] else kw.get('key')
        if k is not None and k.op != 'key':
          if x.args[1]:
            return mk('call', x.args[0], (mk('key'),) + x.args[1][1:], x.args[2], x.args[3])
          return mk('call', x.args[0], (), tuple((n, mk('key') if n == 'key' else v) for n, v in x.args[2]), x.args[3])
    return None
  return T.rewrite(t, f)


def outputs(two_d):
  """Names the components of network outputs: the direction logits and the total rate."""
  full = mk('slice', T.NONE, T.NONE, T.NONE)

  def lead(i):
    return i is ELL or two_d and i is full

  def f(x):
    if x.op != 'item' or x.args[1].op != 'tuple' or len(x.args[1].args) != 2:
      return None
    b, (i, j) = x.args[0], x.args[1].args
    if b.op == 'total1' and lead(i) and j is T.NONE:
      return mk('total', b.args[0])
    if not lead(i):
      return None
    if j is const(-1):
      return mk('total1', b)
    if j.op == 'slice' and j.args[2] is T.NONE:
      if j.args[0] is const(-1) and j.args[1] is T.NONE:
        return mk('total', b)
      if j.args[0] in (T.NONE, T.ZERO) and j.args[1] is const(-1):
        return mk('logits', b)
    return None

  def expand(x):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] == 'expand_dims':
      a = x.args[1][0] if x.args[1] else dict(x.args[2]).get('a')
      ax = x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get('axis')
      if a is not None and a.op == 'total1' and (ax is const(-1) or two_d and ax is const(1)):
        return mk('total', a.args[0])
    if two_d and x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].split('.')[-1] in ('softmax', 'log_softmax'):
      kw = dict(x.args[2])
      if kw.get('axis') is const(1):
        del kw['axis']
        return mk('call', x.args[0], x.args[1], tuple(sorted(kw.items())), x.args[3])
    return None

  def rw(t):
    t = keyless(t)
    for _ in range(3):
      t = T.rewrite(libnf.nf(t), lambda x: f(x) or expand(x))
    return t
  return rw
