"""What the training programs minimise: the function each train step differentiates is compared, as a value graph, with a reference model of
the declared loss; the gradient must be taken at the parameters of the state and of the loss itself, not of another output."""
from .. import libnf, terms as T
from ..terms import mk

MIN_OBLIGATIONS = 6
TECHNIQUE = 'value-graph comparison of the differentiated functions with reference models of the losses'
STEPS = (
    ('graph_alignment.train', 'losses.graph',
     ['state', 'batch', 'apply_fn', 'neighbor_update_fn', 'local_loss_weight', 'loss_start_timestep', 'neighbor_list_capacity', 'cell_list_capacity', 'do_grad_step']),
    ('image_alignment.train', 'losses.image', ['state', 'batch', 'drift_loss_weight', 'final_only']),
    ('atom_detection.train', 'losses.detection', ['state', 'batch']),
)
GRADS = ('jax.grad', 'jax.value_and_grad')


def gradients(t):
  """(differentiated function, options, arguments) of every gradient taken in a value."""
  out = {}
  for y in T.subterms(t):
    if y.op == 'call' and y.args[0].op == 'call' and y.args[0].args[0].op == 'glob' and y.args[0].args[0].args[0] in GRADS and y.args[0].args[1]:
      out[y.args[0].args[1][0], y.args[1]] = y
  return [(f, y.args[0].args[2], y.args[1], y.args[2], y) for (f, _), y in out.items()]


def lengths(args):
  """A shape, given as a whole or length by length."""
  if len(args) == 1 and args[0].op in ('tuple', 'list'):
    args = args[0].args
  elif len(args) == 1 and args[0].op == 'concat':
    args = [z for y in args[0].args for z in (y.args if y.op in ('tuple', 'list') else [mk('star', y)])]
  return (args[0].args[0],) if len(args) == 1 and args[0].op == 'star' else tuple(args)


def anonymous(t):
  """Calls of functions that are not library functions have no effects here: which of them it is, is its arguments. Sequences of arrays, and
  shapes given one by one, in one spelling."""
  def f(x):
    if x.op == 'call' and len(x.args) > 3 and x.args[3] is not None:
      return mk('call', *x.args[:3], None)
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('jax.numpy.reshape', 'numpy.reshape') and len(x.args[1]) == 2 and not x.args[2]:
      return mk('mcall', 'reshape', x.args[1][0], lengths(x.args[1][1:]), (), None)
    if x.op == 'mcall' and x.args[0] == 'reshape' and not x.args[3]:
      n = mk('mcall', 'reshape', x.args[1], lengths(x.args[2]), (), None)
      return n if n is not x else None
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('jax.numpy.concatenate', 'jax.numpy.stack') and x.args[1] and x.args[1][0].op == 'list':
      return mk('call', x.args[0], (mk('tuple', *x.args[1][0].args), *x.args[1][1:]), *x.args[2:])
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('jax.numpy.concatenate', 'jax.numpy.stack') and any(k == 'arrays' and v.op == 'list' for k, v in x.args[2]):
      return mk('call', x.args[0], x.args[1], tuple((k, mk('tuple', *v.args) if k == 'arrays' else v) for k, v in x.args[2]), *x.args[3:])
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('jax.numpy.linalg.norm', 'numpy.linalg.norm', 'jax.numpy.abs'):
      # A length does not depend on the sign.
      at = dict(x.args[2]).get('x') if x.args[2] and not x.args[1] else x.args[1][0] if x.args[1] else None
      if at is not None and at.op == 'poly':
        low = min((at, T.sub(T.ZERO, at)), key=lambda y: T.show(y, 40))
        if low is not at:
          return mk('call', x.args[0], tuple(low if y is at else y for y in x.args[1]), tuple((k, low if v is at else v) for k, v in x.args[2]), None)
    if x.op == 'tuple' and any(a.op == 'star' for a in x.args):
      out = []
      for a in x.args:
        if a.op == 'star':
          out.append(a.args[0])
        elif out and out[-1].op == 'tuple':
          out[-1] = mk('tuple', *out[-1].args, a)
        else:
          out.append(mk('tuple', a))
      return mk('concat', *out)
    return None
  return T.rewrite(t, f)


def body(f):
  return f.args[2] if f.op == 'lam' else None


def part(t, i):
  """The loss, or the report, of a (loss, report) pair."""
  if t.op == 'tuple' and len(t.args) == 2:
    return t.args[i]
  if t.op == 'phi':
    a, b = part(t.args[1], i), part(t.args[2], i)
    return T.phi(t.args[0], a, b) if a is not None and b is not None else None
  return None


def entries(t):
  """The entries of a report by name."""
  if t is None:
    return None
  if t.op == 'dict' and all(k.op == 'const' for k, _ in t.args):
    return {T.cval(k): v for k, v in t.args}
  if t.op == 'phi':
    a, b = entries(t.args[1]), entries(t.args[2])
    return {k: T.phi(t.args[0], a[k], b[k]) for k in a} if a is not None and b is not None and set(a) == set(b) else None
  if t.op == 'dset' and t.args[1].op == 'const':
    a = entries(t.args[0])
    return None if a is None else {**a, T.cval(t.args[1]): t.args[2]}
  return None


def report(A, name, got, want, where):
  if got is None:
    A.ob('report', name, None, 'report not read', where)
    return
  for k in sorted(want):
    if k not in got:
      A.ob('report', f'{name}: {k}', None, 'not among the entries', where)
    else:
      A.same('report', f'{name}: {k}', anonymous(got[k]), anonymous(want[k]), where)


def reported(t):
  """The reports merged into the metrics: entries by name, or the pair they come from."""
  return [y for y in T.subterms(t) if y.op == 'mcall' and y.args[0] == 'single_from_model_output']


def applied(A, name, result, grads, where):
  """The state afterwards is the state with this gradient applied, and its metrics merged with the report of the same pass."""
  on = T.subst(result, lambda y: T.TRUE if y is mk('param', 'do_grad_step') else None)
  off = T.subst(result, lambda y: T.FALSE if y is mk('param', 'do_grad_step') else None)
  steps = lambda t: [y for y in T.subterms(t) if y.op == 'mcall' and y.args[0] == 'apply_gradients']
  if on is not off:
    a, b = steps(on), steps(off)
    A.ob('step', f'{name}: only when training', True if a and not b else False if b else None, f'{len(a)} updates when training, {len(b)} when evaluating', where)
  found = steps(on)
  if len(found) != 1:
    A.ob('step', f'{name}: applied', None, f'{len(found)} updates', where)
    return
  kw = dict(found[0].args[3])
  g = kw.get('grads')
  i = 1 if grads.args[0].args[0].args[0] == 'jax.value_and_grad' else 0
  aux = dict(grads.args[0].args[2]).get('has_aux') is T.TRUE
  good = mk('item', grads, T.const(i)) if aux or i else grads
  same = isinstance(g, T.Term) and anonymous(g) is anonymous(good)
  A.ob('step', f'{name}: applied', True if same and found[0].args[1] is mk('param', 'state') else False if isinstance(g, T.Term) and not any(y is grads for y in T.subterms(g)) and g.op in ('attr', 'param', 'const') else None,
       f'gradient applied: {T.show(g, 3) if isinstance(g, T.Term) else g}', where)
  m = kw.get('metrics')
  ok = isinstance(m, T.Term) and m.op == 'mcall' and m.args[0] == 'merge' and len(reported(m)) == 1 and any(y is mk('attr', mk('param', 'state'), 'metrics') for y in T.subterms(m.args[1]))
  A.ob('step', f'{name}: metrics merged', True if ok else None, T.show(m, 3)[:200] if isinstance(m, T.Term) else 'no metrics', where)


def evaluated(A, name, r, x):
  t = T.subst(libnf.nf(r.it.closed(r.result)), lambda y: T.FALSE if y is mk('param', 'do_grad_step') else None)
  own = {mk('param', 'batch')}
  entry = lambda y: mk('param', 'entries of the batch') if y.op in ('dictof', 'fold', 'dictmap', 'dictcomp') and {z for z in T.subterms(y) if z.op == 'param'} == own else None
  t = T.subst(t, entry)
  got, want = reported(t), entries(T.subst(libnf.nf(x.it.closed(x.result)), entry))
  if want is None:
    raise AssertionError(f'{name}: reference report')
  if len(got) != 1 or got[0].args[2] or any(k == '**' for k, _ in got[0].args[3]):
    A.ob('report', name, None, f'{len(got)} reports', r.where)
    return
  report(A, name, dict(got[0].args[3]), want, r.where)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  A.known |= {'optax.sigmoid_binary_cross_entropy', 'optax.l2_loss', 'optax.huber_loss'}
  for mod, ref, names in STEPS:
    r, x = A.func(f'{mod}.train_step', names=names), A.know(A.spec(ref, names=names))
    result = libnf.nf(r.it.closed(r.result))
    got = gradients(mk('tuple', result, libnf.nf(r.it.closed(mk('tuple', *[e.d['result'] for e in r.events if e.kind == 'call' and isinstance(e.d.get('result'), T.Term)])))))
    (want, _, wargs, _, _), = gradients(libnf.nf(x.it.closed(x.result)))
    name = f'{mod}.train_step'
    A.ob('gradient', f'{name}: one gradient', True if len(got) == 1 else None, f'{len(got)} gradients taken', r.where)
    if len(got) != 1:
      continue
    f, opts, args, _, whole = got[0]
    opts = dict(opts)
    at = opts.get('argnums', T.ZERO)
    A.ob('gradient', f'{name}: at the parameters of the state', True if at is T.ZERO and args and args[0] is wargs[0] else False if args and args[0].op == 'attr' and args[0] is not wargs[0] else None,
         f'gradient with respect to {T.show(args[0], 3) if args else None}', r.where)
    applied(A, name, result, whole, r.where)
    if f.op != 'lam' or f.args[1] != want.args[1] or f.args[0] != want.args[0]:
      A.ob('loss', name, None, f'differentiated function not read: {T.show(f, 3)[:200]}', r.where)
      continue
    a, b = part(body(f), 0), part(body(want), 0)
    if a is None and opts.get('has_aux') is not T.TRUE:
      a = body(f)
    if a is None:
      A.ob('loss', name, None, f'outputs not read: {T.show(body(f), 3)[:200]}', r.where)
      continue
    A.same('loss', name, anonymous(a), anonymous(b), r.where)
    report(A, name, entries(part(body(f), 1) if part(body(f), 1) is not None else mk('tuple')), entries(part(body(want), 1)), r.where)
  evaluated(A, 'graph_alignment.train.train_step without a step', A.func('graph_alignment.train.train_step', names=STEPS[0][2]), A.know(A.spec('losses.graph_report', names=STEPS[0][2])))
  names = ['state', 'batch', 'final_only']
  evaluated(A, 'image_alignment.train.eval_step', A.func('image_alignment.train.eval_step', names=names), A.know(A.spec('losses.image_report', names=names)))
  names = ['metrics', 'batch']
  evaluated(A, 'atom_detection.train.eval_step', A.func('atom_detection.train.eval_step', names=names), A.know(A.spec('losses.detection_report', names=names)))
