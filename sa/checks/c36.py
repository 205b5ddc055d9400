"""The training programs: every metric is followed, in the value graph, from the step that computes it through the reduction over the
batches, the reported dictionary and the checkpoint to the rule by which the best checkpoint is chosen."""
import ast

from .. import libnf, terms as T
from ..absint import LAM_NAMES
from ..prog import PKG, dotted
from ..terms import mk

MIN_OBLIGATIONS = 12
TECHNIQUE = 'value-graph analysis of training loops: provenance of every reported metric, comparison of training and validation formulas, sign analysis of the selection rule'
PROGRAMS = ('atom_detection', 'image_alignment', 'graph_alignment')
LOWER, HIGHER = ('loss', 'error'), ('accuracy',)


def is_glob(t, n):
  return isinstance(t, T.Term) and t.op == 'glob' and (t.args[0] == n or t.args[0].endswith('.' + n))


def calls(t, n):
  return [x for x in T.subterms(t) if x.op == 'call' and is_glob(x.args[0], n)]


PLAIN = {}


def plain(t):
  """The value without versions and call numbers."""
  r = PLAIN.get(t)
  if r is None:
    r = PLAIN[t] = plain_(t)
  return r


def plain_(t):
  def f(x):
    if x.op == 'at':
      return plain(x.args[0])
    if x.op in ('call', 'mcall') and x.args[-1] is not None:
      return mk(x.op, *[part(y) for y in x.args[:-1]], None)
    return None

  def part(y):
    if isinstance(y, T.Term):
      return plain(y)
    return tuple(part(z) for z in y) if isinstance(y, tuple) else y
  return T.subst(t, f)


def apply(lam, args):
  h, n, body = lam.args
  return T.subst(body, lambda x: args[x.args[1]] if x.op == 'lbv' and x.args[0] == h and isinstance(x.args[1], int) and x.args[1] < len(args) else None)


def aux(t):
  """Auxiliary outputs of a differentiated function are what the function computes."""
  def f(x):
    if x.op == 'item' and x.args[0].op == 'call' and T.is_num(x.args[1]):
      c = x.args[0]
      g = c.args[0]
      if g.op == 'call' and g.args[1] and g.args[1][0].op == 'lam':
        n = T.cval(x.args[1])
        if (is_glob(g.args[0], 'jax.grad') and n == 1) or (is_glob(g.args[0], 'jax.value_and_grad') and n == 0):
          v = apply_kw(g.args[1][0], c)
          return None if v is None else aux(item(v, 1) if n == 1 else v)
    return None
  return T.subst(t, f)


def apply_kw(lam, c):
  """A function applied, its keyword arguments bound by name; None when they are not known."""
  kw, args = dict(c.args[2]), list(c.args[1])
  if len(args) < lam.args[1]:
    ps = LAM_NAMES.get(lam)
    if ps is None or not kw:
      return None
    for n in ps[len(args):]:
      if n in kw:
        args.append(kw[n])
      elif '**' in kw:
        args.append(mk('item', kw['**'], T.const(n)))
      else:
        return None
  return apply(lam, args)


def item(t, i):
  return t.args[i] if t.op == 'tuple' and i < len(t.args) else mk('item', t, T.const(i))


def dict_of(t):
  """Constant-keyed dictionary term -> python dict."""
  if t.op == 'dict' and all(k.op == 'const' for k, _ in t.args):
    return {T.cval(k): v for k, v in t.args}
  if t.op == 'dset' and t.args[1].op == 'const':
    d = dict_of(t.args[0])
    return None if d is None else {**d, T.cval(t.args[1]): t.args[2]}
  if t.op == 'dupdate':
    a, b = dict_of(t.args[0]), dict_of(t.args[1])
    return None if a is None or b is None else {**a, **b}
  return None


def kwargs_of(kw):
  """Keyword arguments, with expanded dictionaries."""
  out = {}
  for k, v in kw:
    if k == '**':
      d = dict_of(v)
      if d is None:
        return None
      out.update(d)
    else:
      out[k] = v
  return out


def split_not(t):
  """Branches of a phi."""
  if t.op == 'phi':
    return split_not(t.args[1]) + split_not(t.args[2])
  return [t]


def reported_by(A, name):
  """The metrics a training program checkpoints, or None when they are not known."""
  P = Program(A, name)
  out = None
  for e in P.run.events:
    if e.kind == 'call' and e.d.get('name') == 'save' and 'metrics' in (e.d.get('kwargs') or {}):
      src = P.sources(P.run.it.closed(e.d['kwargs']['metrics']))
      out = set() if out is None else out
      for pre, coll in src or [('', None)]:
        red, took = reduced(coll) if coll is not None else (None, False)
        cls = fresh(P, red.args[1][2], took)[0] if red is not None and len(red.args[1]) == 3 else None
        if cls is None:
          return None
        out |= {pre + k for k in P.collections[cls]}
  return out


class Step:
  """One step function as the training program uses it."""

  def __init__(self, A, fn, init):
    self.A, self.fn, self.init = A, fn, init
    self.ok = False
    kw, args = {}, ()
    name = fn
    while name.op == 'partial':
      args, kw = tuple(name.args[1]) + args, {**dict(name.args[2]), **kw}
      name = name.args[0]
    consts = {k: v for k, v in kw.items() if v.op == 'const'}
    if name.op == 'glob' and name.args[0] in A.prog.funcs:
      f = A.prog.funcs[name.args[0]]
      pos, ko, _ = f.params()
      self.first, self.second = pos[0], pos[1]
      consts = {k: v for k, v in consts.items() if k in pos + ko}
      self.run = A.node(f, params=consts, names=['carried', 'batch'] if not args else None)
      self.where, self.name = f.where, f.name
      self.result = aux(self.run.result)
      self.carried = mk('param', 'carried' if not args else pos[0])
      self.kw = {k: v for k, v in kw.items() if k not in consts}
      self.ok = True
    elif name.op == 'lam' and not args:
      self.carried, batch = mk('param', 'carried'), mk('param', 'batch')
      self.result = aux(apply(name, [self.carried, batch]))
      self.where, self.name, self.kw, self.ok = '', 'step', kw, True

  def updates(self):
    """(collection updated, values given to it) of a step, or None."""
    out = []
    for t in split_not(self.result):
      m = t
      if t.op == 'mcall' and t.args[0] in ('apply_gradients', 'replace'):
        m = dict(t.args[3]).get('metrics')
      elif t.op == 'call' and is_glob(t.args[0], 'dataclasses.replace'):
        m = dict(t.args[2]).get('metrics')
      out.append((t, m))
    return out

  @property
  def trains(self):
    return any(x.op == 'mcall' and x.args[0] == 'apply_gradients' for x in T.subterms(self.result))

  def metrics(self):
    """Values supplied, by name; None when not recognised, False when the running metrics are not extended."""
    got = None
    for t, m in self.updates():
      if m is None:
        return False, f'{T.show(t, 3)[:200]} does not update the metrics'
      m = plain(m)
      if m.op == 'mcall' and m.args[0] == 'merge' and len(m.args[2]) == 1:
        pair = [m.args[1], m.args[2][0]]
      else:
        return (False, 'the metrics of the batch replace those gathered so far') if m.op == 'mcall' and m.args[0] in ('single_from_model_output', 'empty') else (None, T.show(m, 4)[:200])
      new = [x for x in pair if x.op == 'mcall' and x.args[0] == 'single_from_model_output']
      old = [x for x in pair if x not in new]
      if len(new) != 1 or len(old) != 1:
        return None, T.show(m, 4)[:200]
      base = [self.carried, mk('attr', self.carried, 'metrics')]
      if old[0] not in base:
        return None, f'merged with {T.show(old[0], 4)[:200]}'
      kw = kwargs_of(new[0].args[3])
      if kw is None:
        return None, f'values not known: {T.show(new[0], 5)[:200]}'
      if got is not None and set(got) != set(kw):
        return False, 'the branches of the step supply different metrics'
      got = kw if got is None else {k: T.phi(mk('param', '?'), got[k], kw[k]) if got[k] is not kw[k] else kw[k] for k in kw}
    return (got, '') if got is not None else (None, 'no update')


class Program:
  def __init__(self, A, name):
    self.A, self.name = A, name
    self.mod = A.prog.modules.get(f'{PKG}.{name}.train')
    self.run = A.func(f'{name}.train.train')
    self.collections = {c.qual: self.declared(c) for c in A.prog.classes.values() if c.mod is self.mod and self.collection(c)}

  def collection(self, c):
    return any('metrics.Collection' in (c.mod.resolve_name(dotted(b) or '') or '') for b in c.node.bases)

  def declared(self, c):
    out = {}
    for n in c.node.body:
      if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        a = n.annotation
        src = None
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'from_output' and a.args and isinstance(a.args[0], ast.Constant):
          src = a.args[0].value
        out[n.target.id] = src
    return out

  def sources(self, t):
    """The reported dictionary as [(prefix, collection value)]."""
    t0 = t
    if t.op == 'call' and is_glob(t.args[0], 'tree_map') or t.op == 'call' and is_glob(t.args[0], 'tree_util.tree_map'):
      return self.sources(t.args[1][1])
    if t.op == 'call' and is_glob(t.args[0], 'jax.tree.map'):
      return self.sources(t.args[1][1])
    if t.op == 'dupdate':
      a, b = self.sources(t.args[0]), self.sources(t.args[1])
      return None if a is None or b is None else a + b
    if t.op == 'dict' and not t.args:
      return []
    if t.op == 'dictmap' and len(t.args) == 4:
      h, dom, k, v = t.args
      if v.op == 'mcall' and v.args[0] == 'item' and not v.args[2]:
        v = v.args[1]
      pre = None
      if k.op == 'strcat' and len(k.args) == 2 and k.args[0].op == 'const':
        pre = T.cval(k.args[0])
      base = v.args[0] if v.op == 'item' else None
      while base is not None and base.op == 'call' and is_glob(base.args[0], 'tree_map'):
        base = base.args[1][1]
      if pre is not None and base is not None and base.op == 'mcall' and base.args[0] == 'compute':
        return [(pre, base.args[1])]
    return None


def strip(t):
  while t.op == 'at':
    t = t.args[0]
  return t


def reduced(t):
  """The reduction over batches a value comes from: (value, whether its `metrics` was taken)."""
  t, took = strip(t), False
  if t.op == 'attr' and t.args[1] == 'metrics':
    t, took = strip(t.args[0]), True
  return (t, took) if t.op == 'call' and is_glob(t.args[0], 'functools.reduce') else (None, took)


def fresh(P, init, took):
  """(collection class, state) a reduction starts from; collection None: carried over."""
  init = strip(init)
  if took:
    if init.op == 'mcall' and init.args[0] == 'replace' and 'metrics' in dict(init.args[3]):
      m, s = dict(init.args[3])['metrics'], init.args[1]
    elif init.op == 'call' and is_glob(init.args[0], 'dataclasses.replace') and 'metrics' in dict(init.args[2]):
      m, s = dict(init.args[2])['metrics'], init.args[1][0]
    else:
      return None, init, False
  else:
    m, s = init, None
  m = strip(m)
  if m.op == 'call' and m.args[0].op == 'glob' and m.args[0].args[0].endswith('.empty') and m.args[0].args[0][:-6] in P.collections:
    return m.args[0].args[0][:-6], s, True
  return None, s, False if any(carried(x) for x in split_not(m)) else None


def carried(t):
  """A value of an earlier epoch."""
  t = strip(t)
  while t.op == 'attr':
    t = strip(t.args[0])
  return t.op == 'mu'


def better(rule):
  """[(metric, whether higher is preferred)] of a selection rule."""
  if rule.op != 'lam':
    return None
  body = rule.args[2]
  terms = T.poly_terms(body) if body.op == 'poly' else [(1, ((body, 1),))]
  out = []
  for c, m in terms:
    if len(m) != 1 or m[0][1] != 1:
      return None
    b = m[0][0]
    if b.op == 'item' and b.args[0].op == 'lbv' and b.args[1].op == 'const':
      out.append((T.cval(b.args[1]), c > 0))
    else:
      return None
  return out


def wants_higher(name):
  n = name.rsplit('/', 1)[-1]
  if any(w in n for w in LOWER):
    return False
  return True if any(w in n for w in HIGHER) else None


def selection(A, where_fn, events, what, reported):
  """Checks the rule(s) of a checkpoint manager against the metrics reported."""
  for e in events:
    if e.kind != 'call' or not is_glob(e.d.get('fn'), 'CheckpointManagerOptions'):
      continue
    kw = dict(e.d.get('kwargs') or {})
    if 'best_fn' not in kw:
      continue
    rule = better(where_fn.it.closed(kw['best_fn']))
    low = kw.get('best_mode')
    fn = where_fn.it.closed(kw['best_fn'])
    if fn.op == 'lam':
      used = {T.cval(x.args[1]) for x in T.subterms(fn.args[2]) if x.op == 'item' and x.args[0].op == 'lbv' and x.args[1].op == 'const' and isinstance(T.cval(x.args[1]), str)}
      seen = [k for k in used if k.startswith('train/')]
      if used:
        A.ob('best-checkpoint', f'{what}: validation', not seen, f'chosen by {sorted(used)}', e.where)
    if rule is None or low is not None and low.op != 'const':
      A.ob('best-checkpoint', f'{what}: rule', None, f'selection not known: {T.show(where_fn.it.closed(kw["best_fn"]), 6)[:200]}', e.where)
      continue
    for k, up in rule:
      if low is not None and T.cval(low) == 'min':
        up = not up
      if reported is None:
        A.ob('best-checkpoint', f'{what}: {k}', None, 'the reported metrics are not known', e.where)
      else:
        A.ob('best-checkpoint', f'{what}: {k} is reported', k in reported, f'reported: {sorted(reported)}', e.where)
      h = wants_higher(k)
      A.ob('best-checkpoint', f'{what}: {k} in its direction', None if h is None else h == up, f'{"higher" if up else "lower"} is preferred', e.where)


def flat_argmax(A, what, v, where):
  """Class predictions are compared with labels example by example."""
  n = 0
  for x in T.subterms(v):
    if x.op == 'eq':
      sides = [y for y in x.args if y.op == 'call' and is_glob(y.args[0], 'argmax')]
      if len(sides) == 2:
        ax = []
        for y in sides:
          kw = dict(y.args[2])
          ax.append(y.args[1][1] if len(y.args[1]) > 1 else kw.get('axis', T.NONE))
        n += 1
        ok = False if T.NONE in ax and ax[0] is not ax[1] else True if ax[0] is ax[1] and ax[0] is not T.NONE else None
        A.ob('per-example', what, ok, f'classes taken over axes {", ".join(T.show(a, 2) for a in ax)}', where)
  return n


def check(A):
  A.nf, A.vocab = libnf.nf, False
  for name in PROGRAMS:
    program(A, name)


def program(A, name):
  P = Program(A, name)
  r = P.run
  it = r.it
  for q, d in P.collections.items():
    c = q.rsplit('.', 1)[-1]
    for f, src in d.items():
      A.ob('declared', f'{name}: {c}.{f}', None if src is None else src == f, f'reads output {src!r}', '')
  saves = [e for e in r.events if e.kind == 'call' and e.d.get('name') == 'save' and 'items' in (e.d.get('kwargs') or {})]
  logged = [e for e in r.events if e.kind == 'call' and (e.d.get('name') == 'write_values' or is_glob(e.d.get('fn'), 'write_values') or e.d.get('name') == 'write_scalars')]
  withm = [e for e in saves if 'metrics' in e.d['kwargs']]
  if not withm:
    A.ob('reported', f'{name}: checkpoints', None, 'no checkpoint with metrics found', r.where)
    return
  reported, steps = set(), {}
  for e in withm:
    m = it.closed(e.d['kwargs']['metrics'])
    src = P.sources(m)
    if src is None:
      A.ob('reported', f'{name}: metrics', None, f'not known how they are put together: {T.show(m, 6)[:300]}', e.where)
      reported = None
      break
    for pre, coll in src:
      red, took = reduced(coll)
      kind = 'train' if pre.startswith('train') else 'eval'
      if red is None:
        A.ob('reported', f'{name}: {pre}', False if strip(coll).op in ('mu', 'param') else None, f'{T.show(coll, 4)[:200]} is not gathered over the batches', e.where)
        reported = None
        continue
      fn, data, init = (list(red.args[1]) + [T.NONE] * 3)[:3]
      cls, state, ok = fresh(P, init, took)
      A.ob('reset', f'{name}: {pre}', True if cls else False if ok is False else None, f'starts from {T.show(strip(init), 3)[:160]}', e.where)
      st = Step(A, fn, init)
      steps[kind] = (st, red, state, data)
      if cls is None or reported is None:
        reported = None
        continue
      reported |= {pre + k for k in P.collections[cls]}
      if not st.ok:
        A.ob('supplied', f'{name}: {pre}', None, f'step not known: {T.show(fn, 4)[:160]}', e.where)
        continue
      kw, why = st.metrics()
      if kw is None or kw is False:
        A.ob('supplied', f'{name}: {st.name} ({pre})', kw, why, st.where)
        continue
      want = {s for s in P.collections[cls].values()}
      A.ob('supplied', f'{name}: {st.name} ({pre})', want == set(kw), f'declared {sorted(map(str, want))}, supplied {sorted(kw)}', st.where)
      st.values = kw
      for k, v in kw.items():
        flat_argmax(A, f'{name}: {st.name}: {k}', plain(v), st.where)
    # written as saved
    same = [g for g in logged if any(it.closed(x) is m for x in list(g.d['args']) + list((g.d.get('kwargs') or {}).values()))]
    A.ob('reported', f'{name}: metrics saved are those written', True if same else written(P, it, logged, src), f'{len(same)} of {len(logged)}', e.where)
    steps_ok(A, name, r, e, steps, saves, same)
  if 'train' in steps and 'eval' in steps:
    agree(A, name, steps)
  selection(A, r, r.events, name, reported)
  batches(A, name, r, steps)


def written(P, it, logged, src):
  """Whether other metrics than those saved are written."""
  for g in logged:
    for x in list(g.d['args']) + list((g.d.get('kwargs') or {}).values()):
      other = P.sources(it.closed(x))
      if other:
        return None if {p for p, _ in other} >= {p for p, _ in src} else False
  return None


def steps_ok(A, name, r, e, steps, saves, same):
  it = r.it
  if 'train' in steps and steps['train'][0].ok:
    st, red, state, _ = steps['train']
    A.ob('training-step', f'{name}: {st.name}', st.trains, 'applies gradients' if st.trains else 'never applies gradients', st.where)
  if 'eval' in steps and steps['eval'][0].ok:
    st, red, state, _ = steps['eval']
    A.ob('validation-step', f'{name}: {st.name}', not st.trains, 'leaves the parameters alone' if not st.trains else 'applies gradients while validating', st.where)
    if state is None:
      state = next((v for k, v in st.kw.items() if k == 'state'), None)
    tr = steps.get('train')
    if state is not None and tr is not None:
      got = reduced(state)[0]
      A.ob('validation-step', f'{name}: parameters validated', got is tr[1] if got is not None else False if strip(state).op in ('mu', 'param') else None,
           'the state after the epoch' if got is tr[1] else f'{T.show(state, 3)[:160]}', e.where)
  # the state saved is the trained one
  if 'train' in steps:
    items = it.closed(e.d['kwargs']['items'])
    reds = [x for x in T.subterms(items) if x.op == 'call' and is_glob(x.args[0], 'functools.reduce')]
    A.ob('saved-state', f'{name}: checkpoint', steps['train'][1] in reds if reds else False if any(x.op == 'mu' for x in T.subterms(items)) else None, f'{T.show(items, 3)[:160]}', e.where)
  if same:
    a, b = e.d['kwargs'].get('step'), [x for g in same for x in [(g.d.get('kwargs') or {}).get('step')] if x is not None]
    if a is not None and b:
      A.ob('reported', f'{name}: same step', all(it.closed(a) is it.closed(x) for x in b), T.show(it.closed(a), 3)[:120], e.where)


def agree(A, name, steps):
  """Metrics of one name are one formula in training and validation."""
  (a, *_), (b, *_) = steps['train'], steps['eval']
  va, vb = getattr(a, 'values', None), getattr(b, 'values', None)
  if va is None or vb is None:
    return

  def norm(st, v):
    base, whole = st.carried, plain(steps['train'][1])
    bound = {mk('param', n): plain(x) for n, x in st.kw.items() if n != 'state'}

    def f(x):
      if x is whole:
        return mk('param', 'state')
      if x.op == 'attr' and x.args[0] is base:
        return mk('attr', mk('param', 'state'), *x.args[1:])
      return bound.get(x)
    return T.subst(plain(v), f)
  for k in sorted(set(va) & set(vb)):
    p, q = norm(a, va[k]), norm(b, vb[k])
    A.same('one-formula', f'{name}: {k} in training and validation', p, q, a.where)
  for k in sorted(va):
    if k.startswith('final_step_') and k[11:] in va:
      yes = only_final(va[k[11:]])
      if yes is not None:
        A.same('final-step', f'{name}: {k} is {k[11:]} of the final step', norm(a, va[k]), norm(a, yes), a.where)
        every = norm(a, va[k[11:]].args[2])
        last = [False]

        def drop(x):
          if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and x.args[1].args[0] is T.const(...) and T.is_num(x.args[1].args[1]):
            last[0] = last[0] or T.cval(x.args[1].args[1]) != -1
            return drop_all(x.args[0])
          return None

        def drop_all(t):
          return T.subst(t, drop)
        got = drop_all(norm(a, va[k]))
        A.ob('final-step', f'{name}: {k} is the last step of {k[11:]}', not last[0] if got is every else None, T.show(norm(a, va[k]), 4)[:160], a.where)


def only_final(v):
  """A value when training looks at the final step only."""
  if v.op == 'phi' and v.args[0].op in ('param', 'attr'):
    return v.args[1]
  return None


def batches(A, name, r, steps):
  """Training and validation data, and the size of their batches."""
  want = {'train': 'train', 'eval': 'test'}
  for kind, (st, red, state, data) in steps.items():
    loads = loaders(plain(data))
    got = [dict(x.args[2]).get('split') for x in loads]
    known = [T.cval(x) for x in got if x is not None and x.op == 'const']
    A.ob('data', f'{name}: batches for {kind}', None if not got or len(known) < len(got) else set(known) == {want[kind]}, f'split {known if known else "not known"}', st.where)
    sizes = [dict(x.args[2]).get('batch_size') for x in loads]
    for y in [z for x in calls(plain(data), 'islice') for z in x.args[1][1:]]:
      if y.op == 'floordiv' and y.args[0].op == 'attr' and 'steps_per_epoch' in y.args[0].args[1]:
        A.ob('batch-size', f'{name}: examples of an epoch ({kind})', kind in y.args[0].args[1], f'{T.show(y, 4)}', st.where)
        if sizes and all(b is not None for b in sizes):
          A.ob('batch-size', f'{name}: steps counted by the size of the batches ({kind})', all(plain(b) is y.args[1] for b in sizes),
               f'{T.show(y.args[1], 3)} against batches of {", ".join(sorted(T.show(b, 3) for b in sizes))}', st.where)
        break


def loaders(t):
  """The calls from which examples are read; the specification of a data set is not its data."""
  t = T.subst(t, lambda x: mk('spec') if x.op == 'attr' and x.args[1] == 'element_spec' else None)
  return [x for x in T.subterms(t) if x.op == 'call' and any(k == 'split' for k, _ in x.args[2])]
