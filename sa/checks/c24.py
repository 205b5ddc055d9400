"""Agent logger: the transition function of every operation (reset, step, flush, leaving the context) on the logger's state
- counters and the contents of its record lists, as values over the symbolic previous state - equals the reference, so any
interleaving of operations is covered by induction on calls; lists handed over to a trajectory are not mutated afterwards
(alias rule); the rows and trajectories flush writes, the files and modes it writes them to, equal the reference; the
context manager flushes exactly when no exception is in flight and swallows none."""
from . import envmodel as E
from .. import terms as T
from ..absint import item_t, len_t
from ..core import field, strip_copy, unknown
from ..terms import mk

MIN_OBLIGATIONS = 24
TECHNIQUE = 'typestate as symbolic transition functions over counters and list contents, alias rule, call-trace comparison'
COUNTERS = ('_episode', '_episode_step', '_episode_return')
LISTS = ('_current_trajectory', '_trajectories', '_step_records', '_episode_records')


def contents(A, run, attr):
  """The list's contents at the end, over the contents the lists had at the start (allocated objects dereferenced; reading a
  list through another list's element is the alias rule's matter)."""
  a = A.attr(E.LOGGER, attr)
  t = mk('attr', E.ME, a)
  v = run.it.heap.get((E.ME, a))
  if v is None:
    v = t
  c = run.it.heap.get((v, '[]'))
  if c is None:
    c = v if v.op != 'attr' else mk('init', v)
  return norm(run.it.deref_new(c, -1))


def norm(t):
  t = strip_copy(t)
  return T.rewrite(t, lambda x: x.args[0] if x.op == 'init' else None)


def handed_over(A, run, name):
  """Records that keep a reference to a logger list: that list is not mutated later in the same operation."""
  for attr in LISTS:
    lst = mk('attr', E.ME, A.attr(E.LOGGER, attr))
    kept = [e for e in run.events if e.kind == 'new' and any(v is lst or run.it.deref(v) is lst for v in e.fields.values())]
    muts = [e for e in run.events if e.kind in ('mutate', 'setitem', 'inplace') and e.d.get('base') is lst]
    late = [m for m in muts for k in kept if m.seq > k.seq]
    A.ob('handed-over-list-kept', f'MicroscopeAgentLogger.{name}:{attr}', not late,
         f'mutated after being stored in a record at {kept[0].where}' if late else '', late[0].where if late else run.where)


def rows(e):
  if e.kind != 'call' or e.d.get('name') not in ('writerow', 'writerows', 'writeheader') or e.d.get('recv') is None:
    return None
  consts = sorted({x.args[0] for x in T.subterms(e.recv) if x.op == 'const' and isinstance(x.args[0], str) and x.args[0].endswith('.csv')})
  return ('row', e.name, tuple(consts)) + tuple(e.args)


def check(A):
  cls = E.LOGGER
  L = 'MicroscopeAgentLogger'
  stop = E.outside(cls)
  # the state an instance starts from
  s = A.spec('agent.logger_init', cls=cls, no_inline=stop)
  r = A.method(cls, '__init__', no_inline=stop)
  for a in COUNTERS:
    E.same_attr(A, 'initial', cls, '__init__', r, s, a)
  for a in LISTS:
    A.same('initial', f'{L}.__init__:{a}', contents(A, r, a), contents(A, s, a), r.where)
  refs = [r.it.heap.get((E.ME, A.attr(cls, a))) for a in LISTS]
  A.ob('separate-lists', f'{L}.__init__', len({id(x) for x in refs}) == len(refs), 'each record list is its own object', r.where)
  for name, names in (('step', ['observation']), ('reset', ['rng', 'observation'])):
    s = A.spec(f'agent.logger_{name}', cls=cls, no_inline=stop)
    r = A.method(cls, name, names=names, no_inline=stop)
    for a in COUNTERS:
      E.same_attr(A, 'counter', cls, name, r, s, a)
    for a in LISTS:
      A.same('records', f'{L}.{name}:{a}', contents(A, r, a), contents(A, s, a), r.where)
    A.same('result', f'{L}.{name}', r.result, s.result, r.where)
    handed_over(A, r, name)
  # what the wrapped agent leaves for the log is the evaluation its own step used
  out = E.outside(E.AGENT)
  E.same_attr(A, 'reward-source', E.AGENT, 'step', A.method(E.AGENT, 'step', names=['observation'], no_inline=out), A.spec('agent.step', cls=E.AGENT, no_inline=out), 'last_goal_return')
  flush(A, stop)
  # context manager
  r = A.method(cls, '__enter__')
  A.same('enter', f'{L}.__enter__', r.result, E.ME, r.where)
  r = A.method(cls, '__exit__', names=['exc_type', 'exc_val', 'exc_tb'], opaque=[cls + '.flush'])
  fl = [e for e in r.events if e.kind == 'call' and (e.d.get('name') == 'flush' or (e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0].endswith('.flush')))]
  ok = T.is_(mk('param', 'exc_type'), T.NONE)
  g = T.or_(*[T.and_(*[r.it.closed(c) for c in e.conds()]) for e in fl]) if fl else T.FALSE
  A.same('flushes-iff-no-error', f'{L}.__exit__', g, ok, r.where)
  A.ob('swallows-nothing', f'{L}.__exit__', r.result in (T.NONE, T.FALSE) if not unknown(r.result) else None, T.show(r.result, 4), r.where)


def flush(A, stop):
  cls, L = E.LOGGER, 'MicroscopeAgentLogger'
  kw = dict(no_inline=stop, pure=('io.write_records',))
  s = A.spec('agent.logger_flush', cls=cls, **kw)
  r = A.method(cls, 'flush', names=[], **kw)
  for a in COUNTERS:
    E.same_attr(A, 'flush-keeps', cls, 'flush', r, s, a)
  for a in LISTS:
    A.same('flush-keeps', f'{L}.flush:{a}', contents(A, r, a), contents(A, s, a), r.where)
  w = lambda run: [e for e in run.events if e.kind == 'call' and e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0] == 'putting_dune.io.write_records']
  a, b = w(r), w(s)
  A.ob('trajectories-written', f'{L}.flush', len(a) == 1 if a else False, f'{len(a)} writes', a[0].where if a else r.where)
  if a:
    for i, n in enumerate(('path', 'records')):
      A.same(f'trajectories-{n}', f'{L}.flush', norm(r.it.closed(arg(a[0], i, n))), norm(s.it.closed(arg(b[0], i, n))), a[0].where)
  for f in ('steps.csv', 'episodes.csv'):
    sel = lambda e, f=f: (lambda l: l if l and f in l[2] else None)(rows(e))
    x, y = written(r, sel), written(s, sel)
    A.same('rows-written', f'{L}.flush:{f}', x, y, r.where)
    op = [e for e in r.events if e.kind == 'call' and (e.d.get('name') == 'open' or (e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0].endswith('open')))
          and any(isinstance(t, T.Term) and T.contains(t, lambda x: x.op == 'const' and x.args[0] == f) for t in [e.d.get('recv')] + list(e.args))]
    modes = [x.args[0] for e in op for x in list(e.args) + list(e.kwargs.values()) if x.op == 'const' and isinstance(x.args[0], str) and len(x.args[0]) <= 3]
    A.ob('file-replaced', f'{L}.flush:{f}', bool(op) and all(m.startswith('w') for m in modes) and bool(modes), f'modes {modes}', op[0].where if op else r.where)
    A.ob('directory', f'{L}.flush:{f}', all(T.contains(mk('tuple', *[t for t in [e.d.get('recv')] + list(e.args) if t is not None]), lambda x: x.op == 'attr' and x.args[1] == A.attr(cls, '_logdir')) for e in op),
         '', op[0].where if op else r.where)


def arg(e, i, name):
  if len(e.args) > i:
    return e.args[i]
  vs = list(e.kwargs.values())
  return e.kwargs.get(name) or (vs[i - len(e.args)] if vs else mk('absent'))


def written(run, sel):
  """The rows written, as one sequence of (kind, value, domain, guard)."""
  out = []
  for c in run.trace(sel):
    kind, args, doms = c.label[1], list(c.label[3:]), list(c.doms)
    if kind == 'writerows':
      # one row per element
      seq = norm(args[0])
      dom = len_t(seq)
      out.append(mk('row', norm(item_t(seq, mk('ixc', len(doms), dom))), mk('doms', *[norm(d) for d in doms], dom), norm(c.guard)))
    else:
      out.append(mk('row' if kind == 'writerow' else 'header', *[norm(a) for a in args], mk('doms', *[norm(d) for d in doms]), norm(c.guard)))
  return mk('rows', *out)

