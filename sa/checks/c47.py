"""How runs are assembled: drivers build the real environment, agent and evaluation from symbolic parts; the state of every object reachable from what
they return (which part went where, as values of the constructors' results) and the calls made on the parts are compared with a reference model."""
from .. import libnf, terms as T
from ..terms import mk, const
from . import envmodel as E
from .c36 import plain

MIN_OBLIGATIONS = 10
TECHNIQUE = 'abstract heaps of the assembled objects and calls made on their parts, compared with a reference model'
PURE = ('eval_lib.evaluate', 'eval_lib.aggregate_results')
WORDS = (('agent second', 'average_agent_seconds_to_goal'), ('environment second', 'average_environment_seconds_to_goal'), ('env second', 'average_environment_seconds_to_goal'),
         ('second', 'average_seconds_to_goal'), ('action', 'average_num_actions_taken'), ('reward', 'average_total_reward'), ('success', 'average_num_times_reached_goal'),
         ('reached', 'average_num_times_reached_goal'))


def rngs(t):
  """Generators are told apart by what they were seeded with, and constructors of an experiment are never set again."""
  return T.subst(plain(t), lambda x: mk('attr', *x.args[:2]) if x.op == 'attr' and len(x.args) == 3 else x.args[0] if x.op == 'at' else None)


def state(r, t, seen=()):
  """A value with every object built in the run replaced by its class and attributes."""
  def f(x):
    if x.op != 'obj':
      return None
    if x in seen:
      return mk('again', const(seen.index(x)))
    attrs = sorted((k[1], v) for k, v in r.it.heap.items() if k[0] is x)
    return mk('state', x.args[0], *[mk('kw', a, state(r, r.it.closed(v), seen + (x,))) for a, v in attrs])
  return T.subst(libnf.nf(rngs(r.it.closed(t))), f)


def outer(r):
  """Attributes set on objects built elsewhere."""
  out = [mk('kw', k[1], mk('list', rngs(r.it.closed(k[0])), state(r, v))) for k, v in r.it.heap.items() if k[0].op not in ('obj', 'ref', 'new') and k[1] != '[]']
  return mk('list', *sorted(out, key=lambda t: T.show(t, 9)))


def made(r, *names):
  """Calls of the given parts: receiver, arguments, guard and loops."""
  out = []
  for e in r.events:
    if e.kind == 'call':
      fn = e.d.get('fn')
      n = e.d.get('name') or (plain(fn).args[0 if fn.op in ('param', 'glob') else 1] if isinstance(fn, T.Term) and fn.op in ('param', 'glob', 'attr') else '')
      if n in names:
        recv = [e.d['recv']] if isinstance(e.d.get('recv'), T.Term) else []
        out.append((n, mk('list', *[state(r, x) for x in recv + list(e.d['args'])], *[mk('kw', k, state(r, v)) for k, v in sorted(e.d['kwargs'].items())]), e))
  return out


def parts(A, name, r, s, where, *names):
  """The same calls of the parts, in any order, each exactly as often."""
  for n in names:
    got, want = made(r, n), made(s, n)
    guards = {state(s, e.guard()) for _, _, e in want}
    once = all(state(r, e.guard()) in guards for _, _, e in got)
    A.ob('parts', f'{name}: {n.split(".")[-1]}', False if any(e.loops() for _, _, e in got) else len(got) == len(want) if once else None, f'{len(got)} calls, {len(want)} expected', where)
    if len(got) == len(want):
      key = lambda x: T.show(x[1], 12)
      for (_, a, e), (_, b, _) in zip(sorted(got, key=key), sorted(want, key=key)):
        A.same('parts', f'{name}: {n.split(".")[-1]}, of', a, b, e.where() if callable(e.where) else e.where)


def check(A):
  A.nf, A.vocab = libnf.nf, True
  A.known |= {'state', 'again'}
  build = A.prog.func('run_helpers.create_putting_dune_env')
  for n, name in (('env', 'create_putting_dune_env: environment'), ('sim', 'create_putting_dune_env: simulator'), ('goal', 'create_putting_dune_env: goal')):
    r, s = A.spec('wiring.run_' + n), A.know(A.spec('wiring.' + n))
    A._register(r)
    both = lambda x: mk('list', state(x, x.result), *([outer(x)] if n == 'env' else []))
    A.same('assembled', name, both(r), both(s), build.where)
    if n == 'env':
      parts(A, 'create_putting_dune_env', r, s, build.where, 'adapters', 'config')
  delegation(A)
  r, s = A.spec('wiring.run_agent'), A.know(A.spec('wiring.agent'))
  A._register(r)
  w = A.prog.method('microscope_agent.MicroscopeAgent', '__init__').where
  A.same('assembled', 'MicroscopeAgent: parts', state(r, r.result), state(s, s.result), w)
  parts(A, 'MicroscopeAgent', r, s, w, 'get_adapters_and_goal', 'get_agent')
  r, s = A.spec('wiring.run_agent_reset'), A.know(A.spec('wiring.agent_reset'))
  A._register(r)
  parts(A, 'MicroscopeAgent.reset', r, s, A.prog.method('microscope_agent.MicroscopeAgent', 'reset').where, 'reset')
  first(A)
  evaluation(A)


def first(A):
  """The step after construction or a reset opens an episode."""
  stop = E.outside(E.AGENT)
  s = A.spec('agent.reset', cls=E.AGENT, no_inline=stop)
  r = A.method(E.AGENT, 'reset', names=['rng', 'observation'], no_inline=stop)
  E.same_attr(A, 'afresh', E.AGENT, 'reset', r, s, '_is_first_step')
  r = A.method(E.AGENT, '__init__', no_inline=stop)
  v = r.self_attr(A.attr(E.AGENT, '_is_first_step'))
  A.ob('afresh', 'MicroscopeAgent.__init__', v is T.TRUE if v in (T.TRUE, T.FALSE) else None, T.show(v or T.NONE, 3), r.where)


def delegation(A):
  c = A.prog.cls('run_helpers.EnvironmentWrapper')
  for n in ('step', 'reset', 'action_spec', 'discount_spec', 'observation_spec', 'reward_spec', 'close', 'attribute', 'environment'):
    r, s = A.spec('wiring.wrapped_' + n), A.know(A.spec('wiring.' + n))
    A._register(r)
    f = A.prog.lookup(c, {'attribute': '__getattr__'}.get(n, n))
    where = f.where if f is not None else ''
    A.same('delegated', f'EnvironmentWrapper.{n}', state(r, r.result), state(s, s.result), where)
    got, want = [[e for e in x.events if e.kind == 'call' and e.d.get('name') == n] for x in (r, s)]
    A.ob('delegated', f'EnvironmentWrapper.{n}: once', len(got) == len(want) if all(e.guard() is T.TRUE for e in got) else None, f'{len(got)} calls', where)


def evaluation(A):
  for n in ('train', 'microscope'):
    A.know(A.func(f'experiments.registry.create_{n}_experiment'))
  r, s = A.func('eval.main', names=['args'], pure=PURE), A.know(A.spec('wiring.evaluation', pure=PURE))
  parts(A, 'eval.main', r, s, r.where, 'putting_dune.eval_lib.evaluate', 'putting_dune.eval_lib.aggregate_results')
  for e in r.events:
    if e.kind == 'log':
      text, used = e.d['args'][0] if e.d['args'] else None, e.d['args'][1:]
      text = text.args[0] if text is not None and text.op == 'const' and isinstance(text.args[0], str) else ''
      fields = {x.args[1] for a in used for x in T.subterms(r.it.closed(a)) if x.op == 'attr' and str(x.args[1]).startswith('average_')}
      want = next((f for k, f in WORDS if k in text.lower()), None)
      if fields == {'average_agent_seconds_to_goal', 'average_environment_seconds_to_goal'}:
        fields = {'average_seconds_to_goal'}
      if len(fields) == 1 and want:
        A.ob('reported', f'eval.main: {text}', fields == {want}, f'{sorted(fields)[0]}, {want} expected', f'{r.where.split(":")[0]}:{getattr(e.node, "lineno", 0)}')
