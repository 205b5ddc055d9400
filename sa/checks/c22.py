"""Evaluation: the returned sequence of results, as a value over the symbolic suite, agent and environment (agent and
environment calls kept as versioned calls, so their order and arguments are part of the value), equals the reference value
field by field; the sequence of calls on the agent, the environment and the clock equals the reference sequence; observers
installed are exactly those removed."""
from .. import files, terms as T
from ..core import map_field
from ..terms import mk
from .c46 import inside, named

MIN_OBLIGATIONS = 9
VIDEO = 'plotting_utils.generate_video_from_simulator_events'
TECHNIQUE = 'value-graph comparison of the result records plus call-trace comparison against a reference model'
FIELDS = ('seed', 'reached_goal', 'num_actions_taken', 'agent_seconds_to_goal', 'environment_seconds_to_goal', 'total_reward')
NAMES = {'set_mode', 'seed', 'reset', 'step'}


def trace(e):
  if e.kind != 'call':
    return None
  if e.d.get('name') in NAMES and e.recv is not None:
    return ('call', e.name, e.recv) + tuple(e.args)
  if e.d.get('fn') is not None and e.fn.op == 'glob' and e.fn.args[0].startswith('time.'):
    return ('call', e.fn.args[0])
  return None


def observers(e):
  if e.kind == 'call' and e.d.get('name') in ('add_observer', 'remove_observer') and e.recv is not None:
    return ('call', e.name, e.recv) + tuple(unnumbered(a) for a in e.args)
  return None


def unnumbered(t):
  """The observer evaluation creates is one object, whatever else is created before it."""
  return T.subst(t, lambda x: mk('obj', x.args[0], 'observer') if x.op == 'obj' and x.args[0].endswith('EventObserver') else None)


def runs(A, **params):
  kw = dict(no_inline=lambda f: f.cls is not None and not f.qual.startswith(('pdmodel', 'putting_dune.eval_lib.')) or f.qual.startswith('putting_dune.eval_lib.EvalSuite'), names=['agent', 'env', 'eval_suite'], params=params, pure=(VIDEO,),
            types={'agent': 'agents.agent_lib.Agent', 'env': 'putting_dune_environment.PuttingDuneEnvironment',
                   'eval_suite': 'eval_lib.EvalSuite'})
  return A.func('eval_lib.evaluate', **kw), A.spec('evaluation.evaluate', **kw)


def check(A):
  r, s = runs(A, video_save_dir=T.NONE)
  for f in FIELDS:
    A.same('result-field', f'eval_lib.evaluate:{f}', map_field(r.result, f), map_field(s.result, f), r.where)
  A.same_trace('call-order', 'eval_lib.evaluate', r.trace(trace, guards=False), s.trace(trace, guards=False), r.where)
  A.same_trace('no-observer-without-video', 'eval_lib.evaluate', r.trace(observers), s.trace(observers), r.where)
  r, s = runs(A, video_save_dir=T.const('videos'))
  A.same_trace('observers-removed', 'eval_lib.evaluate', r.trace(observers), s.trace(observers), r.where)
  A.same_trace('call-order-with-video', 'eval_lib.evaluate', r.trace(trace, guards=False), s.trace(trace, guards=False), r.where)
  videos(A, r, s)


def videos(A, r, s):
  """One video per episode, made of that episode's events, stored under its seed."""
  name = 'eval_lib.evaluate'
  got, want = named(r, 'putting_dune.' + VIDEO), named(s, 'putting_dune.' + VIDEO)
  A.ob('one-video-per-episode', name, len(got) == 1 and len(got[0].loops()) == 1 if got or r.calls() is not None else None,
       f'{len(got)} calls, {[len(e.loops()) for e in got]} loops around them', r.where)
  if len(got) != 1:
    return
  val = lambda q, e, t: unnumbered(inside(e, q.it.closed(t)))
  path = lambda q, e, t: T.subst(files.norm(val(q, e, t)), lambda x: mk('mcall', x.args[0], x.args[1], tuple(x.args[2]) + tuple(v for _, v in x.args[3]), (), *x.args[4:]) if x.op == 'mcall' and x.args[0] == 'open' and isinstance(x.args[3], tuple) and x.args[3] else None)
  A.same('video-condition', name, val(r, got[0], got[0].guard()), val(s, want[0], want[0].guard()), r.where)
  for i, what in enumerate(('events', 'goal')):
    pick = lambda e: e.args[i] if len(e.args) > i else next((v for k, v in e.d['kwargs'].items() if k == ('events', 'goal_position')[i]), T.NONE)
    A.same('video-input', f'{name}:{what}', val(r, got[0], pick(got[0])), val(s, want[0], pick(want[0])), r.where)
  opens = lambda q: [e for e in named(q, 'open') if T.const('wb') in e.args or T.const('wb') in e.d['kwargs'].values()]
  a, b = opens(r), opens(s)
  if len(a) == 1 and isinstance(a[0].d.get('recv'), T.Term):
    A.same('video-file', name, path(r, a[0], a[0].recv), path(s, b[0], b[0].recv), r.where)
  a, b = named(r, 'shutil.copyfileobj'), named(s, 'shutil.copyfileobj')
  if len(a) == 1 and len(a[0].args) == 2:
    A.same('video-content', name, path(r, a[0], mk('list', *a[0].args)), path(s, b[0], mk('list', *b[0].args)), r.where)
