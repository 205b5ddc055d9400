"""Shared: environment, step-limit and goal runs against the reference model."""
from .. import terms as T
from ..core import field
from ..terms import mk

ENV = 'putting_dune_environment.PuttingDuneEnvironment'
LIMIT = 'run_helpers.StepLimitWrapper'
GOAL = 'goals.SingleSiliconGoalReaching'
ME = mk('param', 'self')
_cache = {}


def outside(cls):
  """Methods of other repository classes (simulator, adapters, goal) stay opaque calls."""
  q = f'putting_dune.{cls}.'

  def f(func):
    return func.cls is not None and not func.qual.startswith(q) and not func.qual.startswith('pdmodel')
  return f


def pair(A, name):
  k = (id(A), name)
  if k not in _cache:
    names = {'reset': [], 'step': ['action']}[name]
    spec = A.spec(f'environment.{name}', cls=ENV, no_inline=outside(ENV))
    real = A.method(ENV, name, names=names, no_inline=outside(ENV))
    _cache[k] = (real, spec)
  return _cache[k]


def calls(e):
  if e.kind == 'call' and e.d.get('name') and e.recv is not None and not e.pure:
    return ('call', e.name, e.recv) + tuple(e.args)
  return None


def ts_field(t, f):
  """Field of the returned time step (through case distinctions)."""
  return field(t, f)


def leaf(t, f):
  v = field(t, f)
  if v is not None:
    return v
  if t.op == 'phi':
    return T.phi(t.args[0], leaf(t.args[1], f), leaf(t.args[2], f))
  return mk('attr', t, f)


def same_field(A, rule, construct, r, s, f):
  A.same(rule, f'{construct}:{f}', leaf(r.result, f), leaf(s.result, f), r.where)


def same_attr(A, rule, cls, name, r, s, attr):
  a = A.attr(cls, attr)
  x, y = r.self_attr(a), s.self_attr(a)
  old = mk('attr', ME, a)
  A.same(rule, f'{cls.split(".")[-1]}.{name}:{attr}', x if x is not None else old, y if y is not None else old, r.where)


def same_calls(A, rule, construct, r, s, sel=calls):
  """The sequence of operations on each collaborating object."""
  ta, tb = r.trace(sel), s.trace(sel)
  for recv in sorted({c.label[2] for c in tb} | {c.label[2] for c in ta}):
    A.same_trace(rule, f'{construct}:{T.show(recv, 3)}', [c for c in ta if c.label[2] is recv], [c for c in tb if c.label[2] is recv], r.where)


def ordered(A, rule, construct, r, first, second):
  evs = [e for e in r.events if e.kind == 'call' and e.d.get('name')]
  m = lambda e, x: e.name == x[0] and (x[1] is None or (e.recv is not None and e.recv.op == 'attr' and e.recv.args[1] == x[1]))
  a = [e.seq for e in evs if m(e, first)]
  b = [e.seq for e in evs if m(e, second)]
  A.ob(rule, construct, bool(a) and bool(b) and max(a) < min(b) if a and b else None, f'{first} at {a}, {second} at {b}', r.where)


# ------------------------------------------------------------------ goal
def goal_pair(A, name):
  k = (id(A), 'goal', name)
  if k not in _cache:
    real_name, names = {'goal_reset': ('reset', ['rng', 'initial_observation']),
                        'goal_result': ('calculate_reward_and_terminal', ['observation'])}[name]
    types = {names[-1]: 'microscope_utils.MicroscopeObservation'}
    kw = dict(pure=GOAL_PURE, no_inline=outside(GOAL), types=types)
    s = A.spec(f'environment.{name}', cls=GOAL, **kw)
    _cache[k] = (A.method(GOAL, real_name, names=names, **kw), s)
  return _cache[k]


GOAL_PURE = ('graphene.get_single_silicon_position', 'microscope_utils.MicroscopeFieldOfView.microscope_frame_to_material_frame')


def goal_reward(A):
  r, s = goal_pair(A, 'goal_result')
  for f in ('reward', 'is_terminal', 'is_truncated'):
    same_field(A, 'goal-return', 'SingleSiliconGoalReaching.calculate_reward_and_terminal', r, s, f)


# ------------------------------------------------------------------ agent
AGENT = 'microscope_agent.MicroscopeAgent'
LOGGER = 'microscope_agent.MicroscopeAgentLogger'


def agent_pair(A, name):
  k = (id(A), 'agent', name)
  if k not in _cache:
    names = {'reset': ['rng', 'observation'], 'step': ['observation']}[name]
    kw = dict(no_inline=outside(AGENT))
    s = A.spec(f'agent.{name}', cls=AGENT, **kw)
    _cache[k] = (A.method(AGENT, name, names=names, **kw), s)
  return _cache[k]


def agent_steps(A, fields):
  r, s = agent_pair(A, 'step')
  pick = lambda run: [e for e in run.events if e.kind == 'call' and e.d.get('name') == 'step' and e.recv is not None
                      and e.recv.op == 'attr' and e.recv.args[1] == 'agent']
  a, b = pick(r), pick(s)
  if not A.ob('agent-step', 'MicroscopeAgent.step', len(a) == 1 and len(a[0].args) >= 1, f'{len(a)} calls of the agent', r.where):
    return
  x, y = r.it.closed(a[0].args[0]), s.it.closed(b[0].args[0])
  for f in fields:
    A.same('agent-time-step', f'MicroscopeAgent.step:{f}', leaf(x, f), leaf(y, f), a[0].where)
