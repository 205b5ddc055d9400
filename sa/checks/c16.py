"""Episode protocol: step type and discount of every time step the environment returns, and the state of its
requires-reset flag after each operation, as case-distinguished values over the symbolic previous state, equal the
reference transition function (a two-state automaton per object, so any interleaving of reset and step calls is covered by
induction on calls).  The step-limit wrapper's transition function (its counter, the reset it forces, the truncation it
substitutes) is compared likewise, over an abstract inner environment."""
from . import envmodel as E
from .. import terms as T
from ..core import field
from ..terms import mk

MIN_OBLIGATIONS = 14
TECHNIQUE = 'typestate: symbolic transition functions (value graph) compared with the reference automaton'


def check(A):
  for name in ('reset', 'step'):
    r, s = E.pair(A, name)
    for f in ('step_type', 'discount'):
      E.same_field(A, 'time-step', f'PuttingDuneEnvironment.{name}', r, s, f)
    E.same_attr(A, 'flag-transition', E.ENV, name, r, s, '_requires_reset')
    E.same_calls(A, 'calls', f'PuttingDuneEnvironment.{name}', r, s)
  r, _ = E.pair(A, 'reset')
  E.ordered(A, 'goal-before-features', 'PuttingDuneEnvironment.reset', r, ('reset', 'goal'), ('get_features', None))
  init = A.method(E.ENV, '__init__', no_inline=E.outside(E.ENV))
  flag = A.attr(E.ENV, '_requires_reset')
  A.same('initial-state', 'PuttingDuneEnvironment.__init__', init.self_attr(flag) or mk('unset'), T.TRUE, init.where)
  # step limit
  for name, ref, names in (('reset', 'limit_reset', []), ('step', 'limit_step', ['action'])):
    s = A.spec(f'environment.{ref}', cls=E.LIMIT, no_inline=E.outside(E.LIMIT))
    r = A.method(E.LIMIT, name, names=names, no_inline=E.outside(E.LIMIT))
    for f in ('step_type', 'discount', 'reward', 'observation'):
      E.same_field(A, 'limit-time-step', f'StepLimitWrapper.{name}', r, s, f)
    E.same_attr(A, 'limit-counter', E.LIMIT, name, r, s, '_elapsed_steps')
    E.same_calls(A, 'limit-calls', f'StepLimitWrapper.{name}', r, s)
  init = A.method(E.LIMIT, '__init__')
  A.same('limit-initial', 'StepLimitWrapper.__init__', init.self_attr(A.attr(E.LIMIT, '_elapsed_steps')) or mk('unset'), T.ZERO, init.where)
  A.same('limit-kept', 'StepLimitWrapper.__init__', init.self_attr(A.attr(E.LIMIT, '_step_limit')) or mk('unset'), mk('param', 'step_limit'), init.where)
  A.same('limit-inner', 'StepLimitWrapper.__init__', init.self_attr(A.attr(E.LIMIT, '_environment')) or mk('unset'), mk('param', 'environment'), init.where)
  # the wrapper wraps the environment that is returned
  mkenv = A.func('run_helpers.create_putting_dune_env', no_inline=lambda f: False)
  news = [e for e in mkenv.events if e.kind == 'new' and e.cls.qual == 'putting_dune.' + E.LIMIT]
  A.ob('limit-applied', 'run_helpers.create_putting_dune_env',
       bool(news) and mkenv.result is news[-1].result if mkenv.result.op in ('obj', 'new') else None,
       f'returns {T.show(mkenv.result, 4)}', mkenv.where)
  if news:
    o = news[-1].result
    sets = [e for e in mkenv.events if e.kind == 'setattr' and e.base is o and e.attr == A.attr(E.LIMIT, '_step_limit')]
    A.same('limit-configured', 'run_helpers.create_putting_dune_env', sets[-1].value if sets else mk('unset'),
           mk('param', 'step_limit'), mkenv.where)
