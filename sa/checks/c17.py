"""Rewards and discounts: the discount, reward and observation fields of every time step of the environment and of the
microscope agent, and the goal's reward, equal the reference values over symbolic observations: the discount constant
raised to the elapsed seconds of the very observation the features, reward and report are computed from."""
from . import envmodel as E
from .. import terms as T
from ..core import field
from ..terms import mk

MIN_OBLIGATIONS = 10
TECHNIQUE = 'value-graph comparison of time-step fields (exact arithmetic on elapsed times) against a reference model'


def check(A):
  for name in ('reset', 'step'):
    r, s = E.pair(A, name)
    for f in ('discount', 'reward', 'observation'):
      E.same_field(A, 'time-step', f'PuttingDuneEnvironment.{name}', r, s, f)
    E.same_attr(A, 'observation-kept', E.ENV, name, r, s, 'last_microscope_observation')
    E.same_calls(A, 'same-observation', f'PuttingDuneEnvironment.{name}', r, s)
  E.goal_reward(A)
  E.agent_steps(A, ('discount', 'reward', 'observation'))
