"""Models of small external libraries, written from their documentation; loaded into every program."""

DM_ENV = '''
import abc
import dataclasses
import enum
from typing import Any, Optional

class StepType(enum.IntEnum):
  FIRST = 0
  MID = 1
  LAST = 2

@dataclasses.dataclass(frozen=True)
class TimeStep:
  step_type: Any
  reward: Any
  discount: Any
  observation: Any
  def first(self) -> bool:
    return self.step_type == StepType.FIRST
  def mid(self) -> bool:
    return self.step_type == StepType.MID
  def last(self) -> bool:
    return self.step_type == StepType.LAST

class Environment(abc.ABC):
  @abc.abstractmethod
  def reset(self) -> TimeStep:
    pass
  @abc.abstractmethod
  def step(self, action) -> TimeStep:
    pass

def restart(observation):
  return TimeStep(StepType.FIRST, None, None, observation)

def transition(reward, observation, discount=1.0):
  return TimeStep(StepType.MID, reward, discount, observation)

def termination(reward, observation):
  return TimeStep(StepType.LAST, reward, 0.0, observation)

def truncation(reward, observation, discount=1.0):
  return TimeStep(StepType.LAST, reward, discount, observation)
'''


NEIGHBORS = '''
import numpy

class NearestNeighbors:
  def __init__(self, n_neighbors=5, *, radius=1.0, algorithm='auto', leaf_size=30, metric='minkowski', p=2, metric_params=None, n_jobs=None):
    self.n_neighbors = n_neighbors
    self.metric = 'l2' if metric in ('minkowski', 'euclidean', 'l2') else metric
    self.samples = None

  def fit(self, X, y=None):
    self.samples = X
    return self

  def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
    k = self.n_neighbors if n_neighbors is None else n_neighbors
    indices = numpy.neighbour_indices(self.samples, X, k, self.metric)
    if not return_distance:
      return indices
    return numpy.neighbour_distances(self.samples, X, k, self.metric), indices
'''


def load(prog):
  prog.add_module('pdmodel.neighbors', NEIGHBORS)
  prog.redirect['sklearn.neighbors.NearestNeighbors'] = 'pdmodel.neighbors.NearestNeighbors'
  prog.add_module('pdmodel.dm_env', DM_ENV)
  for n in ('StepType', 'TimeStep', 'Environment', 'restart', 'transition', 'termination', 'truncation'):
    prog.redirect[f'dm_env.{n}'] = f'pdmodel.dm_env.{n}'
