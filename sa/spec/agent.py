"""Reference model of the microscope agent and its logger."""
import csv
import datetime as dt
import typing
import dm_env
from etils import epath
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import io as pdio
from putting_dune import microscope_utils
from putting_dune.goals import GoalReturn, SingleSiliconGoalReaching
from putting_dune.microscope_agent import EpisodeRecord, StepRecord


def reset(self, rng, observation):
  self.feature_constructor.reset()
  self.goal.reset(rng, observation)
  self.action_adapter.reset()
  self._is_first_step = True


def step(self, observation):
  try:
    features = self.feature_constructor.get_features(observation, self.goal)
    g = self.goal.calculate_reward_and_terminal(observation)
  except graphene.SiliconNotFoundError:
    self.last_goal_return = GoalReturn(reward=0.0, is_terminal=False, is_truncated=False)
    return [microscope_utils.BeamControlMicroscopeFrame(microscope_utils.BeamControl(
        position=geometry.Point((0.0, 0.0)), dwell_time=dt.timedelta(seconds=0)))]
  self.last_goal_return = g
  discount = constants.GAMMA_PER_SECOND ** observation.elapsed_time.total_seconds()
  if g.is_terminal:
    ts = dm_env.termination(g.reward, features)
  elif g.is_truncated:
    ts = dm_env.truncation(g.reward, features, discount)
  elif self._is_first_step:
    ts = dm_env.restart(features)
  else:
    ts = dm_env.transition(g.reward, features, discount)
  action = self.agent.step(ts)
  controls = self.action_adapter.get_action(observation, action)
  self._is_first_step = False
  return controls


def step_record(self, observation, g):
  return StepRecord(episode=self._episode, episode_step=self._episode_step, reward=g.reward,
                    elapsed_seconds=observation.elapsed_time.total_seconds(), terminal=g.is_terminal)


def episode_record(self):
  record = EpisodeRecord(episode=self._episode, episode_steps=self._episode_step, episode_return=self._episode_return, episode_goal=None)
  if isinstance(self.__wrapped__.goal, SingleSiliconGoalReaching):
    record = EpisodeRecord(episode=self._episode, episode_steps=self._episode_step, episode_return=self._episode_return,
                           episode_goal=(self.__wrapped__.goal.current_goal.x, self.__wrapped__.goal.current_goal.y))
  return record


def logger_step(self, observation):
  controls = self.__wrapped__.step(observation)
  g = self.__wrapped__.last_goal_return
  self._episode_step += 1
  self._episode_return += g.reward
  self._current_trajectory.append(observation)
  self._step_records.append(step_record(self, observation, g))
  return controls


def logger_reset(self, rng, observation):
  if self._episode_step > 0:
    self._episode_records.append(episode_record(self))
    self._episode += 1
  if self._current_trajectory:
    self._trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
  self._episode_step = 0
  self._episode_return = 0.0
  self._current_trajectory = []
  return self.__wrapped__.reset(rng, observation)


def logger_flush(self):
  trajectories = list(self._trajectories)
  if self._current_trajectory:
    trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
  episodes = list(self._episode_records)
  if self._episode_step != 0:
    episodes.append(episode_record(self))
  pdio.write_records(self._logdir / 'trajectories.tfrecords', trajectories)
  with (self._logdir / 'steps.csv').open('w') as f:
    w = csv.DictWriter(f, fieldnames=typing.get_type_hints(StepRecord).keys())
    w.writeheader()
    for r in self._step_records:
      w.writerow(r)
  with (self._logdir / 'episodes.csv').open('w') as f:
    w = csv.DictWriter(f, fieldnames=typing.get_type_hints(EpisodeRecord).keys())
    w.writeheader()
    for r in episodes:
      w.writerow(r)


def logger_init(self, agent, *, logdir):
  self._episode = 0
  self._episode_return = 0
  self._episode_step = 0
  self._logdir = epath.Path(logdir)
  self._current_trajectory = []
  self._trajectories = []
  self._step_records = []
  self._episode_records = []
