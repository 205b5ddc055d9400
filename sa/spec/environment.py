"""Reference model of the environment, the step limit and the goal."""
import dm_env
import numpy as np
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune.goals import GoalReturn


def power(seconds):
  return constants.GAMMA_PER_SECOND ** seconds


def reset(self):
  self._requires_reset = False
  self.last_microscope_observation = self.sim.reset(self._rng, return_image=self._feature_constructor.requires_image)
  self._action_adapter.reset()
  self._feature_constructor.reset()
  self.goal.reset(self._rng, self.last_microscope_observation)
  o = self.last_microscope_observation
  return dm_env.TimeStep(step_type=dm_env.StepType.FIRST, reward=0.0, discount=power(o.elapsed_time.total_seconds()),
                         observation=self._feature_constructor.get_features(o, self.goal))


def step(self, action):
  if self._requires_reset:
    return reset(self)
  controls = self._action_adapter.get_action(self.last_microscope_observation, action)
  o = self.sim.step_and_image(rng=self._rng, controls=controls, return_image=self._feature_constructor.requires_image)
  self.last_microscope_observation = o
  features = self._feature_constructor.get_features(o, self.goal)
  g = self.goal.calculate_reward_and_terminal(o)
  if g.is_terminal:
    self._requires_reset = True
    return dm_env.termination(g.reward, features)
  discount = power(o.elapsed_time.total_seconds())
  if g.is_truncated:
    self._requires_reset = True
    return dm_env.truncation(g.reward, features, discount)
  return dm_env.transition(g.reward, features, discount)


def limit_reset(self):
  self._elapsed_steps = 0
  return self._environment.reset()


def limit_step(self, action):
  if self._elapsed_steps == -1:
    ts = self._environment.reset()
  else:
    ts = self._environment.step(action)
  if ts.step_type == dm_env.StepType.FIRST:
    self._elapsed_steps = 0
    return ts
  self._elapsed_steps = self._elapsed_steps + 1
  if self._step_limit is not None and self._elapsed_steps >= self._step_limit:
    self._elapsed_steps = -1
    return dm_env.TimeStep(dm_env.StepType.LAST, ts.reward, ts.discount, ts.observation)
  return ts


def goal_reset(self, rng, initial_observation):
  grid, fov = initial_observation.grid, initial_observation.fov
  silicon = graphene.get_single_silicon_position(grid).reshape(1, 2)
  distances = np.linalg.norm(np.asarray([fov.width, fov.height]) * (grid.atom_positions - silicon), axis=1)
  low, high = self.goal_range_angstroms
  valid = grid.atom_positions[(distances < high) & (distances > low)]
  n = valid.shape[0]
  if n == 0:
    raise RuntimeError('')
  self.goal_position_material_frame = fov.microscope_frame_to_material_frame(valid[rng.choice(n)])
  self._consecutive_goal_steps = 0


def goal_result(self, observation):
  silicon = observation.fov.microscope_frame_to_material_frame(graphene.get_single_silicon_position(observation.grid)).reshape(2)
  distance = np.linalg.norm(silicon - self.goal_position_material_frame)
  if distance < constants.CARBON_BOND_DISTANCE_ANGSTROMS * 0.5:
    self._consecutive_goal_steps += 1
  else:
    self._consecutive_goal_steps = 0
  terminal = self._consecutive_goal_steps >= self._required_consecutive_goal_steps_for_termination
  reward = 0.0
  if terminal:
    reward = power(observation.elapsed_time.total_seconds())
  return GoalReturn(reward=reward, is_terminal=terminal, is_truncated=False)


def current_goal(self):
  return geometry.Point(self.goal_position_material_frame[0], self.goal_position_material_frame[1])
