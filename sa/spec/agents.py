"""Drivers and reference models of the built-in agents."""
import dm_env
import numpy as np
from putting_dune import geometry
from putting_dune.agents import agent_lib, tf_eval_agent
import tensorflow


def run_random(rng: np.random.Generator, low, high, size, time_step: dm_env.TimeStep):
  return agent_lib.UniformRandomAgent(rng, low, high, size).step(time_step)


def random(rng: np.random.Generator, low, high, size, time_step: dm_env.TimeStep):
  return rng.uniform(low, high, size)


def run_random_twice(rng: np.random.Generator, low, high, size, time_step: dm_env.TimeStep):
  agent = agent_lib.UniformRandomAgent(rng, low, high, size)
  agent.step(time_step)
  return agent.step(time_step)


def random_twice(rng: np.random.Generator, low, high, size, time_step: dm_env.TimeStep):
  rng.uniform(low, high, size)
  return rng.uniform(low, high, size)


def run_greedy(rng: np.random.Generator, argmax, sigma, offset, low, high, time_step: dm_env.TimeStep):
  agent = agent_lib.GreedyAgent(
      rng, argmax=argmax, position_noise_sigma=sigma, fixed_offset=offset, low=low, high=high)
  return agent.step(time_step)


def greedy(rng: np.random.Generator, argmax, sigma, offset, low, high, time_step: dm_env.TimeStep):
  if argmax is None:
    raise ValueError('nothing to aim at')
  return aimed(rng, argmax, sigma, offset, time_step)


def aimed(rng: np.random.Generator, aim, sigma, offset, time_step: dm_env.TimeStep):
  deltas = time_step.observation[2:-2].reshape(3, 2)
  best = np.argmin(np.linalg.norm(deltas - time_step.observation[-2:][None], axis=-1), axis=-1)
  aim = aim + offset + rng.normal(0, sigma, size=2)
  return geometry.rotate_coordinates(aim, geometry.get_angles(deltas)[best])


def run_greedy_found(rng: np.random.Generator, rate, resolution, sigma, offset, low, high, time_step: dm_env.TimeStep):
  agent = agent_lib.GreedyAgent(
      rng, transition_function=rate, argmax=None, argmax_resolution=resolution, position_noise_sigma=sigma, fixed_offset=offset, low=low, high=high)
  return agent.step(time_step)


def greedy_found(rng: np.random.Generator, rate, resolution, sigma, offset, low, high, time_step: dm_env.TimeStep):
  return aimed(rng, best_point(rate, resolution, low, high), sigma, offset, time_step)


def run_both(rng: np.random.Generator, rate, argmax, resolution, sigma, offset, low, high, time_step: dm_env.TimeStep):
  agent = agent_lib.GreedyAgent(
      rng, transition_function=rate, argmax=argmax, argmax_resolution=resolution, position_noise_sigma=sigma, fixed_offset=offset, low=low, high=high)
  return agent.step(time_step)


def greedy_both(rng: np.random.Generator, rate, argmax, resolution, sigma, offset, low, high, time_step: dm_env.TimeStep):
  return aimed(rng, best_point(rate, resolution, low, high), sigma, offset, time_step)


def best_point(rate, resolution, low, high):
  n = int((high - low) // resolution)
  line = np.linspace(low, high, n, dtype=np.float32)
  points = np.stack([np.tile(line[None], (n, 1)), np.tile(line[:, None], (1, n))], axis=-1)
  points = np.reshape(points, (-1, points.shape[-1]))
  rates = np.stack([rate(x) for x in points], 0)
  return points[np.argmax(rates[..., 0], axis=-1)]


def run_given(rng: np.random.Generator, argmax, sigma, offset, low, high, resolution, time_step: dm_env.TimeStep):
  agent = agent_lib.GreedyAgent(rng, None, argmax, resolution, sigma, offset, low, high)
  return agent.step(time_step)


def greedy_given(rng: np.random.Generator, argmax, sigma, offset, low, high, resolution, time_step: dm_env.TimeStep):
  return aimed(rng, argmax, sigma, offset, time_step)


def run_none(rng: np.random.Generator, time_step: dm_env.TimeStep):
  return agent_lib.GreedyAgent(rng, argmax=None)


def run_tf(path, time_step: dm_env.TimeStep):
  return tf_eval_agent.TfEvalAgent(path).step(time_step)


def tf(path, time_step: dm_env.TimeStep):
  return tensorflow.saved_model.load(path)(time_step.observation).numpy()


def run_greedy_twice(rng: np.random.Generator, argmax, sigma, offset, low, high, first: dm_env.TimeStep, time_step: dm_env.TimeStep):
  agent = agent_lib.GreedyAgent(
      rng, argmax=argmax, position_noise_sigma=sigma, fixed_offset=offset, low=low, high=high)
  agent.step(first)
  return agent.step(time_step)


def greedy_twice(rng: np.random.Generator, argmax, sigma, offset, low, high, first: dm_env.TimeStep, time_step: dm_env.TimeStep):
  aimed(rng, argmax, sigma, offset, first)
  return aimed(rng, argmax, sigma, offset, time_step)


def others():
  return np.random.default_rng()
