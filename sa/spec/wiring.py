"""Drivers and reference models of how runs are assembled from an experiment's parts."""
import dm_env
import numpy as np
from putting_dune import eval_lib, goals, microscope_agent, microscope_utils, putting_dune_environment, run_helpers, simulator
from putting_dune import eval as eval_program
from putting_dune.experiments import experiments, registry


def run_env(seed, adapters, config, observers, limit):
  return run_helpers.create_putting_dune_env(
      seed, get_adapters_and_goal=adapters, get_simulator_config=config, simulator_observers=observers, step_limit=limit)


def env(seed, adapters, config, observers, limit):
  parts = adapters()
  sim = config()
  out = run_helpers.StepLimitWrapper(
      putting_dune_environment.PuttingDuneEnvironment(
          sim.material, parts.action_adapter, parts.feature_constructor, parts.goal, image_duration=sim.image_duration),
      limit)
  out.environment.seed(seed)
  for observer in observers:
    out.environment.sim.add_observer(observer)
  return out


def run_sim(seed, adapters, config, observers, limit):
  return run_env(seed, adapters, config, observers, limit).sim


def sim(seed, adapters, config, observers, limit):
  adapters()
  parts = config()
  out = simulator.PuttingDuneSimulator(parts.material, image_duration=parts.image_duration)
  for observer in observers:
    out.add_observer(observer)
  return out


def run_goal(seed, adapters, config, observers, limit):
  return run_env(seed, adapters, config, observers, limit).goal


def goal(seed, adapters, config, observers, limit):
  parts = adapters()
  config()
  return parts.goal


def run_reset(material, action_adapter, feature_constructor, aim: goals.Goal, duration):
  out = putting_dune_environment.PuttingDuneEnvironment(material, action_adapter, feature_constructor, aim, image_duration=duration)
  return out.reset()


def wrapped_step(inner: dm_env.Environment, action):
  return run_helpers.EnvironmentWrapper(inner).step(action)


def step(inner: dm_env.Environment, action):
  return inner.step(action)


def wrapped_reset(inner: dm_env.Environment):
  return run_helpers.EnvironmentWrapper(inner).reset()


def reset(inner: dm_env.Environment):
  return inner.reset()


def wrapped_action_spec(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).action_spec()


def action_spec(inner: dm_env.Environment):
  return inner.action_spec()


def wrapped_discount_spec(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).discount_spec()


def discount_spec(inner: dm_env.Environment):
  return inner.discount_spec()


def wrapped_observation_spec(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).observation_spec()


def observation_spec(inner: dm_env.Environment):
  return inner.observation_spec()


def wrapped_reward_spec(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).reward_spec()


def reward_spec(inner: dm_env.Environment):
  return inner.reward_spec()


def wrapped_close(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).close()


def close(inner: dm_env.Environment):
  return inner.close()


def wrapped_attribute(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).goal


def attribute(inner: dm_env.Environment):
  return inner.goal


def wrapped_environment(inner: dm_env.Environment):
  return run_helpers.StepLimitWrapper(inner, 3).environment


def environment(inner: dm_env.Environment):
  return inner


def run_agent(rng: np.random.Generator, experiment: experiments.MicroscopeExperiment):
  out = microscope_agent.MicroscopeAgent(rng, experiment)
  return [out.agent, out.action_adapter, out.feature_constructor, out.goal]


def agent(rng: np.random.Generator, experiment: experiments.MicroscopeExperiment):
  parts = experiment.get_adapters_and_goal()
  out = experiment.get_agent(rng, parts)
  return [out, parts.action_adapter, parts.feature_constructor, parts.goal]


def run_agent_reset(rng: np.random.Generator, experiment: experiments.MicroscopeExperiment, observation: microscope_utils.MicroscopeObservation):
  microscope_agent.MicroscopeAgent(rng, experiment).reset(rng, observation)


def agent_reset(rng: np.random.Generator, experiment: experiments.MicroscopeExperiment, observation: microscope_utils.MicroscopeObservation):
  parts = experiment.get_adapters_and_goal()
  experiment.get_agent(rng, parts)
  parts.feature_constructor.reset()
  parts.goal.reset(rng, observation)
  parts.action_adapter.reset()


def evaluation(args: eval_program.Args):
  experiment = registry.create_eval_experiment(args.experiment_name)
  parts = experiment.get_adapters_and_goal()
  playing = experiment.get_agent(np.random.default_rng(0), parts)
  playground = run_helpers.create_putting_dune_env(
      0, get_adapters_and_goal=experiment.get_adapters_and_goal, get_simulator_config=experiment.get_simulator_config)
  results = eval_lib.evaluate(playing, playground, eval_lib.EVAL_SUITES[args.eval_suite], video_save_dir=args.video_save_dir)
  eval_lib.aggregate_results(results)
