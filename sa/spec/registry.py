"""What becomes of a registered experiment: the components it constructs, put together."""


def adapters(experiment):
  return experiment.get_adapters_and_goal()


def simulator(experiment):
  return experiment.get_simulator_config()


def agent(experiment, rng, adapters_and_goal):
  return experiment.get_agent(rng, adapters_and_goal)


def agent_with_adapters(experiment, rng):
  a = experiment.get_adapters_and_goal()
  return experiment.get_agent(rng, a)


def action_shape(experiment):
  return experiment.get_adapters_and_goal().action_adapter.action_spec.shape


def action_bounds(experiment):
  spec = experiment.get_adapters_and_goal().action_adapter.action_spec
  return (spec.minimum, spec.maximum)


def observation_spec(experiment):
  return experiment.get_adapters_and_goal().feature_constructor.observation_spec()


def features(experiment, observation):
  a = experiment.get_adapters_and_goal()
  return a.feature_constructor.get_features(observation, a.goal)


def act(experiment, rng, time_step):
  a = experiment.get_adapters_and_goal()
  return experiment.get_agent(rng, a).step(time_step)
