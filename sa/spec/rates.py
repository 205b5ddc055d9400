"""Reference model of the rate-learning data path."""
import functools
import jax
from jax import numpy as jnp
import numpy as np
from putting_dune import constants, geometry, graphene
from putting_dune.pipeline import train_rate_learner, trajectories_to_transitions
from putting_dune.rate_learning import data_utils, learn_rates


def position_rotations(context, num_states=3):
  return jnp.stack([geometry.jnp_rotate_coordinates(context, 2 * n * jnp.pi / num_states) for n in range(num_states)], 0)


def rate_rotations(rates, num_states=3):
  return jnp.stack([jnp.roll(rates, n, 0) for n in range(num_states)], 0)


def state_rotations(states, num_states=3):
  return jnp.stack([(states + n) % num_states for n in jnp.arange(num_states)], 0)


def transition_rotations(states, times, rates, position, context=None, num_states=3):
  return ((data_utils.get_all_state_rotations(states - 1, num_states=num_states) + 1) * jnp.sign(states[None]),
          jnp.stack([times] * num_states),
          data_utils.get_all_rate_rotations(rates, num_states=num_states),
          data_utils.get_all_position_rotations(position, num_states=num_states),
          None if context is None else jnp.stack([context] * num_states))


def reflect(states, times, rates, position, context=None, num_states=3):
  if num_states != 3:
    raise NotImplementedError('')
  return ((jnp.array([0, 2, 1])[states - 1] + 1) * jnp.sign(states), times, jnp.array([[1, 0, 0], [0, 0, 1], [0, 1, 0]]) @ rates,
          jnp.array(((1, 0), (0, -1))) @ position, context)


def rotate_dataset(states, times, rates, position, context=None, num_states=3):
  s, t, r, p, c = jax.vmap(functools.partial(data_utils.get_transition_rotations, num_states=num_states), in_axes=(0, 0, 0, 0, 0))(states, times, rates, position, context)
  return (s.reshape(-1, *states.shape[1:]), t.reshape(-1, *times.shape[1:]), r.reshape(-1, *rates.shape[1:]), p.reshape(-1, *position.shape[1:]),
          c if context is None else c.reshape(-1, *context.shape[1:]))


def augment(next_state, dt, rates, position, context=None, reflect=True, num_states=3):
  if reflect:
    s, t, r, p, c = data_utils.reflect_dataset(next_state, dt, rates, position, context)
    next_state = jnp.concatenate([next_state, s])
    dt = jnp.concatenate([dt, t])
    rates = jnp.concatenate([rates, r])
    position = jnp.concatenate([position, p])
    if context is not None:
      context = jnp.concatenate([context, c])
  s, t, r, p, c = data_utils.rotate_dataset(next_state, dt, rates, position, context, num_states=num_states)
  return {'next_state': s, 'dt': t, 'rates': r, 'context': c, 'position': p}


def bootstrap(data, rng):
  n = list(data.values())[0].shape[0]
  chosen = jax.random.choice(rng, a=n, shape=[n], replace=True)
  rest = np.array(list(set(range(n)) - set(np.array(chosen))))
  return {k: a[chosen] for k, a in data.items()}, {k: a[rest] for k, a in data.items()}


def split(data, rng, test_fraction=0.1):
  n = list(data.values())[0].shape[0]
  order = jax.random.choice(rng, a=n, shape=[n], replace=False)
  cut = int(n * test_fraction)
  return {k: a[order[cut:]] for k, a in data.items()}, {k: a[order[:cut]] for k, a in data.items()}


def splits(train_data, num_splits, key, bootstrap=True, augment_data=True, test_fraction=0.1):
  keys = jax.random.split(key, num_splits)
  if bootstrap:
    pairs = [data_utils.bootstrap_dataset(train_data, k) for k in keys]
    train, test = [p[0] for p in pairs], [p[1] for p in pairs]
  elif 1.0 > test_fraction > 0.0:
    pairs = [data_utils.split_dataset(train_data, k, test_fraction) for k in keys]
    train, test = [p[0] for p in pairs], [p[1] for p in pairs]
  else:
    assert test_fraction == 0
    train, test = [train_data] * num_splits, [train_data] * num_splits
  if augment_data:
    train = [data_utils.augment_data(**d) for d in train]
    test = [data_utils.augment_data(**d) for d in test]
  n = min([d['context'].shape[0] for d in test])
  test = [{k: a[:n] for k, a in d.items()} for d in test]
  train = {k: jnp.stack([d[k] for d in train]) for k in train_data.keys()}
  test = {k: jnp.stack([d[k] for d in test]) for k in train_data.keys()}
  if 'position' in train and 'context' in train:
    train['context'] = jnp.concatenate([train['context'], train['position']], -1)
    test['context'] = jnp.concatenate([test['context'], test['position']], -1)
    del train['position']
    del test['position']
  return train, test


def pipeline(args):
  trajectories = train_rate_learner.load_trajectories_from_records(args.source_path)
  transitions = trajectories_to_transitions.trajectories_to_transitions(
      trajectories, previous_controls_at_current_timestep=args.previous_controls_at_current_timestep)
  points = train_rate_learner.transitions_to_datapoints(transitions, args, args.plot_transitions, save_path=None, show_plots=False)
  data = train_rate_learner.stack_data(points, use_current=args.use_current, use_voltage=args.use_voltage,
                                       dwell_time_in_context=args.learner_type != train_rate_learner.LearnerType.RATE_NETWORK)
  if args.learner_type != train_rate_learner.LearnerType.RATE_NETWORK:
    data['dt'].fill(1)
  if args.learner_type == 1:
    predictor = learn_rates.LearnedTransitionRatePredictor()
    predictor.train({k: jnp.asarray(v) for k, v in data.items()}, 0)
    predictor.distill(data_utils.augment_data(**data))
  else:
    train, test = learn_rates.create_dataset_splits({k: jnp.asarray(v) for k, v in data.items()})
    for i in range(args.num_models):
      train_rate_learner.train_sklearn_classifier(0, {k: np.asarray(v[i]) for k, v in train.items()}, {k: np.asarray(v[i]) for k, v in test.items()})


def fitted(model, training_data, testing_data):
  model.fit(training_data['context'], training_data['next_state'])
  score = model.score(testing_data['context'], testing_data['next_state'])
  return model, model.score(training_data['context'], training_data['next_state']), score


def synthetic_prior(num_data, num_states, context_dim, actual_time_range):
  def one(key):
    position = jax.random.multivariate_normal(key, mean=constants.SIGR_PRIOR_RATE_MEAN, cov=constants.SIGR_PRIOR_RATE_COV * 1.5)
    context = jax.random.normal(key, shape=(context_dim,))
    rates = graphene.single_silicon_prior_rates(data_utils.get_all_position_rotations(position, num_states=num_states)[-jnp.arange(num_states)],
                                                constants.SIGR_PRIOR_RATE_MEAN, constants.SIGR_PRIOR_RATE_COV, constants.SIGR_PRIOR_MAX_RATE)
    total = jnp.sum(rates, -1)
    chosen = jax.random.choice(key, len(rates), (), p=rates / total)
    turns = jax.random.randint(key, (), 0, num_states)
    wait = -jnp.log(jax.random.uniform(key, (1,), dtype=jnp.float32)) / total
    dt = jax.random.uniform(key, (1,), minval=actual_time_range[0], maxval=actual_time_range[1])
    return {'next_state': (wait < dt) * ((chosen + turns) % num_states + 1), 'dt': dt, 'rates': jnp.roll(rates, turns, 0), 'context': context,
            'position': geometry.jnp_rotate_coordinates(position, 2 * turns * jnp.pi / num_states)}
  sample = jax.vmap(one)
  return sample(jax.random.split(0, num_data)), sample(jax.random.split(0, num_data))
