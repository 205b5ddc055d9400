"""Reference model of the learned rate network: context layout and decoding of its outputs."""
import functools

import jax
from jax import numpy as jnp
from jax.experimental import jax2tf
import numpy as np
import optax
from putting_dune import geometry, microscope_utils
from putting_dune.pipeline import train_rate_learner
from putting_dune.rate_learning import data_utils, learn_rates


def decode(out):
  return jax.nn.softmax(out[..., :-1], axis=-1) * out[..., -1:]


def loss(params, network_state, apply_fn, next_state, elapsed_time, did_transition, context, key, is_training=True, class_loss_weight=1.0, rate_loss_weight=1.0):
  out, network_state = apply_fn(params, network_state, key, context, is_training)
  total = out[..., -1]
  stay = -total * elapsed_time
  moved = jnp.log(1 - jnp.clip(jnp.exp(stay), a_max=1 - 1e-6))
  rate_loss = -(did_transition * moved + (1 - did_transition) * stay)
  log_p = jax.nn.log_softmax(out[..., :-1], axis=-1)
  class_loss = -(log_p[jnp.arange(next_state.shape[0]), next_state - 1] * did_transition)
  return jnp.mean(class_loss * class_loss_weight + rate_loss * rate_loss_weight), (network_state, decode(out), rate_loss, class_loss)


def distill_loss(params, network_state, ensemble_params, ensemble_state, key, batch_size, apply_fn, data_mean, data_scale):
  rng, data_key, eval_key = jax.random.split(key, 3)
  x = jax.random.normal(data_key, shape=(batch_size, *data_mean.shape), dtype=jnp.float32) * data_scale + data_mean

  @functools.partial(jax.vmap, in_axes=(0, 0, None, None))
  def teacher(p, s, x, key):
    return decode(apply_fn(p, s, key, x, False)[0])

  target = teacher(ensemble_params, ensemble_state, x, eval_key).mean(0)
  out, network_state = apply_fn(params, network_state, rng, x, True)
  return ((decode(out) - target) ** 2).sum(-1).mean(0), network_state


def apply_model(self, x, key=None, model_index=None):
  if key is None:
    key, self.rng = jax.random.split(self.rng)
  if model_index is None:
    out, _ = self.batch_apply(self.params, self.state, x, key, False)
  else:
    out = self.apply_single_model(model_index, self.params, self.state, x, key, False)[0][None]
  return decode(out).mean(0)


def package_model(self, fixed_context=None):
  fixed = fixed_context if fixed_context is None else jnp.asarray(fixed_context)
  key, self.rng = jax.random.split(self.rng)

  def model(context):
    if fixed_context is not None:
      context = jnp.concatenate([jnp.repeat(fixed[None], context.shape[0], 0), context], axis=-1)
    return decode(self.batch_apply(self.params, self.state, context, key, False)[0]).mean(0)

  self.packaged_model = jax2tf.convert(model, with_gradient=False)


def predict(self, grid: microscope_utils.AtomicGridMaterialFrame, beam_pos: geometry.Point, current_position, neighbor_indices, voltage_kv=60, current_na=0.1):
  if not hasattr(self, 'packaged_model'):
    self.package_model()
  x, _, order = data_utils.standardize_beam_and_neighbors(np.asarray([[beam_pos.x, beam_pos.y]]) - current_position, grid.atom_positions[neighbor_indices, :] - current_position)
  if self.config.use_voltage:
    x = np.concatenate([[[voltage_kv]], x], axis=-1)
  if self.config.use_current:
    x = np.concatenate([[[current_na]], x], axis=-1)
  return np.asarray(self.packaged_model.__call__(x))[0][np.argsort(order)]


def distill(self, train_data, config=learn_rates.distillation_defaults):
  mean = np.concatenate([train_data['context'].mean(0), train_data['position'].mean(0)], 0)
  scale = np.concatenate([train_data['context'].std(0), train_data['position'].std(0)], 0)
  learn_rates.distill_multiple_models_to_single(self.rng, 0, self.apply_fn, self.init_fn, ensemble_params=self.params, ensemble_state=self.state,
                                                batches_per_epoch=config.batches_per_epoch, epochs=config.epochs, batch_size=config.batch_size,
                                                data_mean=mean, data_scale=scale)


def shown(predict_rates, grid_range=1.5, num_points=40_000, fixed_context=None):
  n = int(np.sqrt(num_points))
  xs, ys = np.meshgrid(np.linspace(-grid_range, grid_range, n), np.linspace(-grid_range, grid_range, n))
  coords = np.stack([xs, ys], -1)
  x = coords.reshape(-1, *coords.shape[2:])
  if fixed_context is not None:
    x = np.concatenate([np.repeat(fixed_context[None], num_points, 0), x], axis=-1)
  predict_rates(x)


def configured(points, args):
  train_rate_learner.stack_data(points, use_current=args.use_current, use_voltage=args.use_voltage,
                                dwell_time_in_context=args.learner_type != train_rate_learner.LearnerType.RATE_NETWORK)


def fixed_columns(stacked_context):
  return np.median(stacked_context, axis=0), stacked_context.max(axis=0), stacked_context.min(axis=0), stacked_context.mean(axis=0)


def train_epoch(params, network_state, opt_state, optim, apply_fn, batch_size, key, train_data, train_args):
  size = list(train_data.values())[0].shape[0]
  order = jax.random.permutation(key, jnp.arange(size), independent=True)
  rows = jnp.stack([jax.lax.dynamic_slice_in_dim(order, i * batch_size, batch_size) for i in jnp.arange(0, len(order) // batch_size)])
  batches = {k: a[rows] for k, a in train_data.items()}

  def step(carry, inputs):
    batch, k = inputs
    p, s, o = carry[0], carry[1], carry[2]
    (_, (s, _, _, _)), grad = jax.value_and_grad(learn_rates.batched_loss_fn, has_aux=True)(
        p, s, apply_fn, batch['next_state'], batch['dt'], batch['next_state'] != 0, batch['context'], k, True, train_args.class_loss_weight, train_args.rate_loss_weight)
    updates, o = optim.update(grad, o, params=p)
    return (optax.apply_updates(p, updates), s, o), None

  (params, network_state, opt_state), _ = jax.lax.scan(step, (params, network_state, opt_state), (batches, jax.random.split(key, len(rows))))
  return params, network_state, opt_state, jax.random.PRNGKey(0)


def train_model(train_data, test_data, key, params, network_state, opt_state, apply_fn, optim, train_args=learn_rates.rate_learning_defaults):

  def epoch(carry, k):
    p, s, o, train, test = carry
    p, s, o, k = learn_rates.train_epoch(p, s, o, optim, apply_fn, train_args['batch_size'], k, train, train_args)
    test_loss, (_, _, test_rate, test_class) = learn_rates.batched_loss_fn(
        p, s, apply_fn, test['next_state'], test['dt'], test['next_state'] != 0, test['context'], jax.random.PRNGKey(0), is_training=False)
    train_loss, (_, _, train_rate, train_class) = learn_rates.batched_loss_fn(
        p, s, apply_fn, train['next_state'], train['dt'], train['next_state'] != 0, train['context'], jax.random.PRNGKey(0), is_training=False)
    return (p, s, o, train, test), {'train_loss': train_loss, 'test_loss': test_loss, 'train_rate_loss': jnp.mean(train_rate), 'train_class_loss': jnp.mean(train_class),
                                    'test_rate_loss': jnp.mean(test_rate), 'test_class_loss': jnp.mean(test_class)}

  (params, network_state, opt_state, _, _), metrics = jax.lax.scan(epoch, (params, network_state, opt_state, train_data, test_data), jax.random.split(key, num=train_args['epochs']))
  return params, network_state, opt_state, metrics


def train_multiple_models(train_datasets, test_datasets, key, num_models, optim, apply_fn, init_fn, train_config=learn_rates.rate_learning_defaults):
  assert train_datasets['context'].shape[0] == num_models
  assert test_datasets['context'].shape[0] == num_models
  first = train_datasets['context'][0, 0:1]
  keys = jax.random.split(key, num_models)
  params = [init_fn(k, first)[0] for k in keys]
  states = [init_fn(k, first)[1] for k in keys]
  return jax.vmap(learn_rates.train_model, in_axes=(0, 0, 0, 0, 0, 0, None, None, None))(
      train_datasets, test_datasets, jax.random.split(key, num_models), learn_rates.tree_stack(params), learn_rates.tree_stack(states),
      learn_rates.tree_stack([optim.init(p) for p in params]), apply_fn, optim, train_config)


def distill_train_epoch(params, network_state, ensemble_params, ensemble_state, opt_state, key, batches, optim, batch_size, apply_fn, data_mean, data_scale):

  def step(carry, k):
    p, s, o = carry
    (loss, s), grad = jax.value_and_grad(learn_rates.distill_loss, has_aux=True)(p, s, ensemble_params, ensemble_state, k, batch_size, apply_fn, data_mean, data_scale)
    updates, o = optim.update(grad, o, params=p)
    return (optax.apply_updates(p, updates), s, o), loss

  (params, network_state, opt_state), losses = jax.lax.scan(step, (params, network_state, opt_state), jax.random.split(key, batches))
  return params, network_state, opt_state, jax.random.PRNGKey(0), jnp.mean(losses)


def distill_multiple(key, optim, apply_fn, init_fn, ensemble_params, ensemble_state, epochs, batch_size, batches_per_epoch, data_mean, data_scale):
  params, state = init_fn(key, data_mean[None])
  opt = optim.init(params)
  for i in range(epochs):
    params, state, opt, key, loss = learn_rates.distill_train_epoch(params, state, ensemble_params, ensemble_state, opt, key, batches_per_epoch, optim, batch_size, apply_fn, data_mean, data_scale)
  return params, state


def train(self, train_data, key, bootstrap=True):
  train, test = learn_rates.create_dataset_splits(train_data, self.num_models, key, bootstrap=bootstrap, augment_data=self.config.augment_data, test_fraction=self.config.val_frac)
  optim = optax.adamw(self.config.learning_rate, weight_decay=self.config.weight_decay)
  self.params, self.state, self.opt_state, metrics = learn_rates.train_multiple_models(
      train, test, key, num_models=self.num_models, optim=optim, init_fn=self.init_fn, apply_fn=self.apply_fn, train_config=self.config)
  self.context_dim = train['context'].shape[-1]
  return metrics
