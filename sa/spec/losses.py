"""Reference models of what the training programs minimise."""
import functools
import jax
import jax.numpy as jnp
import optax
from putting_dune.graph_alignment import model as graph_model


def graph_loss(apply_fn, neighbor_update_fn, local_loss_weight, loss_start_timestep, neighbor_list_capacity, cell_list_capacity):
  def one(params, positions, features):
    neighbor = graph_model.create_sparse_neighbor_list(neighbor_list_capacity, positions, neighbor_update_fn, cell_list_capacity).update(positions)
    return apply_fn(params, positions, neighbor, nodes=features)

  def loss_fn(params, positions, features, local_labels, global_labels):
    n = positions.shape[-2] * positions.shape[-3]
    positions = positions.reshape(*positions.shape[:-3], n, positions.shape[-1])
    features = features.reshape(*features.shape[:-3], n, features.shape[-1])
    whole_pred, local_pred = jax.vmap(one, in_axes=(None, 0, 0))(params, positions, features)
    whole = jnp.square(global_labels - whole_pred).sum(-1)
    local = jnp.square(local_labels - local_pred).sum(-1)
    local = (local * features[..., 0].reshape(local.shape)).mean(-1)
    whole, local = whole.mean(0)[loss_start_timestep:].mean(), local.mean(0)[loss_start_timestep:].mean()
    total = whole + local_loss_weight * local
    return total, {
        'global_loss': whole, 'local_loss': local, 'total_loss': total,
        'global_error': jnp.linalg.norm(global_labels - whole_pred, axis=-1).mean(),
        'local_error': jnp.linalg.norm(local_labels - local_pred, axis=-1).mean(),
    }
  return loss_fn


def graph(state, batch, apply_fn, neighbor_update_fn, local_loss_weight=1.0, loss_start_timestep=1, neighbor_list_capacity=4096,
          cell_list_capacity=None, do_grad_step=True):
  batch = {k: v for k, v in batch.items() if not k.startswith('_')}
  loss_fn = graph_loss(apply_fn, neighbor_update_fn, local_loss_weight, loss_start_timestep, neighbor_list_capacity, cell_list_capacity)
  return jax.grad(loss_fn, has_aux=True)(state.params, **batch)


def graph_report(state, batch, apply_fn, neighbor_update_fn, local_loss_weight=1.0, loss_start_timestep=1, neighbor_list_capacity=4096,
                 cell_list_capacity=None, do_grad_step=True):
  batch = {k: v for k, v in batch.items() if not k.startswith('_')}
  return graph_loss(apply_fn, neighbor_update_fn, local_loss_weight, loss_start_timestep, neighbor_list_capacity, cell_list_capacity)(state.params, **batch)[1]


def image_loss(state, batch, drift_loss_weight, final_only):
  def loss_fn(params):
    logits, drift = jax.vmap(state.apply_fn, in_axes=(None, 0))(params, batch['images'])
    logits = logits.reshape(*batch['mask'].shape)
    drift = drift.reshape(*batch['drift'].shape)
    each = {
        'loss': optax.softmax_cross_entropy(logits, batch['mask']),
        'drift_loss': jnp.square(batch['drift'] - drift).sum(-1),
        'accuracy': jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'], axis=-1),
        'drift_error': jnp.linalg.norm(batch['drift'] - drift, axis=-1),
    }
    last = {k: jnp.mean(v[..., -1]) for k, v in each.items()}
    out = {k: (last[k] if final_only else jnp.mean(v)) for k, v in each.items()}
    return out['loss'] + drift_loss_weight * out['drift_loss'], {**out, **{'final_step_' + k: v for k, v in last.items()}}
  return loss_fn


def image(state, batch, drift_loss_weight, final_only):
  return jax.grad(image_loss(state, batch, drift_loss_weight, final_only), has_aux=True)(state.params)


def image_report(state, batch, final_only):
  return image_loss(state, batch, 1.0, final_only)(state.params)[1]


def detection_loss(state, batch):
  def loss_fn(params):
    logits = jax.vmap(state.apply_fn, in_axes=(None, 0))(params, batch['image'])
    loss = jnp.mean(optax.softmax_cross_entropy(logits, batch['mask']))
    return loss, {'accuracy': jnp.mean(jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'], axis=-1)), 'loss': loss}
  return loss_fn


def detection(state, batch):
  return jax.grad(detection_loss(state, batch), has_aux=True)(state.params)


def detection_report(metrics, batch, state):
  return {'accuracy': detection_loss(state, batch)(state.params)[1]['accuracy']}
