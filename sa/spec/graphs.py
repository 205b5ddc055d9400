"""Reference model of the graph network that aligns grids: which pairs of points it connects, what it is told of them, and what it returns."""
import functools
import haiku as hk
import jax
import jax.numpy as jnp
from jax_md import nn
from jax_md import partition
from jax_md import space
import jraph
import numpy as np


def network(displacement_fn, box_size, r_cutoff, dr_threshold, n_recurrences=2, output_dims=2, sequence_length=5, mlp_sizes=(64, 64),
            mlp_kwargs=None, fractional_coordinates=False, partition_format=partition.Sparse, **neighbor_kwargs):

  def graph_of(positions, neighbor, nodes, **kwargs):
    n = np.prod(positions.shape[:-1])
    positions = jnp.reshape(positions, (n, positions.shape[-1]))
    nodes = jnp.reshape(nodes, (n, nodes.shape[-1]))
    away = space.map_bond(functools.partial(displacement_fn, **kwargs))
    if dr_threshold > 0.0:
      d = away(positions[neighbor.idx[0]], positions[neighbor.idx[1]])
      graph = partition.to_jraph(neighbor, space.square_distance(d) < r_cutoff**2 + 1e-5)
      edges = away(positions[graph.receivers], positions[graph.senders])
    else:
      graph = partition.to_jraph(neighbor)
      edges = away(positions[neighbor.idx[0]], positions[neighbor.idx[1]])
    return graph._replace(
        nodes=jnp.concatenate((nodes, jnp.zeros((1,) + nodes.shape[1:], positions.dtype)), axis=0),
        edges=edges,
        globals=jnp.broadcast_to(jnp.zeros((1,), positions.dtype)[:, None], (2, 1)),
    )

  @hk.without_apply_rng
  @hk.transform
  def model(positions, neighbor, nodes, **kwargs):
    kw = mlp_kwargs
    if kw is None:
      kw = {'w_init': hk.initializers.VarianceScaling(), 'b_init': hk.initializers.VarianceScaling(0.1), 'activation': jax.nn.gelu}
    norm = lambda: hk.GroupNorm(groups=8, axis=-1, create_scale=True, create_offset=True)

    def embed(name, x):
      return norm()(hk.nets.MLP(output_sizes=mlp_sizes, activate_final=True, name=name, **kw)(x))

    def combine(name, *args):
      return norm()(hk.nets.MLP(output_sizes=mlp_sizes, activate_final=True, name=name, **kw)(jnp.concatenate(args, axis=-1)))

    graph = graph_of(positions, neighbor, nodes, **kwargs)
    encoded = jraph.GraphMapFeatures(functools.partial(embed, 'EdgeEncoder'), functools.partial(embed, 'NodeEncoder'), functools.partial(embed, 'GlobalEncoder'))(graph)
    out = encoded
    for _ in range(n_recurrences):
      out = jraph.GraphNetwork(
          functools.partial(combine, 'EdgeFunction'), functools.partial(combine, 'NodeFunction'), functools.partial(combine, 'GlobalFunction')
      )(nn.concatenate_graph_features((out, encoded)))
    shape = (sequence_length, output_dims)
    whole = hk.nets.MLP(output_sizes=mlp_sizes + (np.prod(shape),), activate_final=False, name='GlobalDecoder', **kw)
    local = hk.nets.MLP(output_sizes=mlp_sizes + (output_dims,), activate_final=False, name='LocalDecoder', **kw)
    pooled = hk.nets.MLP(output_sizes=mlp_sizes + (output_dims,), activate_final=False, name='PoolingDecoder', **kw)
    latents = jnp.array(out.nodes)[..., :-1, :]
    latents = latents.reshape(*latents.shape[:-2], sequence_length, -1, latents.shape[-1])
    return whole(out.globals[0]).reshape(*shape) + pooled(latents).mean(-2), local(latents)

  neighbor_fn = partition.neighbor_list(displacement_fn, box_size, r_cutoff, dr_threshold, mask_self=False, fractional_coordinates=fractional_coordinates,
                                        format=partition_format, **neighbor_kwargs)
  return neighbor_fn, model.init, model.apply
