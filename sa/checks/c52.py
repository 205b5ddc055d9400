"""The graph the aligner's network sees, and what it returns: the value that the transformed model computes is compared, part by part, with a
reference model (the mask of the pairs, the edge features, the node and global features, the rounds of propagation, and both outputs), with
the layers themselves left abstract."""
from .. import libnf, terms as T
from ..terms import mk
from .c51 import anonymous

MIN_OBLIGATIONS = 6
TECHNIQUE = 'value-graph comparison of the network inputs and outputs, part by part, with a reference model'
NAMES = ['displacement_fn', 'box_size', 'r_cutoff', 'dr_threshold', 'n_recurrences', 'output_dims', 'sequence_length', 'mlp_sizes', 'mlp_kwargs',
         'fractional_coordinates', 'partition_format']
FORMAT = mk('param', 'partition_format')


def call_of(y, name):
  return y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] == name


def sparse(t):
  """With the sparse format, and the layers abstract."""
  def f(x):
    if x.op in ('is', 'eq') and FORMAT in x.args:
      o = [a for a in x.args if a is not FORMAT]
      if len(o) == 1 and o[0].op == 'glob':
        return T.TRUE if o[0].args[0].endswith('.Sparse') else T.FALSE if o[0].args[0].endswith('.Dense') else None
    if x.op in ('is', 'eq') and all(a.op == 'glob' or a is T.NONE for a in x.args):
      return T.TRUE if x.args[0] is x.args[1] else T.FALSE
    return None

  def g(x):
    if call_of(x, 'jraph.GraphMapFeatures') or call_of(x, 'jraph.GraphNetwork'):
      return mk('param', f'<{x.args[0].args[0]}>')
    if call_of(x, 'haiku.nets.MLP') and 'name' in dict(x.args[2]):
      return mk('param', f'<layers {T.show(dict(x.args[2])["name"], 2)}>')
    return None
  return anonymous(T.subst(T.subst(t, f), g))


def model(t):
  """The function that is transformed."""
  for y in T.subterms(t):
    if call_of(y, 'haiku.transform') or call_of(y, 'haiku.transform_with_state'):
      if y.args[1] and y.args[1][0].op == 'lam':
        return y.args[1][0]
  return None


def graphs(t):
  """The graph handed to the first layer."""
  return {y.args[1][0] for y in T.subterms(t) if y.op == 'call' and y.args[0].op == 'param' and 'GraphMapFeatures' in str(y.args[0].args[0]) and len(y.args[1]) == 1}


def parts(g):
  """Pairs, edge, node and global features of a graph."""
  if g.op == 'mcall' and g.args[0] == '_replace' and not g.args[2]:
    kw = dict(g.args[3])
    return dict(pairs=g.args[1], **{k: kw.get(k) for k in ('edges', 'nodes', 'globals')})
  return None


def check(A):
  A.nf, A.vocab = libnf.nf, True
  r = A.func('graph_alignment.model.graph_network_neighbor_list', names=NAMES)
  x = A.know(A.spec('graphs.network', names=NAMES))
  a, b = sparse(r.it.closed(r.result)), sparse(x.it.closed(x.result))
  name = 'graph_network_neighbor_list'
  if a.op == 'tuple' and len(a.args) == 3:
    A.same('pairs', f'{name}: neighbour list', a.args[0], b.args[0], r.where)
  else:
    A.ob('pairs', f'{name}: neighbour list', None, T.show(a, 2)[:200], r.where)
  f, w = model(a), model(b)
  if f is None or f.args[:2] != w.args[:2]:
    A.ob('graph', name, None, 'the transformed model was not found', r.where)
    return
  f, w = f.args[2], w.args[2]
  gs, (want,) = graphs(f), graphs(w)
  if len(gs) == 1:
    g = gs.pop()
    p, q = parts(g), parts(want)
    for k in ('pairs', 'edges', 'nodes', 'globals'):
      if p is None:
        A.ob('graph', f'{name}: {k}', None, f'graph not read: {T.show(g, 3)[:200]}', r.where)
      elif p[k] is None:
        A.ob('graph', f'{name}: {k}', False if any(call_of(y, 'jax_md.partition.to_jraph') for y in T.subterms(p['pairs'])) else None, 'left as the neighbour list has them: none', r.where)
      else:
        A.same('graph', f'{name}: {k}', p[k], q[k], r.where)
    mark = mk('param', '<graph>')
    f = T.subst(f, lambda y: mark if y is g else None)
    w = T.subst(w, lambda y: mark if y is want else None)
  else:
    A.ob('graph', name, None, f'{len(gs)} graphs', r.where)
  if f.op == 'tuple' and len(f.args) == 2:
    for k, y, z in zip(('whole grid', 'each point'), f.args, w.args):
      A.same('outputs', f'{name}: {k}', y, z, r.where)
  else:
    A.ob('outputs', name, None, T.show(f, 3)[:200], r.where)
