"""The point-set registration steps of the aligner, compared as value graphs with reference models: pairing of nearest points, iterated
closest points, merging by proximity; what a loop builds is compared with what each variable it carries starts as and becomes."""
from .. import absint, libnf, terms as T
from ..terms import mk
from .c48 import of, system

MIN_OBLIGATIONS = 2
TECHNIQUE = 'value-graph comparison with reference models, loops as systems of carried values'
STEPS = (('pairing', 'get_offsets', 'paired'), ('closest points', 'align_latest', 'aligned'), ('proximity merging', 'naive_merge', 'joined'))


def counted(t):
  """A stack of rows has as many rows as it was stacked of."""
  f = lambda x: mk('call', x.args[0], (dict(x.args[1][0].args[2])['arrays'],), *x.args[2:]) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'len' and stacked(x.args[1]) else None
  g = lambda x: absint.len_t(x.args[1][0]) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'len' and len(x.args[1]) == 1 and x.args[1][0].op in ('mapf', 'mapl') else None
  return of(T.rewrite(T.rewrite(t, f), g))


def stacked(a):
  return len(a) == 1 and a[0].op == 'call' and a[0].args[0].op == 'glob' and a[0].args[0].args[0] in ('numpy.stack', 'numpy.array') and 'arrays' in dict(a[0].args[2])


def check(A):
  A.nf, A.vocab = libnf.nf, True
  for rule, f, s in STEPS:
    pure = ('alignment.get_offsets',)
    r, s = A.func('alignment.' + f, pure=pure if f != 'get_offsets' else ()), A.know(A.spec('lattice.' + s, pure=pure))
    A.same(rule, f, *[counted(system(x, x.it.closed(x.result))) for x in (r, s)], r.where)
