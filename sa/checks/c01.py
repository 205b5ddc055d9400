"""Serialized records: for every ProtoModel class, from_proto(to_proto(self)) is evaluated abstractly against a message model
generated from the .proto source (other record types kept opaque, so the argument is by structural induction); each
dataclass field of the result must normalise to the same field of self, element by element for arrays, through storage of
a kind (integer / floating) that can hold the message field."""
from .. import protomodel, terms as T
from ..absint import NONE
from ..terms import mk

MIN_OBLIGATIONS = 30
TECHNIQUE = 'symbolic round-trip evaluation (value graph) against a message model derived from the .proto'
ASSUMPTIONS = ['protobuf message classes behave as their .proto declares; a field that is set reads back as stored',
               'voltage and current of a control are set (an unset optional number reads back as the proto default)',
               'tf.make_tensor_proto / tf.make_ndarray are inverses']
BASE = 'putting_dune.microscope_utils.ProtoModel'
INT = {'numpy.int32', 'numpy.int64', 'int', 'numpy.int_', 'numpy.int16', 'numpy.int8', 'numpy.uint8', 'numpy.intp'}
ME = mk('param', 'self')


def check(A):
  protomodel.install(A.prog)
  classes = A.prog.subclasses(BASE)
  A.ob('record-types-found', 'ProtoModel', len(classes) >= 8, f'{len(classes)} record types')
  rts = [q for k in classes for q in (k.qual + '.from_proto', k.qual + '.to_proto')]
  for c in classes:
    if not c.is_dataclass:
      continue
    pure = [q for q in rts if not q.startswith(c.qual + '.')]
    r = A.spec('records.roundtrip', cls=c.qual[13:], pure=pure)
    A.analysed |= {q for q in r.it.inlined if q.startswith('putting_dune')}
    A.sites += len([e for e in r.events if e.kind == 'call'])
    where = A.prog.lookup(c, 'from_proto').where
    msg = A.method(c.qual[13:], 'to_proto', pure=pure).result
    k = A.prog.lookup_const(c, 'ProtoMessage')
    declared = None
    if k:
      from ..prog import dotted
      declared = k[0].mod.resolve_name(dotted(k[1]) or '')
    got = msg.args[0] if msg.op == 'new' else None
    A.ob('message-type', c.name, None if got is None or declared is None else got == declared + 'Message',
         f'to_proto builds {got}, ProtoMessage is {declared}', where)
    if r.result.op != 'new' or r.result.args[0] != c.qual:
      bad = r.result.op == 'new'
      A.ob('round-trip-type', c.name, False if bad else None, f'yields {T.show(r.result, 4)[:300]}', where)
      continue
    fields = A.prog.all_fields(c)
    have = dict(r.result.args[1])
    for f, (ann, d, k) in fields.items():
      want = mk('attr', ME, f)
      ty = A.prog.ann_type(k.mod, ann)
      v, why = matches(simplify(A, have.get(f, mk('undef'))), want, ty)
      A.ob('field-survives', f'{c.name}.{f}', v, why, where)
  for c in classes:
    f = A.prog.lookup(c, 'from_proto_string')
    r = A.method(c.qual[13:], 'from_proto_string', names=['string'], pure=[c.qual + '.from_proto'], params={'cls': mk('glob', c.qual)})
    v = r.result
    k = A.prog.lookup_const(c, 'ProtoMessage')
    from ..prog import dotted
    declared = k[0].mod.resolve_name(dotted(k[1]) or '') if k else None
    ok = v.op == 'call' and v.args[0] is mk('glob', c.qual + '.from_proto') and v.args[1] and T.show(v.args[1][-1], 9).startswith(
        f'{declared}.FromString(string)')
    A.ob('bytes-are-parsed', f'{c.name}.from_proto_string', True if ok else (False if v is mk('const', None) else None),
         T.show(v, 6)[:300], f.where)


def simplify(A, t):
  def f(x):
    if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('.from_proto') and x.args[1]:
      cls = x.args[0].args[0][:-len('.from_proto')]
      a = x.args[1][-1]
      if a.op == 'phi' and a.args[0].op == 'is' and a.args[0].args[0] is a.args[2]:
        a = a.args[2]
      if a.op == 'mcall' and a.args[0] == 'to_proto' and not a.args[2]:
        return mk('rt', cls, a.args[1])
      if a.op == 'call' and a.args[0].op == 'glob' and a.args[0].args[0].endswith('.to_proto'):
        return mk('rt', cls, a.args[1][0])
    if x.op == 'phi' and x.args[0].op == 'is' and x.args[0].args[1] is NONE and x.args[0].args[0].op in ('attr', 'item') and (
        x.args[1].op == 'const') and T.contains_term(x.args[2], x.args[0].args[0]):
      return x.args[2]
    return None
  return T.rewrite(t, f)


STRUCT = {'param', 'attr', 'item', 'const', 'bv', 'tuple', 'poly', 'new', 'phi', 'is', 'not', 'undef', 'rt', 'list', 'slice',
          'unit', 'len', 'mapl', 'minlen', 'glob', 'eq', 'and', 'lt0', 'seqcopy', 'concat', 'store', 'fill'}
KNOWN = ('pb_int', 'int', 'float', 'round', 'len', 'abs', 'bool', 'str', 'list', 'tuple', 'reversed', 'sorted', 'min', 'max')


def pathlike(t):
  """All operators of the term have a known meaning, so a mismatch is a difference."""
  for x in T.subterms(t):
    if x.op in STRUCT:
      continue
    if x.op == 'call' and x.args[0].op == 'glob':
      n = x.args[0].args[0]
      if n.split('.')[-1] in KNOWN or n.startswith(('numpy.', 'math.')) or n.endswith(('.Point', '.from_proto', '.to_proto')):
        continue
    if x.op == 'mcall' and x.args[0] in ('to_proto', 'from_proto'):
      continue
    return False
  return True


def decide(t, want):
  return False if pathlike(t) else None


def matches(t, want, ty):
  """(verdict, why)"""
  while t.op == 'seqcopy':
    t = t.args[0]
  if t is want:
    return True, 'identity'
  if t.op == 'rt':
    if t.args[1] is want:
      ok = ty is None or ty[0] != 'cls' or ty[1].qual == t.args[0]
      return ok, f'{t.args[0]} round trip'
    return decide(t, want), f'holds the round trip of {T.show(t.args[1])} instead of {T.show(want)}'
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0].endswith('geometry.Point'):
    a = t.args[1]
    if len(a) == 1 and a[0].op in ('tuple', 'list'):
      a = a[0].args
    elif len(a) == 1 and a[0].op == 'call' and a[0].args[0].op == 'glob' and a[0].args[0].args[0] in ('numpy.asarray', 'numpy.array') and (
        a[0].args[1][0].op in ('tuple', 'list')):
      a = a[0].args[1][0].args
    if len(a) != 2:
      return None, 'point built in an unrecognised way: ' + T.show(t, 5)
    for v, n in zip(a, 'xy'):
      if v is not mk('attr', want, n):
        return decide(v, want), f'{n} coordinate is {T.show(v, 5)}'
    return True, 'point rebuilt coordinate by coordinate'
  if t.op == 'phi':
    lost = want in t.args[1:] and T.NONE in t.args[1:] and not T.contains(t.args[0], lambda x: x.op in ('isinstance', 'unknown', 'maybe'))
    return False if lost else decide(t, want), f'is {T.show(t, 6)[:400]}'
  if t.op in ('mapl', 'mapf', 'filterl'):
    h, dom, body = t.args[:3]
    if t.op == 'mapl':
      if not length_of(dom, want):
        return decide(dom, want), f'ranges over {T.show(dom)}'
      el = mk('item', want, mk('bv', h))
      ety = ty[1] if ty and ty[0] == 'seq' else None
      return matches(body, el, ety)
    return None, 'filtered sequence ' + T.show(t, 5)
  # arrays
  return array(t, want)


def reordered(dom):
  """The number of the elements of the message in another order."""
  x = dom.args[0] if dom.op == 'len' else dom.args[1][0] if dom.op == 'call' and dom.args[0] is mk('glob', 'len') else None
  return x is not None and x.op == 'call' and x.args[0] in (mk('glob', 'sorted'), mk('glob', 'reversed'))


def sibling(dom, want):
  return want.op == 'attr' and T.contains(dom, lambda x: x.op == 'attr' and x.args[0] is want.args[0]) and T.show(dom).startswith('len(')


def length_of(dom, want):
  # the arrays of one record have one entry per atom each
  if dom.op == 'item' and dom.args[0].op == 'attr' and dom.args[0].args[1] == 'shape' and dom.args[1] is T.const(0):
    w = dom.args[0].args[0]
    return w is want or (w.op == 'attr' and want.op == 'attr' and w.args[0] is want.args[0])
  if dom.op == 'minlen' and all(length_of(x, want) or sibling(x, want) for x in dom.args):
    return True
  for w in (mk('call', mk('glob', 'len'), (want,), (), None), mk('item', mk('attr', want, 'shape'), T.const(0)), mk('len', want),
            mk('attr', want, 'size')):
    if dom is w:
      return True
  return T.show(dom) in (f'len({T.show(want)})', f'{T.show(want)}.shape[0]')


def alloc_kind(t):
  """('int'|'float', label) of the storage an allocation provides."""
  if t.op == 'call' and t.args[0].op == 'glob':
    n = t.args[0].args[0]
    if n in ('numpy.empty', 'numpy.zeros', 'numpy.array', 'numpy.asarray', 'numpy.ones', 'numpy.full', 'numpy.fromiter'):
      dt = dict(t.args[2]).get('dtype')
      pos = 2 if n == 'numpy.full' else 1
      if dt is None and len(t.args[1]) > pos:
        dt = t.args[1][pos]
      if dt is None:
        return ('float', n) if n in ('numpy.empty', 'numpy.zeros', 'numpy.ones') else ('data', n)
      d = dt.args[0] if dt.op == 'glob' else (dt.args[0] if dt.op == 'const' else '?')
      if d in INT or (isinstance(d, str) and d.replace('numpy.', '').startswith(('int', 'uint'))):
        return 'int', str(d)
      if isinstance(d, str) and 'float' in d:
        return 'float', d
  return None, T.show(t, 3)


def stored(v, want, kind, label):
  """One stored element."""
  is_int = v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0].endswith('pb_int')
  inner = v.args[1][0] if is_int else v
  while inner.op == 'call' and inner.args[0].op == 'glob' and inner.args[0].args[0] in ('int', 'float', 'numpy.float32', 'numpy.int32'):
    k = 'int' if 'int' in inner.args[0].args[0] else 'float'
    if k == 'int' and not is_int and kind != 'int':
      return False, 'value truncated by int()'
    inner = inner.args[1][0]
    if inner.op == 'call' and inner.args[0].args[0].endswith('pb_int'):
      is_int, inner = True, inner.args[1][0]
  if inner is not want:
    return decide(inner, want), f'element {T.show(want)} receives {T.show(inner, 6)[:300]}'
  if kind == 'int' and not is_int:
    return False, f'floating-point message field stored into integer array ({label})'
  if is_int and kind == 'float':
    return False, f'floating-point array {T.show(want)} carried by an integer message field'
  return True, f'element-wise ({label})'


def indexed(base, *idx):
  return mk('item', base, idx[0] if len(idx) == 1 else mk('tuple', *idx))


def sized(init, want, seen):
  """The storage filled has one row for each row of the original, and a column for each coordinate."""
  done = 'filled element by element'
  if init.op != 'call' or not init.args[0].args[0].startswith('numpy.') or init.args[0].args[0] in ('numpy.array', 'numpy.asarray'):
    return True, done
  dims = init.args[1][0] if init.args[1] else dict(init.args[2]).get('shape')
  if dims is None:
    return None, f'storage of unknown size: {T.show(init, 4)}'
  dims = list(dims.args) if dims.op in ('tuple', 'list') else [dims]
  if not length_of(dims[0], want):
    return decide(dims[0], want), f'{T.show(dims[0], 4)} rows'
  if 'row' not in seen and len(dims) != 2 or len(dims) == 2 and T.is_num(dims[1]) and {0, 1} <= seen and T.cval(dims[1]) != 2:
    return False, f'storage of shape {[T.show(d, 3) for d in dims]}'
  return True, done


def array(t, want):
  while t.op == 'mcall' and t.args[0] in ('reshape', 'astype', 'copy'):
    if t.args[0] == 'astype':
      k, lab = alloc_kind(mk('call', mk('glob', 'numpy.array'), (mk('none'),), (('dtype', t.args[2][0] if t.args[2] else mk('none')),), None))
      if k == 'int' and not T.contains(t, lambda x: x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('pb_int')):
        return False, f'array converted to {lab}'
    t = t.args[1]
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.reshape',):
    t = t.args[1][0]
  if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.stack'):
    kind, label = alloc_kind(t)
    d = t.args[1][0]
    while d.op == 'seqcopy':
      d = d.args[0]
    if d.op == 'mapl':
      h, dom, body = d.args
      if not length_of(dom, want):
        return decide(dom, want), f'ranges over {T.show(dom)}'
      cells = body.args if body.op in ('list', 'tuple') else None
      if cells is None:
        return stored(body, indexed(want, mk('bv', h)), kind, label)
      for k, v in enumerate(cells):
        ok, why = stored(v, indexed(want, mk('bv', h), T.const(k)), kind, label)
        if not ok:
          return ok, why
      return (True, 'element-wise') if len(cells) == 2 else (False, f'{len(cells)} columns')
    if d.op in ('list', 'tuple'):
      for k, v in enumerate(d.args):
        ok, why = stored(v, indexed(want, T.const(k)), kind, label)
        if not ok:
          return ok, why
      return True, 'element-wise'
    return decide(d, want), T.show(t, 5)[:300]
  if t.op == 'fill':
    h, dom, init, writes = t.args
    kind, label = alloc_kind(init)
    if kind is None:
      return None, f'unrecognised storage {label}'
    if not length_of(dom, want):
      return (False if pathlike(dom) or reordered(dom) else None), f'filled over {T.show(dom)}'
    bv = mk('bv', h)
    seen = set()
    for i, v in writes:
      if i is bv:
        if v.op in ('tuple', 'list'):
          for k, x in enumerate(v.args):
            ok, why = stored(x, indexed(want, bv, T.const(k)), kind, label)
            if not ok:
              return ok, why
          seen |= {0, 1}
          continue
        ok, why = stored(v, indexed(want, bv), kind, label)
        seen.add('row')
      elif i.op == 'tuple' and len(i.args) == 2 and i.args[0] is bv:
        ok, why = stored(v, indexed(want, bv, i.args[1]), kind, label)
        if T.is_num(i.args[1]):
          seen.add(T.cval(i.args[1]))
        elif i.args[1].op == 'slice' and v.op in ('tuple', 'list'):
          ok = all(stored(x, indexed(want, bv, T.const(k)), kind, label)[0] for k, x in enumerate(v.args))
          seen |= {0, 1}
      else:
        return None, f'index {T.show(i)}'
      if not ok:
        return ok, why
    if 'row' in seen or {0, 1} <= seen:
      return sized(init, want, seen)
    return False, f'columns {sorted(map(str, seen))} filled only'
  if t.op == 'store':
    got = {}
    while t.op == 'store':
      got.setdefault(t.args[1], t.args[2])
      t = t.args[0]
    kind, label = alloc_kind(t)
    if kind is None:
      return None, f'unrecognised storage {label}'
    for i, v in got.items():
      ok, why = stored(v, indexed(want, i), kind, label)
      if not ok:
        return ok, why
    n = t.args[1][0]
    full = T.is_num(n) and {T.cval(i) for i in got if T.is_num(i)} == set(range(T.cval(n)))
    sure = T.is_num(n) and all(T.is_num(i) for i in got)
    return (True if full else False if sure else None), 'filled element by element' if full else f'not all elements of {T.show(t)} are filled'
  return decide(t, want), f'is {T.show(t, 6)[:400]}'
