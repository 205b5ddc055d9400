"""Record files: the writer/dataset are replaced by list-like models; the sequence of records handed to the writer, and the
sequence yielded by the reader, must equal the reference sequences element by element (nothing skipped, repeated, reordered
or undecoded); the conditions on the file extension under which reader and writer proceed, or raise ValueError, must be the
same and name the same container format, and the writer must be closed on the way out."""
from .. import terms as T
from ..core import call_label
from ..terms import mk
from .simmodel import exc_name

MIN_OBLIGATIONS = 6
TECHNIQUE = 'value-graph comparison of record sequences and of extension guards'
ASSUMPTIONS = ['TFRecordWriter.write appends one record; TFRecordDataset.as_numpy_iterator yields the stored records in order']

MODEL = '''
class TFRecordWriter:
  def __init__(self, path, options=None):
    self.path = path
    self.options = options
    self.out = []
  def write(self, record):
    self.out.append(record)
  def __enter__(self):
    return self
  def __exit__(self, *a):
    pass
  def flush(self):
    pass
  def close(self):
    self.closed = True

class TFRecordDataset:
  def __init__(self, filenames, compression_type=None, buffer_size=None, num_parallel_reads=None):
    self.path = filenames
    self.options = compression_type
    self.records = stored_records(True)
  def as_numpy_iterator(self):
    return self.records

def make_writer(path, options=None):
  return TFRecordWriter(path, options)

def make_dataset(filenames, compression_type=None, buffer_size=None, num_parallel_reads=None):
  return TFRecordDataset(filenames, compression_type, buffer_size, num_parallel_reads)
'''


def install(A):
  A.prog.add_module('pdmodel.tf', MODEL, [('tensorflow.io.TFRecordWriter', 'make_writer'), ('tensorflow.data.TFRecordDataset', 'make_dataset')])
  A.prog.class_alias['tensorflow.io.TFRecordWriter'] = 'pdmodel.tf.TFRecordWriter'
  A.prog.class_alias['tensorflow.data.TFRecordDataset'] = 'pdmodel.tf.TFRecordDataset'


def objects(r, cls):
  return [(e.result, e) for e in r.events if e.kind == 'new' and e.cls.qual == 'pdmodel.tf.' + cls]


def written(r):
  os_ = objects(r, 'TFRecordWriter')
  if len(os_) != 1:
    return None, None
  o = os_[0][0]
  v = r.it.heap.get((o, 'out'))
  return (r.it.closed(v) if v is not None else None), o


def strip(t):
  """Values reached under the extension guard only."""
  while t is not None and t.op == 'phi' and T.contains(t.args[0], lambda x: x.op == 'attr' and x.args[1] == 'suffix'):
    a, b = t.args[1], t.args[2]
    t = b if a.op in ('list', 'undef', 'bottom') and not a.args else a
  return t


def suffix_guard(conds):
  """The extension part of a path condition."""
  return T.and_(*[c for c in conds if T.contains(c, ext)])


def ext(x):
  return (x.op == 'attr' and x.args[1] in ('suffix', 'suffixes', 'name')) or (
      x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('splitext')) or (
          x.op == 'mcall' and x.args[0] == 'endswith')


def check(A):
  install(A)
  rec = A.prog.cls('microscope_utils.BeamControl')
  for kind, ty in (('typed', ('cls', rec)), ('raw', ('ext', 'bytes'))):
    types = {'records': ('seq', ty)}
    w = A.func('io.write_records', names=['file', 'records'], types=types, pure=(rec.qual + '.to_proto',))
    sw = A.spec('records.write_records', types=types, pure=(rec.qual + '.to_proto',))
    got, ow = written(w)
    want, _ = written(sw)
    if got is None:
      A.ob('records-written', f'io.write_records({kind})', None, 'writer not identified', w.where)
    else:
      A.same('records-written', f'io.write_records({kind})', strip(got), want, w.where)
  for kind, v in (('raw', T.NONE), ('typed', mk('glob', rec.qual))):
    kw = dict(params={'record_type': v}, pure=(rec.qual + '.from_proto_string', rec.qual + '.from_proto',
                                               'microscope_utils.ProtoModel.from_proto_string'))
    rd = A.func('io.read_records', names=['file', 'record_type'], **kw)
    sr = A.spec('records.read_records', **kw)
    A.same('records-read', f'io.read_records({kind})', strip(seq(rd.result)), seq(sr.result), rd.where)
  # extension guards
  gw = [suffix_guard(e.conds()) for _, e in objects(w, 'TFRecordWriter')]
  gr = [suffix_guard(e.conds()) for _, e in objects(rd, 'TFRecordDataset')]
  if len(gw) == 1 and len(gr) == 1:
    A.same('same-extensions', 'io.read_records/io.write_records', gw[0], gr[0], w.where)
    A.ob('extension-checked', 'io.write_records', gw[0] is not T.TRUE, T.show(gw[0]), w.where)
    A.ob('extension-checked', 'io.read_records', gr[0] is not T.TRUE, T.show(gr[0]), rd.where)
  else:
    A.ob('same-extensions', 'io.read_records/io.write_records', None, f'{len(gw)} writers, {len(gr)} datasets')
  for r, g, n in ((w, gw, 'write_records'), (rd, gr, 'read_records')):
    rs = [e for e in r.events if e.kind == 'raise' and exc_name(e) == 'ValueError']
    ref = T.or_(*[suffix_guard(e.conds()) for e in rs]) if rs else T.FALSE
    ok = bool(g) and T.not_(g[0]) is ref
    A.ob('other-extensions-refused', f'io.{n}', True if ok else (False if not rs else None),
         f'ValueError when {T.show(ref)}; proceeds when {T.show(g[0]) if g else None}', r.where)
  for r, cls, n in ((w, 'TFRecordWriter', 'write_records'), (rd, 'TFRecordDataset', 'read_records')):
    for o, _e in objects(r, cls):
      path = r.heap(o, 'path')
      A.ob('given-file-used', f'io.{n}', T.contains(path, lambda x: x is mk('param', 'file')), T.show(path), r.where)
  if ow is not None:
    opt, opt2 = w.heap(ow, 'options'), [rd.heap(o, 'options') for o, _ in objects(rd, 'TFRecordDataset')]
    A.ob('same-compression', 'io', all(x is opt for x in opt2) or None if opt is T.NONE or not opt2 else None,
         f'{T.show(opt)} vs {[T.show(x) for x in opt2]}')
    if opt is T.NONE and any(x is not T.NONE for x in opt2):
      A.ob('same-compression', 'io.read_records', False, 'reader expects compressed records, writer writes uncompressed ones', rd.where)
    if opt.op == 'const' and isinstance(opt.args[0], str) and opt.args[0] and opt2 and all(x is T.NONE for x in opt2):
      A.ob('same-compression', 'io.write_records', False, f'writer compresses ({opt.args[0]}), reader expects uncompressed records', w.where)
    entered = any(e.kind == 'with_enter' and e.value is ow for e in w.events)
    closed = w.heap(ow, 'closed')
    A.ob('writer-closed', 'io.write_records', entered or (closed is not None and closed.op in ('const', 'phi')),
         'context-managed' if entered else f'closed: {closed}', w.where)


def seq(t):
  def f(x):
    return x.args[0] if x.op == 'seqcopy' else None
  return T.rewrite(t, f)
