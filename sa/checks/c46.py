"""The data-pipeline programs: which records reach which file is read off the value graph of each program (the argument of its writing call, as a function
of everything its reading calls return) and the ordered trace of its uploads, and compared with a reference model; the file pattern a
directory is searched for must end in a suffix the record reader accepts."""
import ast

from .. import libnf, terms as T
from ..terms import mk, const
from .c36 import plain
from .c44 import numbered

MIN_OBLIGATIONS = 5
TECHNIQUE = 'value graphs of the programs from reading to writing calls, and upload event traces, compared with reference models; suffix typing of file patterns'
PURE = ('pipeline.align_trajectories.do_alignment', 'pipeline.upload_microscope_data.load_dataset', 'pipeline.upload_microscope_data.convert_dataset_to_proto', 'io.read_records',
        'io.write_records', 'pipeline.trajectories_to_transitions.trajectories_to_transitions', 'alignment.ImageAligner.from_path', 'microscope_utils.Trajectory.to_proto')
BARS = ('tqdm.tqdm', 'etils.etqdm.tqdm', 'tqdm.auto.tqdm')


def suffixes(A):
  """Suffixes the record reader accepts."""
  f = A.prog.funcs.get('putting_dune.io.read_records')
  return {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('.')} if f else set()


def run(A, real, ref):
  r, s = A.func(real, names=['args'], pure=PURE), A.know(A.spec('pipelines.' + ref, pure=PURE))
  return r, s


def of(it, t):
  t = it.closed(t)
  for _ in range(3):
    t = T.subst(t, lambda x: x.args[1][0] if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in BARS and x.args[1] else None)
  return T.subst(T.subst(plain(t), lambda x: x.args[0] if x.op == 'seqcopy' else None), numbered)


def inside(e, t):
  """Loop positions counted from the outermost loop of the event."""
  ids = [l[1] for l in e.loops()]
  return T.subst(t, lambda x: mk('ix', ('loop', ids.index(x.args[0]))) if x.op == 'ix' and x.args[0] in ids else None)


def named(r, *names):
  out = []
  for e in r.events:
    if e.kind == 'call':
      fn = e.d.get('fn')
      n = e.d.get('name') or (fn.args[0] if isinstance(fn, T.Term) and fn.op == 'glob' else '')
      if n in names:
        out.append(e)
  return out


def inputs(e):
  return mk('list', *([e.d['recv']] if isinstance(e.d.get('recv'), T.Term) else []), *e.d['args'], *[mk('kw', k, v) for k, v in sorted(e.d['kwargs'].items())])


def check(A):
  A.nf, A.vocab = libnf.nf, True
  A.known |= {'.with_suffix', '.with_name', '.with_stem', '.name', '.stem'}
  ok = suffixes(A)
  for name, ref in (('pipeline.align_trajectories.main', 'align'), ('pipeline.trajectories_to_transitions.main', 'transitions')):
    r, s = run(A, name, ref)
    W = 'putting_dune.io.write_records'
    got, want = named(r, W), named(s, W)
    short = '.'.join(name.split('.')[1:])
    A.ob('one result', short, len(got) == 1 and not got[0].loops() and got[0].guard() is T.TRUE if got or r.calls() is not None else None, f'{len(got)} writing calls', r.where)
    if not got:
      continue
    a, b = of(r.it, inputs(got[0])), of(s.it, inputs(want[0]))
    pats = [x for x in T.subterms(a) if x.op == 'mcall' and x.args[0] in ('glob', 'rglob')]
    for p in {x.args[2][0] for x in pats if x.args[2]}:
      v = p.args[0] if p.op == 'const' else None
      A.ob('file pattern', short, None if not isinstance(v, str) else any(v.endswith(z) for z in ok), f'{v} against {sorted(ok)}', r.where)
      if isinstance(v, str) and v.startswith('*') and any(v.endswith(z) for z in ok):
        a = T.subst(a, lambda x: const('*.tfrecords') if x is p else None)
    A.same('records', short, a, b, r.where)
  uploads(A)


def uploads(A):
  r, s = run(A, 'pipeline.upload_microscope_data.main', 'upload')
  for n in ('blob', 'upload_from_file', 'write_record', 'write_message', 'seek', 'io.BytesIO', 'riegeli.RecordWriter'):
    got, want = named(r, n), named(s, n)
    if len(got) != len(want):
      A.ob('upload', f'main: {n}', False if not got or n in ('blob', 'upload_from_file', 'write_record') else None, f'{len(got)} calls, {len(want)} expected', r.where)
      continue
    for a, b in zip(got, want):
      where = f'{r.where.split(":")[0]}:{getattr(a.node, "lineno", 0)}'
      A.same('upload', f'main: {n}', inside(a, of(r.it, inputs(a))), inside(b, of(s.it, inputs(b))), where)
      A.ob('upload', f'main: {n}, once per dataset', len(a.loops()) == len(b.loops()) and a.guard() is b.guard() if a.guard() is T.TRUE or len(a.loops()) != len(b.loops()) else None, f'{len(a.loops())} loops', where)
  order = [n for n, _ in sorted(((e.d.get('name'), i) for i, e in enumerate(r.events) if e.kind == 'call' and e.d.get('name') in ('write_record', 'seek', 'upload_from_file')), key=lambda x: x[1])]
  A.ob('upload', 'main: written, rewound, uploaded', order == ['write_record', 'seek', 'upload_from_file'] if set(order) == {'write_record', 'seek', 'upload_from_file'} else None, str(order), r.where)
  lexical(A)


def calls(node, *names):
  return [n for n in ast.walk(node) if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) in names]


def lexical(A):
  """Uploads happen after the writer is closed, and not for a dataset that failed to load."""
  m = A.prog.modules.get('putting_dune.pipeline.upload_microscope_data')
  for n in ast.walk(m.tree) if m else []:
    where = f'putting_dune/pipeline/upload_microscope_data.py:{getattr(n, "lineno", 0)}'
    if isinstance(n, ast.With) and any(calls(i.context_expr, 'RecordWriter') for i in n.items):
      A.ob('upload', 'main: after the writer is closed', not any(calls(x, 'upload_from_file') for x in n.body), 'with RecordWriter', where)
    if isinstance(n, (ast.For, ast.While)):
      for i, x in enumerate(n.body):
        if isinstance(x, ast.Try) and any(calls(y, 'load_dataset') for y in x.body) and any(calls(y, 'upload_from_file', 'blob') for y in n.body[i + 1:]):
          for h in x.handlers:
            stays = not any(isinstance(y, (ast.Continue, ast.Return, ast.Raise, ast.Break)) or calls(y, 'exit') for y in ast.walk(h))
            sets = any(isinstance(y, (ast.Assign, ast.AugAssign, ast.NamedExpr)) for y in ast.walk(h))
            A.ob('upload', 'main: a dataset that cannot be loaded is skipped', None if stays and sets else not stays, 'handler of load_dataset', where)
