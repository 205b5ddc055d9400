"""Model of the generated protobuf module, built from the .proto source."""
import os
import re

from .prog import AnalysisBroken

SCALARS = {'float': 'float', 'double': 'double', 'int32': 'int', 'int64': 'int', 'uint32': 'int', 'uint64': 'int',
           'sint32': 'int', 'sint64': 'int', 'bool': 'bool', 'string': 'str', 'bytes': 'bytes'}
DEFAULT = {'float': '0.0', 'double': '0.0', 'int': '0', 'bool': 'False', 'str': '""', 'bytes': 'b""'}

TENSOR = '''
import dataclasses
@dataclasses.dataclass(frozen=True)
class TensorProto:
  dtype: int = 0
  payload: object = None

def make_tensor_proto(values):
  return TensorProto(1, values)

def make_ndarray(tensor):
  return tensor.payload
'''


def parse(repo):
  path = os.path.join(repo, 'putting_dune', 'putting_dune.proto')
  try:
    src = open(path, encoding='utf-8').read()
  except OSError as e:
    raise AnalysisBroken(f'no .proto source: {e}')
  src = re.sub(r'//[^\n]*', '', src)
  src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
  out = {}
  for name, body in re.findall(r'message\s+(\w+)\s*\{([^}]*)\}', src):
    fs = []
    for label, ty, f in re.findall(r'(?:(optional|repeated|required)\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+[^;]*;', body):
      fs.append((f, ty.split('.')[-1], label == 'repeated'))
    out[name] = fs
  if not out:
    raise AnalysisBroken('no messages found in the .proto source')
  return out


def source(msgs):
  s = [TENSOR]
  for name, fs in msgs.items():
    s += ['@dataclasses.dataclass(frozen=True)', f'class {name}Message:']
    for f, ty, rep in fs:
      s.append(f'  {f}: object = None')
      s.append(f'  has_{f}: bool = False')
    s.append('  def HasField(self, name):')
    s.append("    return getattr(self, 'has_' + name)")
    s.append(f'def make_{name}(' + ', '.join(f'{f}=' + ('()' if rep else 'None') for f, _, rep in fs) + '):')
    args = []
    for f, ty, rep in fs:
      sc = SCALARS.get(ty)
      if rep:
        args.append(f'{f}=list({f})')
        continue
      if sc:
        conv = {'int': f'pb_int({f})'}.get(sc, f)
        args.append(f'{f}={conv} if {f} is not None else {DEFAULT[sc]}')
      else:
        cls = f'make_{ty}' if ty in msgs else 'TensorProto'
        args.append(f'{f}={f} if {f} is not None else {cls}()')
      args.append(f'has_{f}={f} is not None')
    s.append(f'  return {name}Message(' + ', '.join(args) + ')')
    s.append('')
  return '\n'.join(s)


def install(prog):
  msgs = parse(prog.repo)
  pb = 'putting_dune.putting_dune_pb2'
  ov = [('tensorflow.make_tensor_proto', 'make_tensor_proto'), ('tensorflow.make_ndarray', 'make_ndarray')]
  prog.add_module(pb, source(msgs), ov + [(f'{pb}.{m}', f'make_{m}') for m in msgs])
  return msgs
