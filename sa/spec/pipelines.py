"""Reference models of the data-pipeline programs."""
import io as stdio
import pathlib
import tempfile

from google.cloud import storage
import inflection
from putting_dune import alignment, io, microscope_utils
from putting_dune.pipeline import align_trajectories, trajectories_to_transitions, upload_microscope_data
import riegeli


def align(args: align_trajectories.Args):
  if args.source_path.is_dir():
    files = list(args.source_path.glob('*.tfrecords'))
  else:
    files = [args.source_path]
  trajectories = []
  for file in files:
    trajectories.extend(io.read_records(file, microscope_utils.Trajectory))
  with tempfile.TemporaryDirectory() as work:
    aligner = alignment.ImageAligner.from_path(args.aligner_path, workdir=work, hybrid=args.hybrid)
    out = [align_trajectories.do_alignment(t, args, aligner) for t in trajectories]
  io.write_records(args.target_path, out)


def transitions(args: trajectories_to_transitions.Args):
  found = list(io.read_records(args.source_path, microscope_utils.Trajectory))
  io.write_records(args.target_path, trajectories_to_transitions.trajectories_to_transitions(found))


def upload(args: upload_microscope_data.Args):
  bucket = storage.Client().get_bucket(args.bucket)
  paths = [leaf.parent for leaf in args.directory.rglob('**/*/ADF-stack-000.ndata1')]
  for path in paths:
    name = pathlib.Path('-'.join(inflection.underscore(p) for p in path.relative_to(args.directory).parts) + '.riegeli')
    try:
      dataset = upload_microscope_data.load_dataset(path)
    except ValueError:
      continue
    proto = upload_microscope_data.convert_dataset_to_proto(*dataset).to_proto()
    fp = stdio.BytesIO()
    with riegeli.RecordWriter(fp) as writer:
      writer.write_record(proto.SerializeToString())
    fp.seek(0)
    bucket.blob(name.as_posix()).upload_from_file(fp)
