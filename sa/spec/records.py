"""Round trips and record files."""
from typing import Iterable
from etils import epath
import tensorflow as tf
from putting_dune import microscope_utils


def roundtrip(self):
  return self.from_proto(self.to_proto())


def write_records(file, records: Iterable):
  with tf.io.TFRecordWriter(file) as writer:
    for record in records:
      if isinstance(record, microscope_utils.ProtoModel):
        writer.write(record.to_proto().SerializeToString())
      else:
        writer.write(record)


def read_records(file, record_type):
  for record in tf.data.TFRecordDataset(file).as_numpy_iterator():
    if record_type and issubclass(record_type, microscope_utils.ProtoModel):
      yield record_type.from_proto_string(record)
    else:
      yield record
