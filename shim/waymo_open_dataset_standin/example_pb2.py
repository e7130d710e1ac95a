"""tensorflow.Example and its parts, built at run time (no .proto file is installed)."""
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory

_F = descriptor_pb2.FieldDescriptorProto
_f = descriptor_pb2.FileDescriptorProto(name='standin/example.proto', package='tensorflow', syntax='proto3')


def _msg(name, fields, parent=None, oneof=None):
  m = (parent.nested_type if parent is not None else _f.message_type).add(name=name)
  if oneof:
    m.oneof_decl.add(name=oneof)
  for number, fname, ftype, label, tname in fields:
    f = m.field.add(name=fname, number=number, type=ftype, label=label)
    if tname:
      f.type_name = tname
    if oneof:
      f.oneof_index = 0
  return m


_O, _R = _F.LABEL_OPTIONAL, _F.LABEL_REPEATED
_msg('BytesList', [(1, 'value', _F.TYPE_BYTES, _R, None)])
_msg('FloatList', [(1, 'value', _F.TYPE_FLOAT, _R, None)])
_msg('Int64List', [(1, 'value', _F.TYPE_INT64, _R, None)])
_msg('Feature', [(1, 'bytes_list', _F.TYPE_MESSAGE, _O, '.tensorflow.BytesList'),
                 (2, 'float_list', _F.TYPE_MESSAGE, _O, '.tensorflow.FloatList'),
                 (3, 'int64_list', _F.TYPE_MESSAGE, _O, '.tensorflow.Int64List')], oneof='kind')
_m = _msg('Features', [(1, 'feature', _F.TYPE_MESSAGE, _R, '.tensorflow.Features.FeatureEntry')])
_e = _msg('FeatureEntry', [(1, 'key', _F.TYPE_STRING, _O, None), (2, 'value', _F.TYPE_MESSAGE, _O, '.tensorflow.Feature')], parent=_m)
_e.options.map_entry = True
_msg('Example', [(1, 'features', _F.TYPE_MESSAGE, _O, '.tensorflow.Features')])
_pool = descriptor_pool.DescriptorPool()
_pool.Add(_f)
_factory = message_factory.MessageFactory(_pool)
for _n in ('BytesList', 'FloatList', 'Int64List', 'Feature', 'Features', 'Example'):
  globals()[_n] = _factory.GetPrototype(_pool.FindMessageTypeByName('tensorflow.' + _n))
