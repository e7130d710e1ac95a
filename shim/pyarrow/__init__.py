"""Stand-in for the part of pyarrow the v2 components declare types with."""


class DataType:

  def __init__(self, name, *params):
    self.name, self.params = name, params

  def __eq__(self, other):
    return isinstance(other, DataType) and (self.name, self.params) == (other.name, other.params)

  def __hash__(self):
    return hash((self.name, self.params))

  def __repr__(self):
    return '%s%s' % (self.name, list(self.params) or '')

  @property
  def value_type(self):
    return self.params[0]

  @property
  def list_size(self):
    return self.params[1]


def _simple(name):
  t = DataType(name)
  return lambda *a, **k: t


for _n in ('int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 string binary utf8 '
           'large_string large_binary null date32').split():
  globals()[_n] = _simple(_n)
bool_ = _simple('bool')


def list_(value_type, list_size=-1):
  return DataType('list', value_type, list_size)


def large_list(value_type):
  return DataType('large_list', value_type)


def dictionary(index_type=None, value_type=None, ordered=False):
  return DataType('dictionary', index_type, value_type, ordered)


def struct(fields):
  return DataType('struct', tuple(tuple(f) for f in fields))


class Field:

  def __init__(self, name, type_, nullable=True, metadata=None):
    self.name, self.type, self.nullable, self.metadata = name, type_, nullable, metadata

  def __eq__(self, other):
    return (self.name, self.type) == (other.name, other.type)

  def __iter__(self):
    return iter((self.name, self.type))


def field(name, type_=None, nullable=True, metadata=None, **kw):
  return Field(name, kw.get('type', type_), nullable, metadata)


class Schema:

  def __init__(self, fields):
    self._f = [f if isinstance(f, Field) else Field(*f) for f in fields]

  names = property(lambda self: [f.name for f in self._f])
  types = property(lambda self: [f.type for f in self._f])

  def __len__(self):
    return len(self._f)

  def __iter__(self):
    return iter(self._f)

  def field(self, k):
    return self._f[k] if isinstance(k, int) else [f for f in self._f if f.name == k][0]

  def __eq__(self, other):
    return self._f == other._f


def schema(fields, metadata=None):
  if isinstance(fields, dict):
    fields = fields.items()
  return Schema(list(fields))
