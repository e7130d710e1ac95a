"""A stand-in for the part of TensorFlow that waymo_open_dataset's Python code
uses, on numpy, eager only.

It keeps TensorFlow's rules where they can change what the code under test
does: no implicit promotion between tensor dtypes, conversion of Python and
numpy values to the dtype of the tensors they meet, immutability of tensors,
float32 defaults, integer division and casting rules, out-of-range indices are
errors, scatter adds duplicates.  What is not here raises Unsupported, which
the runner reports as "not decided" and never as a violation.
"""
import builtins
import contextlib
import functools
import collections.abc as _cabc
import numbers
import struct
import sys
import types
import zlib

import numpy as np

__version__ = '2.13.0-standin'
__path__ = __path__ if '__path__' in globals() else []

_abs, _range, _round, _max, _min, _sum, _any, _all, _bool, _pow, _map = (
    builtins.abs, builtins.range, builtins.round, builtins.max, builtins.min,
    builtins.sum, builtins.any, builtins.all, builtins.bool, builtins.pow,
    builtins.map)


class Unsupported(NotImplementedError):
  """The stand-in does not provide what was asked for."""


# --------------------------------------------------------------------------
# errors
class OpError(Exception):
  def __init__(self, node_def=None, op=None, message='', *a):
    if message == '' and isinstance(node_def, str):
      message = node_def
    super().__init__(message)
    self.message = message


class InvalidArgumentError(OpError, ValueError):
  pass


class OutOfRangeError(OpError):
  pass


class NotFoundError(OpError):
  pass


class DataLossError(OpError):
  pass


class UnimplementedError(OpError):
  pass


class FailedPreconditionError(OpError):
  pass


errors = types.SimpleNamespace(
    OpError=OpError, InvalidArgumentError=InvalidArgumentError,
    OutOfRangeError=OutOfRangeError, NotFoundError=NotFoundError,
    DataLossError=DataLossError, UnimplementedError=UnimplementedError,
    FailedPreconditionError=FailedPreconditionError)


def _invalid(fmt, *a):
  raise InvalidArgumentError(None, None, fmt % a if a else fmt)


# --------------------------------------------------------------------------
# dtypes
class DType:

  def __init__(self, name, np_type, enum):
    self.name = name
    self._np = np.dtype(np_type)
    self.as_datatype_enum = enum

  as_numpy_dtype = property(lambda s: s._np.type if s.name != 'string' else np.object_)
  base_dtype = property(lambda s: s)
  real_dtype = property(lambda s: s)
  is_floating = property(lambda s: s._np.kind == 'f')
  is_integer = property(lambda s: s._np.kind in 'iu')
  is_bool = property(lambda s: s._np.kind == 'b')
  is_complex = property(lambda s: s._np.kind == 'c')
  is_unsigned = property(lambda s: s._np.kind == 'u')
  is_numpy_compatible = True
  size = property(lambda s: s._np.itemsize)

  @property
  def max(self):
    if self.is_bool:
      return True
    return np.finfo(self._np).max if self.is_floating else np.iinfo(self._np).max

  @property
  def min(self):
    if self.is_bool:
      return False
    return np.finfo(self._np).min if self.is_floating else np.iinfo(self._np).min

  @property
  def limits(self):
    return self.min, self.max

  def is_compatible_with(self, other):
    return self == other

  def __eq__(self, other):
    if other is None:
      return False
    try:
      return self.name == as_dtype(other).name
    except TypeError:
      return False

  def __ne__(self, other):
    return not self == other

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return 'tf.' + self.name

  __str__ = lambda s: "<dtype: '%s'>" % s.name

  def __reduce__(self):
    return as_dtype, (self.name,)


float16 = half = DType('float16', np.float16, 19)
float32 = DType('float32', np.float32, 1)
float64 = double = DType('float64', np.float64, 2)
int8 = DType('int8', np.int8, 6)
int16 = DType('int16', np.int16, 5)
int32 = DType('int32', np.int32, 3)
int64 = DType('int64', np.int64, 9)
uint8 = DType('uint8', np.uint8, 4)
uint16 = DType('uint16', np.uint16, 17)
uint32 = DType('uint32', np.uint32, 22)
uint64 = DType('uint64', np.uint64, 23)
bool = DType('bool', np.bool_, 10)  # pylint: disable=redefined-builtin
string = DType('string', object, 7)
complex64 = DType('complex64', np.complex64, 8)
complex128 = DType('complex128', np.complex128, 18)
_DTYPES = [float16, float32, float64, int8, int16, int32, int64, uint8, uint16,
           uint32, uint64, bool, string, complex64, complex128]
_BY_NAME = {d.name: d for d in _DTYPES}
_BY_NAME.update(float=float32, half=float16, double=float64)
_BY_NP = {d._np: d for d in _DTYPES if d is not string}


def as_dtype(t):
  if isinstance(t, DType):
    return t
  if isinstance(t, str) and t in _BY_NAME:
    return _BY_NAME[t]
  if t is float:
    return float32
  if t is int:
    return int32  # as TensorFlow does for Python types
  if t is builtins.bool:
    return bool
  if t in (str, bytes, object):
    return string
  try:
    d = np.dtype(t)
  except TypeError:
    raise TypeError('Cannot convert %r to a DType' % (t,))
  if d.kind in 'SUO':
    return string
  if d not in _BY_NP:
    raise TypeError('Cannot convert %r to a DType' % (t,))
  return _BY_NP[d]


dtypes = types.SimpleNamespace(DType=DType, as_dtype=as_dtype,
                               **{d.name: d for d in _DTYPES})


# --------------------------------------------------------------------------
# shapes
class Dimension(int):
  value = property(lambda s: int(s))


class TensorShape:

  def __init__(self, dims=None):
    if isinstance(dims, TensorShape):
      dims = dims._dims
    if isinstance(dims, (int, np.integer)):
      dims = [dims]
    self._dims = None if dims is None else tuple(
        None if d is None or int(d) < 0 else int(d) for d in dims)

  rank = property(lambda s: None if s._dims is None else len(s._dims))
  ndims = rank
  dims = property(lambda s: None if s._dims is None else
                  [None if d is None else Dimension(d) for d in s._dims])

  def as_list(self):
    if self._dims is None:
      raise ValueError('as_list() is not defined on an unknown TensorShape.')
    return list(self._dims)

  def is_fully_defined(self):
    return self._dims is not None and all(d is not None for d in self._dims)

  def num_elements(self):
    return int(np.prod(self._dims)) if self.is_fully_defined() else None

  def __len__(self):
    return len(self._dims)

  def __iter__(self):
    return iter(self._dims)

  def __getitem__(self, i):
    return TensorShape(self._dims[i]) if isinstance(i, builtins.slice) else self._dims[i]

  def __eq__(self, o):
    if not isinstance(o, TensorShape):
      try:
        o = TensorShape(o)
      except TypeError:
        return NotImplemented
    return self._dims == o._dims

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self._dims)

  def __bool__(self):
    return self._dims is not None

  def concatenate(self, o):
    return TensorShape(self._dims + TensorShape(o)._dims)

  def __add__(self, o):
    return self.concatenate(o)

  def __radd__(self, o):
    return TensorShape(o).concatenate(self)

  def is_compatible_with(self, o):
    o = TensorShape(o)
    if self._dims is None or o._dims is None:
      return True
    return len(self._dims) == len(o._dims) and all(
        a is None or b is None or a == b for a, b in zip(self._dims, o._dims))

  def assert_is_compatible_with(self, o):
    if not self.is_compatible_with(o):
      raise ValueError('Shapes %s and %s are incompatible' % (self, TensorShape(o)))

  def assert_has_rank(self, r):
    if self.rank not in (None, r):
      raise ValueError('Shape %s must have rank %d' % (self, r))

  def with_rank(self, r):
    self.assert_has_rank(r)
    return self

  def merge_with(self, o):
    o = TensorShape(o)
    self.assert_is_compatible_with(o)
    return self if self._dims is not None else o

  def __repr__(self):
    return 'TensorShape(%s)' % (None if self._dims is None else list(self._dims))

  def __str__(self):
    return '<unknown>' if self._dims is None else (
        '(%s)' % ', '.join(_map(str, self._dims)) if len(self._dims) != 1 else '(%s,)' % self._dims)


# --------------------------------------------------------------------------
# tensors
def _freeze(a):
  a = np.asarray(a)
  if a.flags.writeable:
    if a.base is not None:
      a = a.copy()
    a.flags.writeable = False
  return a


class Operation:
  pass


class Tensor:
  __array_priority__ = 100
  __slots__ = ('_a', '_dtype', '__weakref__')

  def __init__(self, a, dtype):
    self._a = _freeze(a)
    self._dtype = dtype

  dtype = property(lambda s: s._dtype)
  shape = property(lambda s: TensorShape(s._a.shape))
  ndim = property(lambda s: s._a.ndim)
  name = property(lambda s: 'Tensor:0')
  device = ''
  graph = None

  def numpy(self):
    if self._dtype is string:
      return self._a.copy() if self._a.ndim else self._a.item()
    return self._a.copy() if self._a.ndim else self._a[()]

  def get_shape(self):
    return self.shape

  def set_shape(self, shape):
    if not self.shape.is_compatible_with(shape):
      raise ValueError('Tensor\'s shape %s is not compatible with supplied shape %s' % (self.shape, TensorShape(shape)))

  def __array__(self, dtype=None, copy=None):
    a = self._a.copy()
    return a if dtype is None else a.astype(dtype)

  def __len__(self):
    if self._a.ndim == 0:
      raise TypeError('Scalar tensor has no `len()`')
    return len(self._a)

  def __iter__(self):
    if self._a.ndim == 0:
      raise TypeError('Cannot iterate over a scalar tensor.')
    for i in _range(self._a.shape[0]):
      yield Tensor(self._a[i], self._dtype)

  def __bool__(self):
    return builtins.bool(self._a.reshape(()) if self._a.size == 1 and self._a.ndim == 0 else self._a)

  def __int__(self):
    return int(self._a)

  def __float__(self):
    return float(self._a)

  def __complex__(self):
    return complex(self._a)

  def __index__(self):
    if self._dtype.is_integer and self._a.ndim == 0:
      return int(self._a)
    raise TypeError('only integer scalar tensors can be converted to an index')

  def __format__(self, f):
    return self.numpy().__format__(f) if self._a.ndim == 0 else repr(self).__format__(f)

  def __repr__(self):
    return '<tf.Tensor: shape=%s, dtype=%s, numpy=%r>' % (self.shape, self._dtype.name, self._a)

  def __hash__(self):
    raise TypeError('Tensor is unhashable. Instead, use tensor.ref() as the key.')

  def ref(self):
    return id(self)

  def eval(self, *a, **k):
    return self.numpy()

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    return _rebuild, (np.array(self._a), self._dtype.name)

  def __getitem__(self, key):
    if isinstance(key, Tensor) and key.dtype is bool or (
        isinstance(key, np.ndarray) and key.dtype == np.bool_):
      return boolean_mask(self, key)
    if not isinstance(key, tuple):
      key = (key,)
    out = []
    for k in key:
      if k is None or k is Ellipsis:
        out.append(k)
      elif isinstance(k, builtins.slice):
        out.append(builtins.slice(*[None if v is None else _as_index(v) for v in (k.start, k.stop, k.step)]))
      elif isinstance(k, builtins.bool):
        raise TypeError('Only integers, slices, ellipsis, tf.newaxis and scalar tensors are valid indices, got %r' % k)
      else:
        out.append(_as_index(k))
    try:
      return Tensor(self._a[tuple(out)], self._dtype)
    except IndexError as e:
      _invalid('slice index out of bounds: %s', e)

  # operators are attached below


def _rebuild(a, name):
  return Tensor(a, _BY_NAME[name])


def _as_index(v):
  if isinstance(v, Tensor):
    if not v.dtype.is_integer or v._a.ndim:
      raise TypeError('Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) and scalar tf.int32/tf.int64 tensors are valid indices')
    return int(v._a)
  if isinstance(v, (int, np.integer)) and not isinstance(v, builtins.bool):
    return int(v)
  if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind in 'iu':
    return int(v)
  raise TypeError('Only integers, slices (`:`), ellipsis (`...`), tf.newaxis (`None`) and scalar tf.int32/tf.int64 tensors are valid indices, got %r' % (v,))


EagerTensor = Tensor
# protobuf takes scalars of any registered integral type
numbers.Integral.register(Tensor)


class Variable(Tensor):
  __slots__ = ('trainable',)

  def __init__(self, initial_value=None, trainable=None, name=None, dtype=None, shape=None, **kw):
    v = initial_value() if callable(initial_value) else initial_value
    t = convert_to_tensor(v, dtype=dtype)
    Tensor.__init__(self, t._a, t._dtype)
    self.trainable = trainable

  def value(self):
    return Tensor(self._a, self._dtype)

  read_value = value

  def assign(self, v, **kw):
    t = convert_to_tensor(v, dtype=self._dtype)
    if t._a.shape != self._a.shape:
      raise ValueError('Shapes differ in assign: %s, %s' % (self._a.shape, t._a.shape))
    self._a = t._a
    return self

  def assign_add(self, v, **kw):
    return self.assign(self.value() + v)

  def assign_sub(self, v, **kw):
    return self.assign(self.value() - v)


def _compatible(want, got):
  """TensorFlow's IsCompatible(desired, returned)."""
  if want is got:
    return True
  if want.is_integer and got.is_integer:
    return True
  if want.is_floating and (got.is_floating or got.is_integer):
    return True
  if want.is_complex and (got.is_complex or got.is_floating or got.is_integer):
    return True
  return False


def _string_array(v):
  a = np.array(v, dtype=object)
  flat = [x.encode('utf-8') if isinstance(x, str) else x for x in a.reshape(-1).tolist()] if a.ndim else [v.encode('utf-8') if isinstance(v, str) else v]
  out = np.empty(len(flat), dtype=object)
  for i, x in enumerate(flat):
    if not isinstance(x, bytes):
      raise TypeError('cannot convert %r to a string tensor' % (x,))
    out[i] = x
  return out.reshape(a.shape)


def _has_tensor(v):
  return isinstance(v, Tensor) or (isinstance(v, (list, tuple)) and _any(_has_tensor(x) for x in v))


def _listify(v):
  if isinstance(v, Tensor):
    return v
  if isinstance(v, (list, tuple)):
    if _any(isinstance(x, _cabc.Sequence) and not isinstance(x, (str, bytes)) for x in v):
      return [_listify(x) for x in v]
    return v
  if isinstance(v, _cabc.Sequence) and not isinstance(v, (str, bytes, np.ndarray, np.generic)):
    return [_listify(x) for x in v]
  return v


def _leaf_dtype(v):
  """Dtype TensorFlow infers for a Python value: the first leaf decides, wider kinds win."""
  kinds = set()

  def walk(x):
    if isinstance(x, (list, tuple)):
      for y in x:
        walk(y)
    elif isinstance(x, (np.ndarray, np.generic)):
      kinds.add(as_dtype(x.dtype))
    elif isinstance(x, builtins.bool):
      kinds.add(bool)
    elif isinstance(x, int):
      kinds.add('int')
    elif isinstance(x, float):
      kinds.add('float')
    elif isinstance(x, (str, bytes)):
      kinds.add(string)
    elif isinstance(x, complex):
      kinds.add(complex128)
    elif hasattr(x, '__array__'):
      kinds.add(as_dtype(np.asarray(x).dtype))
    elif x is None:
      raise ValueError('Attempt to convert a value (None) with an unsupported type (<class \'NoneType\'>) to a Tensor.')
    else:
      raise ValueError('Attempt to convert a value (%r) with an unsupported type (%s) to a Tensor.' % (x, type(x)))

  walk(v)
  return kinds


def convert_to_tensor(value, dtype=None, dtype_hint=None, name=None, preferred_dtype=None):
  dtype_hint = preferred_dtype if dtype_hint is None else dtype_hint
  want = None if dtype is None else as_dtype(dtype)
  if isinstance(value, Tensor):
    if want is not None and want is not value._dtype:
      raise ValueError('Tensor conversion requested dtype %s for Tensor with dtype %s: %r' % (want.name, value._dtype.name, value))
    return value if type(value) is Tensor else Tensor(value._a, value._dtype)
  if isinstance(value, TensorShape):
    value = value.as_list()
    if want is None:
      want = int32
  if hasattr(value, '_as_tensor'):
    return convert_to_tensor(value._as_tensor(), dtype=dtype)
  if isinstance(value, (list, tuple)) and _has_tensor(value):
    return stack([convert_to_tensor(v, dtype=want or _group_dtype(value)) for v in value])
  hint = None if dtype_hint is None else as_dtype(dtype_hint)
  if isinstance(value, (np.ndarray, np.generic)):
    a = np.asarray(value)
    if a.dtype.kind in 'SU' or a.dtype.kind == 'O':
      if want not in (None, string):
        raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (value, want.name))
      return Tensor(_string_array(a.tolist()), string)
    got = as_dtype(a.dtype)
    if want is None:
      if hint is not None and _compatible(hint, got):
        want = hint
      else:
        want = got
    # graph mode converts any array to an explicit dtype
    if not _compatible(want, got) and (dtype is None or string in (want, got)):
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (value, want.name))
    return Tensor(np.array(a, dtype=want._np), want)
  if value is None:
    raise ValueError('None values not supported.')
  value = _listify(value)
  if isinstance(value, (list, tuple)) or np.isscalar(value) or isinstance(value, (str, bytes)) or hasattr(value, '__array__'):
    if not isinstance(value, (list, tuple, str, bytes, int, float, complex)) and hasattr(value, '__array__'):
      return convert_to_tensor(np.asarray(value), dtype=dtype, dtype_hint=dtype_hint)
    kinds = _leaf_dtype(value)
    if string in kinds:
      if len(kinds) > 1 or want not in (None, string):
        raise TypeError('Cannot convert %r to a tensor of dtype %s' % (value, want))
      return Tensor(_string_array(value), string)
    infer = None
    typed = [k for k in kinds if isinstance(k, DType)]
    if not kinds:
      infer = float32
    elif 'float' in kinds:
      if bool in kinds:
        raise TypeError('Can\'t convert Python sequence with mixed types to Tensor.')
      f = [k for k in typed if k.is_floating]
      infer = f[0] if f else float32
    elif 'int' in kinds:
      if bool in kinds:
        raise TypeError('Can\'t convert Python sequence with mixed types to Tensor.')
      infer = typed[0] if typed else int32
    else:
      infer = as_dtype(np.result_type(*[k._np for k in typed])) if len(typed) > 1 else typed[0]
    if want is None:
      want = hint if hint is not None and _compatible(hint, infer) else infer
    if kinds and not _compatible(want, infer):
      raise TypeError('Cannot convert %r to EagerTensor of dtype %s' % (value, want.name))
    try:
      a = np.array(value)
    except ValueError as e:
      raise ValueError('Can\'t convert non-rectangular Python sequence to Tensor.') from e
    if a.dtype == object:
      if kinds <= {'int'}:
        raise OverflowError('Python int too large to convert')
      raise ValueError('Can\'t convert non-rectangular Python sequence to Tensor.')
    if want.is_integer and a.size and a.dtype.kind in 'iu':
      if int(a.max()) > np.iinfo(want._np).max or int(a.min()) < np.iinfo(want._np).min:
        if want is int32 and dtype is None and hint is None:
          want = int64
          if int(a.max()) > np.iinfo(np.int64).max:
            raise ValueError('Can\'t convert Python sequence with out-of-range integer to Tensor.')
        else:
          raise ValueError('Can\'t convert Python sequence with out-of-range integer to Tensor.')
    with np.errstate(over='ignore'):
      return Tensor(a.astype(want._np), want)
  raise ValueError('Attempt to convert a value (%r) with an unsupported type (%s) to a Tensor.' % (value, type(value)))


_range_type = type(builtins.range(0))


def constant(value, dtype=None, shape=None, name='Const'):
  if isinstance(value, Tensor) and dtype is not None and as_dtype(dtype) is not value._dtype:
    value = value.numpy()
  t = convert_to_tensor(value, dtype=dtype)
  if shape is not None:
    s = _shape_arg(shape)
    if t._a.size == 1:
      return Tensor(np.broadcast_to(t._a.reshape(()), s).copy(), t._dtype)
    if t._a.size != int(np.prod(s)):
      raise TypeError('Eager execution of tf.constant with unsupported shape')
    return Tensor(t._a.reshape(s), t._dtype)
  return t


def _group_dtype(values):
  """Dtype of the first tensor among nested values, if any."""
  for v in values:
    if isinstance(v, Tensor):
      return v._dtype
    if isinstance(v, (list, tuple)):
      d = _group_dtype(v)
      if d is not None:
        return d
  return None


def _group(values, op='op'):
  """Converts operands that share one dtype attribute, as TensorFlow does."""
  d = _group_dtype(values)
  out = []
  for v in values:
    if isinstance(v, Tensor):
      t = convert_to_tensor(v)
      if t._dtype is not d:
        _invalid('cannot compute %s as input #%d was expected to be a %s tensor but is a %s tensor [Op:%s]', op, len(out), d.name, t._dtype.name, op)
    elif d is None:
      t = convert_to_tensor(v)
      d = t._dtype
    else:
      t = convert_to_tensor(v, dtype=d)
    out.append(t)
  # without tensors among the operands, Python integers join float operands
  return out


def _shape_arg(s):
  if isinstance(s, TensorShape):
    return tuple(s.as_list())
  if isinstance(s, Tensor):
    if not s._dtype.is_integer:
      raise TypeError('shape must be integer')
    return tuple(int(x) for x in np.atleast_1d(s._a))
  if isinstance(s, (int, np.integer)):
    return (int(s),)
  if isinstance(s, np.ndarray):
    return tuple(int(x) for x in np.atleast_1d(s))
  out = []
  for x in s:
    if isinstance(x, Tensor) and not x._dtype.is_integer or isinstance(x, (float, np.floating)):
      raise TypeError('shape must be integer, got %r' % (x,))
    if x is None:
      raise ValueError('Cannot convert a partially known TensorShape to a Tensor')
    out.append(int(x))
  return tuple(out)


def _axis_arg(axis):
  if axis is None:
    return None
  if isinstance(axis, Tensor):
    axis = axis.numpy()
  if isinstance(axis, (list, tuple, np.ndarray)) and np.ndim(axis):
    return tuple(int(a) for a in axis)
  return int(axis)


def _check_axis(a, axis, extra=0):
  for x in (axis if isinstance(axis, tuple) else () if axis is None else (axis,)):
    if not -(a.ndim + extra) <= x < a.ndim + extra:
      _invalid('Invalid axis %d for tensor of rank %d', x, a.ndim)


def _t(x, dtype=None):
  return convert_to_tensor(x, dtype=dtype)


def _out(a, dtype):
  return Tensor(np.asarray(a, dtype=dtype._np), dtype)


@contextlib.contextmanager
def _quiet():
  with np.errstate(all='ignore'):
    yield


def _need(t, ok, op):
  if not ok:
    _invalid('Value for attr \'T\' of %s is not in the list of allowed values for %s', t._dtype.name, op)


# --------------------------------------------------------------------------
# elementwise
def _binary(np_fn, op, out=None, types_ok=None):

  def f(x, y, name=None):
    x, y = _group([x, y], op)
    if types_ok is not None and not types_ok(x._dtype):
      _need(x, False, op)
    try:
      with _quiet():
        r = np_fn(x._a, y._a)
    except ValueError as e:
      if 'broadcast' in str(e):
        _invalid('Incompatible shapes: %s vs. %s [Op:%s]', list(x._a.shape), list(y._a.shape), op)
      raise
    return _out(r, out or x._dtype)

  f.__name__ = op
  return f


_numeric = lambda d: d is not bool and d is not string
_is_num = _numeric
_isfloat = lambda d: d.is_floating or d.is_complex


def _floordiv_np(x, y):
  if x.dtype.kind in 'iu':
    if np.any(y == 0):
      _invalid('Integer division by zero')
  return np.floor_divide(x, y)


def _floormod_np(x, y):
  if x.dtype.kind in 'iu' and np.any(y == 0):
    _invalid('Integer division by zero')
  return np.mod(x, y)


def _str_add(x, y):
  return np.add(x, y)


add = _binary(np.add, 'AddV2', types_ok=lambda d: d is not bool)
subtract = _binary(np.subtract, 'Sub', types_ok=_numeric)
multiply = _binary(np.multiply, 'Mul', types_ok=_numeric)
floordiv = _binary(_floordiv_np, 'FloorDiv', types_ok=_numeric)
floormod = mod = _binary(_floormod_np, 'FloorMod', types_ok=_numeric)
maximum = _binary(lambda a, b: np.where(np.isnan(a) | np.isnan(b), np.where(np.isnan(a), a, b), np.maximum(a, b)) if a.dtype.kind == 'f' else np.maximum(a, b), 'Maximum', types_ok=_numeric)
minimum = _binary(lambda a, b: np.minimum(a, b), 'Minimum', types_ok=_numeric)
atan2 = _binary(np.arctan2, 'Atan2', types_ok=_isfloat)
squared_difference = _binary(lambda a, b: np.square(a - b), 'SquaredDifference', types_ok=_numeric)


def _pow_np(a, b):
  if a.dtype.kind in 'iu' and np.any(b < 0):
    _invalid('Integers to negative integer powers are not allowed')
  return np.power(a, b)


pow = _binary(_pow_np, 'Pow', types_ok=_numeric)  # pylint: disable=redefined-builtin
_div_float = _binary(np.divide, 'RealDiv', types_ok=_isfloat)


def truediv(x, y, name=None):
  x, y = _group([x, y], 'RealDiv')
  if not _isfloat(x._dtype):
    if x._dtype in (bool, string):
      raise TypeError('`x` and `y` must be numeric')
    d = float32 if x._dtype in (int8, uint8, int16, uint16) else float64
    x, y = cast(x, d), cast(y, d)
  return _div_float(x, y)


divide = truediv


def _divide_no_nan(x, y, name=None):
  x, y = _group([x, y], 'DivNoNan')
  _need(x, _isfloat(x._dtype), 'DivNoNan')
  with _quiet():
    try:
      r = np.where(y._a == 0, x._a.dtype.type(0), np.divide(x._a, y._a))
    except ValueError:
      _invalid('Incompatible shapes: %s vs. %s [Op:DivNoNan]', list(x._a.shape), list(y._a.shape))
  return _out(r, x._dtype)


def _multiply_no_nan(x, y, name=None):
  x, y = _group([x, y], 'MulNoNan')
  with _quiet():
    return _out(np.where(y._a == 0, x._a.dtype.type(0), x._a * y._a), x._dtype)


greater = _binary(np.greater, 'Greater', bool, _numeric)
greater_equal = _binary(np.greater_equal, 'GreaterEqual', bool, _numeric)
less = _binary(np.less, 'Less', bool, _numeric)
less_equal = _binary(np.less_equal, 'LessEqual', bool, _numeric)
equal = _binary(np.equal, 'Equal', bool)
not_equal = _binary(np.not_equal, 'NotEqual', bool)


def _logical(np_fn, op):

  def f(x, y, name=None):
    x, y = _t(x), _t(y)
    for i, v in enumerate((x, y)):
      if v._dtype is not bool:
        _invalid('cannot compute %s as input #%d was expected to be a bool tensor but is a %s tensor [Op:%s]', op, i, v._dtype.name, op)
    try:
      return _out(np_fn(x._a, y._a), bool)
    except ValueError:
      _invalid('Incompatible shapes: %s vs. %s [Op:%s]', list(x._a.shape), list(y._a.shape), op)

  return f


logical_and = _logical(np.logical_and, 'LogicalAnd')
logical_or = _logical(np.logical_or, 'LogicalOr')
_logical_xor = _logical(np.logical_xor, 'LogicalXor')


def logical_not(x, name=None):
  x = _t(x)
  if x._dtype is not bool:
    _invalid('cannot compute LogicalNot as input #0 was expected to be a bool tensor but is a %s tensor [Op:LogicalNot]', x._dtype.name)
  return _out(np.logical_not(x._a), bool)


def _unary(np_fn, op, ok=_isfloat, out=None):

  def f(x, name=None):
    x = _t(x)
    _need(x, ok(x._dtype), op)
    with _quiet():
      return _out(np_fn(x._a), out or x._dtype)

  f.__name__ = op
  return f


sin, cos, tan = _unary(np.sin, 'Sin'), _unary(np.cos, 'Cos'), _unary(np.tan, 'Tan')
asin, acos, atan = _unary(np.arcsin, 'Asin'), _unary(np.arccos, 'Acos'), _unary(np.arctan, 'Atan')
sinh, cosh, tanh = _unary(np.sinh, 'Sinh'), _unary(np.cosh, 'Cosh'), _unary(np.tanh, 'Tanh')
exp, sqrt = _unary(np.exp, 'Exp'), _unary(np.sqrt, 'Sqrt')
_log, _log1p, _expm1 = _unary(np.log, 'Log'), _unary(np.log1p, 'Log1p'), _unary(np.expm1, 'Expm1')
_rsqrt = _unary(lambda a: (1 / np.sqrt(a)).astype(a.dtype), 'Rsqrt')
_reciprocal = _unary(lambda a: (1 / a).astype(a.dtype), 'Reciprocal')
sigmoid = _unary(lambda a: (1 / (1 + np.exp(-a))).astype(a.dtype), 'Sigmoid')
_softplus = _unary(lambda a: np.logaddexp(a, 0).astype(a.dtype), 'Softplus')
floor = _unary(np.floor, 'Floor')
_ceil = _unary(np.ceil, 'Ceil')
round = _unary(np.rint, 'Round', _numeric)  # pylint: disable=redefined-builtin
_rint = _unary(np.rint, 'Rint')
abs = _unary(np.abs, 'Abs', _numeric)  # pylint: disable=redefined-builtin
sign = _unary(lambda a: np.sign(a), 'Sign', _numeric)
square = _unary(np.square, 'Square', _numeric)
negative = _unary(np.negative, 'Neg', _numeric)
_is_nan = _unary(np.isnan, 'IsNan', out=bool)
_is_inf = _unary(np.isinf, 'IsInf', out=bool)
_is_finite = _unary(np.isfinite, 'IsFinite', out=bool)


def identity(x, name=None):
  return _t(x)


stop_gradient = identity


def clip_by_value(t, clip_value_min, clip_value_max, name=None):
  t = _t(t)
  lo, hi = _t(clip_value_min, t._dtype), _t(clip_value_max, t._dtype)
  r = np.maximum(np.minimum(t._a, hi._a), lo._a)
  if r.shape != t._a.shape:
    _invalid('Incompatible shapes in clip_by_value')
  return _out(r, t._dtype)


def cast(x, dtype, name=None):
  d = as_dtype(dtype)
  x = _t(x)
  if x._dtype is d:
    return x
  if string in (x._dtype, d):
    raise UnimplementedError(None, None, 'Cast %s to %s is not supported' % (x._dtype.name, d.name))
  a = x._a
  with _quiet():
    if a.dtype.kind == 'f' and d.is_integer:
      # as C does on x86: through int32/int64, undefined outside
      wide = np.trunc(a)
      bad = ~np.isfinite(wide)
      w = np.where(bad, 0, wide)
      if d.size < 8:
        lo, hi = -2.0**63, 2.0**63 - 1024
        r = np.clip(w.astype(np.float64), lo, hi).astype(np.int64)
        if d in (int32, int16, int8):
          r = np.where((r > 2**31 - 1) | (r < -2**31) | bad, -2**31, r)
        r = r.astype(d._np)
      else:
        r = np.clip(w.astype(np.float64), -2.0**63, 2.0**63 - 1024).astype(np.int64)
        r = np.where(bad, np.int64(-2**63), r).astype(d._np)
    else:
      r = a.astype(d._np)
  return _out(r, d)


def saturate_cast(x, dtype, name=None):
  d = as_dtype(dtype)
  x = _t(x)
  return cast(_out(np.clip(x._a, d.min, d.max), x._dtype), d)


to_float = lambda x, name=None: cast(x, float32)
to_int32 = lambda x, name=None: cast(x, int32)
to_int64 = lambda x, name=None: cast(x, int64)


def bitcast(x, type, name=None):  # pylint: disable=redefined-builtin
  x, d = _t(x), as_dtype(type)
  a = np.ascontiguousarray(x._a)
  si, so = x._dtype.size, d.size
  if si == so:
    return Tensor(a.view(d._np).reshape(a.shape), d)
  if si > so:
    return Tensor(a.reshape(a.shape + (1,)).view(d._np), d)
  if a.shape[-1:] != (so // si,):
    _invalid('Cannot bitcast from %s to %s: shape %s', x._dtype.name, d.name, a.shape)
  return Tensor(a.view(d._np).reshape(a.shape[:-1]), d)


def where(condition, x=None, y=None, name=None):
  c = _t(condition)
  if x is None and y is None:
    return _out(np.stack(np.nonzero(c._a), -1) if c._a.ndim else np.zeros((int(c._a != 0), 0)), int64)
  if x is None or y is None:
    raise ValueError('x and y must both be non-None or both be None.')
  if c._dtype is not bool:
    _invalid('cannot compute SelectV2 as input #0 was expected to be a bool tensor but is a %s tensor', c._dtype.name)
  x, y = _group([x, y], 'SelectV2')
  try:
    return _out(np.where(c._a, x._a, y._a), x._dtype)
  except ValueError:
    _invalid('condition %s, then %s, and else %s must be broadcastable', c._a.shape, x._a.shape, y._a.shape)


def _where_v1(condition, x=None, y=None, name=None):
  c = _t(condition)
  if x is None and y is None:
    return where(c)
  x, y = _group([x, y], 'Select')
  if x._a.shape != y._a.shape:
    _invalid('\'then\' and \'else\' must have the same size: %s, %s', x._a.shape, y._a.shape)
  a = c._a
  if a.shape != x._a.shape:
    if a.ndim == 1 and x._a.ndim >= 1 and a.shape[0] == x._a.shape[0]:
      a = a.reshape(a.shape + (1,) * (x._a.ndim - 1))
    elif a.ndim:
      _invalid('\'then\' must have the same size as condition: %s, %s', x._a.shape, a.shape)
  return _out(np.where(a, x._a, y._a), x._dtype)


# --------------------------------------------------------------------------
# reductions
def _reduce(np_fn, op, ok=lambda d: True, empty=None):

  def f(input_tensor, axis=None, keepdims=False, name=None, keep_dims=None, reduction_indices=None):
    x = _t(input_tensor)
    _need(x, ok(x._dtype), op)
    keepdims = keepdims if keep_dims is None else keep_dims
    ax = _axis_arg(axis if axis is not None else reduction_indices)
    _check_axis(x._a, ax)
    with _quiet():
      return _out(np_fn(x._a, axis=ax, keepdims=builtins.bool(keepdims)), x._dtype)

  f.__name__ = op
  return f


def _np_sum(a, axis, keepdims):
  if a.dtype == np.float32 or a.dtype == np.float16:
    return np.sum(a, axis=axis, keepdims=keepdims, dtype=a.dtype)
  return np.sum(a, axis=axis, keepdims=keepdims, dtype=a.dtype)


def _np_mean(a, axis, keepdims):
  n = np.prod([a.shape[i] for i in (range_all(a, axis))], dtype=np.int64)
  s = _np_sum(a, axis, keepdims)
  if a.dtype.kind in 'iu':
    return s // n if n else s
  return s / np.asarray(n, a.dtype)


def range_all(a, axis):
  if axis is None:
    return _range(a.ndim)
  return [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))] if a.ndim else []


def _np_extreme(fn, lowest):
  def g(a, axis, keepdims):
    init = (-np.inf if lowest else np.inf) if a.dtype.kind == 'f' else (
        np.iinfo(a.dtype).min if lowest else np.iinfo(a.dtype).max)
    return fn(a, axis=axis, keepdims=keepdims, initial=a.dtype.type(init))
  return g


reduce_sum = _reduce(_np_sum, 'Sum', _numeric)
reduce_mean = _reduce(_np_mean, 'Mean', _numeric)
reduce_prod = _reduce(lambda a, axis, keepdims: np.prod(a, axis=axis, keepdims=keepdims, dtype=a.dtype), 'Prod', _numeric)
reduce_max = _reduce(_np_extreme(np.max, True), 'Max', _numeric)
reduce_min = _reduce(_np_extreme(np.min, False), 'Min', _numeric)
reduce_any = _reduce(np.any, 'Any', lambda d: d is bool)
reduce_all = _reduce(np.all, 'All', lambda d: d is bool)
_reduce_variance = _reduce(lambda a, axis, keepdims: np.var(a, axis=axis, keepdims=keepdims), 'Var', _isfloat)
_reduce_std = _reduce(lambda a, axis, keepdims: np.std(a, axis=axis, keepdims=keepdims), 'Std', _isfloat)
_reduce_euclidean_norm = _reduce(lambda a, axis, keepdims: np.sqrt(_np_sum(a * a, axis, keepdims)), 'EuclideanNorm', _numeric)
reduce_logsumexp = _reduce(lambda a, axis, keepdims: np.logaddexp.reduce(a, axis=axis, keepdims=keepdims) if not isinstance(axis, tuple) and axis is not None else np.log(np.sum(np.exp(a), axis=axis, keepdims=keepdims)), 'LogSumExp', _isfloat)


def _count_nonzero(input, axis=None, keepdims=None, dtype=int64, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return _out(np.sum(x._a != 0, axis=_axis_arg(axis), keepdims=builtins.bool(keepdims)), as_dtype(dtype))


def _arg(np_fn, op):

  def f(input, axis=None, output_type=int64, name=None, dimension=None):  # pylint: disable=redefined-builtin
    x = _t(input)
    ax = _axis_arg(axis if axis is not None else dimension)
    ax = 0 if ax is None else ax
    _check_axis(x._a, ax)
    if x._a.shape[ax] == 0:
      _invalid('Reduction axis %d is empty in shape %s', ax, x._a.shape)
    return _out(np_fn(x._a, axis=ax), as_dtype(output_type))

  return f


# numpy and TensorFlow both answer the first of equal values; they differ on NaN
def _argmax_np(a, axis):
  if a.dtype.kind == 'f':
    a = np.where(np.isnan(a), -np.inf, a)
  return np.argmax(a, axis=axis)


def _argmin_np(a, axis):
  if a.dtype.kind == 'f':
    a = np.where(np.isnan(a), np.inf, a)
  return np.argmin(a, axis=axis)


argmax, argmin = _arg(_argmax_np, 'ArgMax'), _arg(_argmin_np, 'ArgMin')


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
  x = _t(x)
  ax = _axis_arg(axis)
  _check_axis(x._a, ax)
  return _out(_scan(np.cumsum, x._a, ax, exclusive, reverse, 0), x._dtype)


def _cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
  x = _t(x)
  return _out(_scan(np.cumprod, x._a, _axis_arg(axis), exclusive, reverse, 1), x._dtype)


def _scan(fn, a, ax, exclusive, rev, unit):
  if rev:
    a = np.flip(a, ax)
  r = fn(a, axis=ax, dtype=a.dtype)
  if exclusive:
    r = np.moveaxis(r, ax, 0)
    r = np.concatenate([np.full_like(r[:1], unit), r[:-1]], 0)
    r = np.moveaxis(r, 0, ax)
  return np.flip(r, ax) if rev else r


# --------------------------------------------------------------------------
# creation
def _fill(shape, v, dtype):
  d = as_dtype(dtype)
  s = _shape_arg(shape)
  if _any(x < 0 for x in s):
    _invalid('Dimensions must be >= 0: %s', s)
  if d is string:
    a = np.empty(s, dtype=object)
    a.fill(b'' if v == 0 else b'1')
    return Tensor(a, d)
  return Tensor(np.full(s, v, dtype=d._np), d)


def zeros(shape, dtype=float32, name=None, layout=None):
  return _fill(shape, 0, dtype)


def ones(shape, dtype=float32, name=None, layout=None):
  return _fill(shape, 1, dtype)


def zeros_like(input, dtype=None, name=None, optimize=True, layout=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return _fill(x._a.shape, 0, dtype or x._dtype)


def ones_like(input, dtype=None, name=None, optimize=True, layout=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return _fill(x._a.shape, 1, dtype or x._dtype)


def fill(dims, value, name=None, layout=None):
  v = _t(value)
  if v._a.ndim:
    _invalid('value must be a scalar, got shape %s', v._a.shape)
  s = _shape_arg(dims)
  if v._dtype is string:
    a = np.empty(s, dtype=object)
    a.fill(v._a.item())
    return Tensor(a, string)
  return Tensor(np.full(s, v._a, dtype=v._dtype._np), v._dtype)


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
  d = as_dtype(dtype)
  m = np.eye(int(num_rows), None if num_columns is None else int(num_columns), dtype=d._np)
  if batch_shape is not None:
    m = np.broadcast_to(m, _shape_arg(batch_shape) + m.shape).copy()
  return Tensor(m, d)


def range(start, limit=None, delta=1, dtype=None, name='range'):  # pylint: disable=redefined-builtin
  if limit is None:
    start, limit = 0, start
  vals = [start, limit, delta]
  if dtype is not None:
    d = as_dtype(dtype)
    vals = [v if isinstance(v, Tensor) and v._dtype is d else cast(v, d) if isinstance(v, Tensor) else _t(v, d) for v in vals]
  else:
    vals = [_t(v) for v in vals]
    order = [int32, int64, float32, float64]
    for v in vals:
      if v._dtype not in order:
        raise ValueError('range of %s' % v._dtype.name)
    d = order[_max(order.index(v._dtype) for v in vals)]
    vals = [cast(v, d) for v in vals]
  for v in vals:
    if v._a.ndim:
      _invalid('range arguments must be scalars')
  s, l, dl = [v._a.item() for v in vals]
  if dl == 0:
    _invalid('Requires delta != 0')
  if (l < s and dl > 0) or (l > s and dl < 0):
    if d.is_integer and ((s > l and dl > 0) or (s < l and dl < 0)):
      _invalid('Requires start <= limit when delta > 0: %s/%s', s, l)
    _invalid('Requires start <= limit when delta > 0: %s/%s', s, l)
  if d.is_integer:
    n = _max(0, -((s - l) // dl) if dl > 0 else -((s - l) // dl))
    n = len(builtins.range(s, l, dl))
  else:
    n = int(np.ceil(_abs((l - s) / dl)))
  sn, dn = d._np.type(s), d._np.type(dl)
  with _quiet():
    return _out(sn + dn * np.arange(n).astype(d._np), d)


def linspace(start, stop, num, name=None, axis=0):
  s, e = _group([start, stop], 'LinSpace')
  if not s._dtype.is_floating:
    s, e = cast(s, float64 if s._dtype in (int32, int64) else float32), cast(e, float64 if s._dtype in (int32, int64) else float32)
  n = int(num)
  d = s._dtype
  if n <= 0:
    _invalid('Requires num > 0: %d', n)
  if n == 1:
    r = np.expand_dims(s._a, 0)
  else:
    delta = (e._a - s._a) / d._np.type(n - 1)
    i = np.arange(n).astype(d._np).reshape((n,) + (1,) * s._a.ndim)
    r = s._a + delta * i
    r = np.concatenate([r[:-1], np.expand_dims(e._a, 0)], 0)
  return _out(np.moveaxis(r, 0, axis), d)


lin_space = linspace


def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
  i = _t(indices)
  d = as_dtype(dtype) if dtype is not None else (
      _group([v for v in (on_value, off_value) if v is not None])[0]._dtype
      if on_value is not None or off_value is not None else float32)
  on = 1 if on_value is None else np.asarray(_t(on_value)._a)
  off = 0 if off_value is None else np.asarray(_t(off_value)._a)
  n = int(depth)
  m = np.expand_dims(i._a, -1) == np.arange(n)
  r = np.where(m, on, off).astype(d._np)
  if axis is not None and axis != -1:
    r = np.moveaxis(r, -1, axis)
  return Tensor(r, d)


def meshgrid(*args, indexing='xy', name=None):
  ts = _group(list(args), 'Meshgrid') if _group_dtype(args) is not None else [_t(a) for a in args]
  return [_out(g, t._dtype) for g, t in zip(np.meshgrid(*[t._a for t in ts], indexing=indexing), ts)]


# --------------------------------------------------------------------------
# shape manipulation
def shape(input, out_type=int32, name=None):  # pylint: disable=redefined-builtin
  return _out(np.array(_t(input)._a.shape, dtype=np.int64), as_dtype(out_type))


def size(input, out_type=int32, name=None):  # pylint: disable=redefined-builtin
  return _out(_t(input)._a.size, as_dtype(out_type))


def rank(input, name=None):  # pylint: disable=redefined-builtin
  return _out(_t(input)._a.ndim, int32)


def reshape(tensor, shape, name=None):  # pylint: disable=redefined-outer-name
  x, s = _t(tensor), _shape_arg(shape)
  if s.count(-1) > 1 or _any(d < -1 for d in s):
    _invalid('Only one input size may be -1: %s', s)
  if -1 in s:
    rest = int(np.prod([d for d in s if d != -1]))
    if rest == 0:
      if x._a.size:
        _invalid('Input to reshape is a tensor with %d values, but the requested shape is %s', x._a.size, s)
      # TensorFlow refuses to infer the missing dimension of an empty tensor
      _invalid('reshape cannot infer the missing input size for an empty tensor unless all specified input sizes are non-zero')
    if x._a.size % rest:
      _invalid('Input to reshape is a tensor with %d values, but the requested shape requires a multiple of %d', x._a.size, rest)
  elif int(np.prod(s)) != x._a.size:
    _invalid('Input to reshape is a tensor with %d values, but the requested shape has %d', x._a.size, int(np.prod(s)))
  return Tensor(x._a.reshape(s), x._dtype)


def expand_dims(input, axis=None, name=None, dim=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  ax = _axis_arg(axis if axis is not None else dim)
  if isinstance(ax, tuple):
    ax, = ax
  _check_axis(x._a, ax, 1)
  return Tensor(np.expand_dims(x._a, ax), x._dtype)


def squeeze(input, axis=None, name=None, squeeze_dims=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  ax = _axis_arg(axis if axis is not None else squeeze_dims)
  if isinstance(ax, tuple) and not ax:
    ax = None
  _check_axis(x._a, ax)
  for i in (ax if isinstance(ax, tuple) else () if ax is None else (ax,)):
    if x._a.shape[i] != 1:
      _invalid('Can not squeeze dim[%d], expected a dimension of 1, got %d', i, x._a.shape[i])
  return Tensor(np.squeeze(x._a, ax), x._dtype)


def transpose(a, perm=None, conjugate=False, name='transpose'):
  x = _t(a)
  if perm is not None:
    perm = [int(p) for p in (_t(perm)._a)]
    if sorted(p % len(perm) for p in perm) != list(_range(x._a.ndim)):
      _invalid('transpose expects a vector of size %d. But got %s', x._a.ndim, perm)
  return Tensor(np.ascontiguousarray(np.transpose(x._a, perm)), x._dtype)


def concat(values, axis, name='concat'):
  if isinstance(values, Tensor):
    values = list(values) if values._a.ndim and not isinstance(axis, str) else [values]
  if not isinstance(values, (list, tuple)):
    values = [values]
  ax = int(axis)
  ts = _group(list(values), 'ConcatV2')
  if len(ts) == 1:
    return ts[0]
  _check_axis(ts[0]._a, ax)
  try:
    return _out(np.concatenate([t._a for t in ts], axis=ax), ts[0]._dtype)
  except ValueError as e:
    _invalid('ConcatOp : Dimension %d in shapes must be equal: %s', ax, [t._a.shape for t in ts])


def stack(values, axis=0, name='stack'):
  ts = _group(list(values), 'Pack')
  if not ts:
    raise ValueError('Must specify at least one tensor to stack')
  _check_axis(ts[0]._a, axis, 1)
  try:
    return _out(np.stack([t._a for t in ts], axis=int(axis)), ts[0]._dtype)
  except ValueError:
    _invalid('Shapes of all inputs must match: %s [Op:Pack]', [t._a.shape for t in ts])


def unstack(value, num=None, axis=0, name='unstack'):
  x = _t(value)
  _check_axis(x._a, axis)
  a = np.moveaxis(x._a, axis, 0)
  if num is not None and num != a.shape[0]:
    _invalid('Input shape axis %d must equal %d', axis, num)
  return [Tensor(v, x._dtype) for v in a]


def split(value, num_or_size_splits, axis=0, num=None, name='split'):
  x = _t(value)
  ax = int(axis)
  _check_axis(x._a, ax)
  n = x._a.shape[ax]
  s = num_or_size_splits
  if isinstance(s, Tensor):
    s = s.numpy()
  if np.ndim(s) == 0:
    if n % int(s):
      _invalid('Dimension size must be evenly divisible by %d but is %d', int(s), n)
    sizes = [n // int(s)] * int(s)
  else:
    sizes = [int(v) for v in s]
    if sizes.count(-1) == 1:
      sizes[sizes.index(-1)] = n - _sum(v for v in sizes if v != -1)
    if _sum(sizes) != n:
      _invalid('Determined shape must match: sizes %s of %d', sizes, n)
  return [Tensor(p, x._dtype) for p in np.split(x._a, np.cumsum(sizes)[:-1], axis=ax)]


def tile(input, multiples, name=None):  # pylint: disable=redefined-builtin
  x, m = _t(input), _shape_arg(multiples)
  if len(m) != x._a.ndim:
    _invalid('Expected multiples argument to be a vector of length %d but got length %d', x._a.ndim, len(m))
  return Tensor(np.tile(x._a, m), x._dtype)


def repeat(input, repeats, axis=None, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  r = np.asarray(_t(repeats)._a)
  if axis is not None:
    _check_axis(x._a, int(axis))
  return Tensor(np.repeat(x._a, r if r.ndim else int(r), axis=None if axis is None else int(axis)), x._dtype)


def broadcast_to(input, shape, name=None):  # pylint: disable=redefined-builtin,redefined-outer-name
  x = _t(input)
  try:
    return Tensor(np.broadcast_to(x._a, _shape_arg(shape)).copy(), x._dtype)
  except ValueError:
    _invalid('Incompatible shapes: %s vs. %s [Op:BroadcastTo]', x._a.shape, _shape_arg(shape))


def reverse(tensor, axis, name=None):
  x = _t(tensor)
  ax = _axis_arg(axis)
  _check_axis(x._a, ax)
  return Tensor(np.flip(x._a, ax).copy(), x._dtype)


def roll(input, shift, axis, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return Tensor(np.roll(x._a, _axis_arg(shift), _axis_arg(axis)), x._dtype)


def pad(tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
  x = _t(tensor)
  p = np.asarray(_t(paddings)._a)
  if p.shape != (x._a.ndim, 2):
    _invalid('The first dimension of paddings must be the rank of inputs %s %s', p.shape, x._a.shape)
  m = mode.lower()
  kw = dict(constant_values=_t(constant_values, x._dtype)._a.item()) if m == 'constant' else {}
  return Tensor(np.pad(x._a, p, mode=m, **kw), x._dtype)


def slice_(input_, begin, size, name=None):  # pylint: disable=redefined-outer-name
  x = _t(input_)
  b, s = _shape_arg(begin), _shape_arg(size)
  for i, (bb, ss) in enumerate(zip(b, s)):
    if bb < 0 or bb + _max(ss, 0) > x._a.shape[i]:
      _invalid('Expected begin[%d] in [0, %d], and size within', i, x._a.shape[i])
  return Tensor(x._a[tuple(builtins.slice(bb, None if ss == -1 else bb + ss) for bb, ss in zip(b, s))], x._dtype)


# --------------------------------------------------------------------------
# gather / scatter
def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
  x, i = _t(params), _t(indices)
  if not i._dtype.is_integer:
    _invalid('Value for attr \'Tindices\' of %s is not in the list of allowed values', i._dtype.name)
  bd = int(batch_dims)
  if bd < 0:
    bd += i._a.ndim
  ax = bd if axis is None else int(axis)
  _check_axis(x._a, ax)
  if ax < 0:
    ax += x._a.ndim
  n = x._a.shape[ax]
  if i._a.size and (i._a.min() < 0 or i._a.max() >= n):
    _invalid('indices = %s is not in [0, %d)', i._a, n)
  ix = i._a.astype(np.int64)
  if bd == 0:
    return Tensor(np.take(x._a, ix, axis=ax), x._dtype)
  if x._a.shape[:bd] != ix.shape[:bd]:
    _invalid('params and indices must agree in the batch dimensions: %s, %s', x._a.shape, ix.shape)
  bs = x._a.shape[:bd]
  out = [np.take(x._a[b], ix[b], axis=ax - bd) for b in np.ndindex(*bs)]
  tail = out[0].shape if out else x._a.shape[bd:ax] + ix.shape[bd:] + x._a.shape[ax + 1:]
  r = np.stack(out).reshape(bs + tail) if out else np.zeros(bs + tail, x._a.dtype)
  return Tensor(r, x._dtype)


def gather_nd(params, indices, batch_dims=0, name=None):
  x, i = _t(params), _t(indices)
  if not i._dtype.is_integer:
    _invalid('Value for attr \'Tindices\' of %s is not in the list of allowed values', i._dtype.name)
  bd = int(batch_dims)
  if i._a.ndim < 1:
    _invalid('indices must be at least a vector')
  if bd:
    bs = x._a.shape[:bd]
    if i._a.shape[:bd] != bs:
      _invalid('batch dimensions of indices and params must match')
    out = [gather_nd(Tensor(x._a[b], x._dtype), Tensor(i._a[b], i._dtype))._a for b in np.ndindex(*bs)]
    if not out:
      k = i._a.shape[-1]
      return Tensor(np.zeros(i._a.shape[:-1] + x._a.shape[bd + k:], x._a.dtype), x._dtype)
    return Tensor(np.stack(out).reshape(bs + out[0].shape), x._dtype)
  k = i._a.shape[-1]
  if k > x._a.ndim:
    _invalid('index innermost dimension length must be <= params rank; saw: %d vs. %d', k, x._a.ndim)
  for d in _range(k):
    c = i._a[..., d]
    if c.size and (c.min() < 0 or c.max() >= x._a.shape[d]):
      _invalid('indices[...] does not index into param shape %s', list(x._a.shape))
  return Tensor(x._a[tuple(np.moveaxis(i._a.astype(np.int64), -1, 0))] if k else np.broadcast_to(x._a, i._a.shape[:-1] + x._a.shape).copy(), x._dtype)


def _scatter_check(idx, shp, upd):
  k = idx.shape[-1] if idx.ndim else 1
  if idx.ndim < 1:
    _invalid('Indices shape must have rank at least one')
  if upd.shape != idx.shape[:-1] + tuple(shp[k:]):
    _invalid('Dimensions of updates %s do not match indices %s and shape %s', upd.shape, idx.shape, shp)
  for d in _range(k):
    c = idx[..., d]
    if c.size and (c.min() < 0 or c.max() >= shp[d]):
      _invalid('indices does not index into shape %s', list(shp))


def scatter_nd(indices, updates, shape, name=None):  # pylint: disable=redefined-outer-name
  i, u = _t(indices), _t(updates)
  s = _shape_arg(shape)
  _scatter_check(i._a, s, u._a)
  out = np.zeros(s, dtype=u._dtype._np)
  with _quiet():
    if u._dtype is bool:
      np.logical_or.at(out, tuple(np.moveaxis(i._a.astype(np.int64), -1, 0)), u._a)
    else:
      np.add.at(out, tuple(np.moveaxis(i._a.astype(np.int64), -1, 0)), u._a)
  return Tensor(out, u._dtype)


def _tsnu(fn):

  def f(tensor, indices, updates, name=None):
    x, i = _t(tensor), _t(indices)
    u = _t(updates, x._dtype)
    _scatter_check(i._a, x._a.shape, u._a)
    out = np.array(x._a)
    ix = tuple(np.moveaxis(i._a.astype(np.int64), -1, 0))
    fn(out, ix, u._a)
    return Tensor(out, x._dtype)

  return f


def _assign_at(out, ix, u):
  flat = list(zip(*[np.ravel(c) for c in ix])) if ix else [()]
  uu = u.reshape((len(flat),) + out.shape[len(ix):])
  for p, v in zip(flat, uu):
    out[p] = v


tensor_scatter_nd_update = _tsnu(_assign_at)
tensor_scatter_nd_add = _tsnu(lambda o, ix, u: np.add.at(o, ix, u))
tensor_scatter_nd_sub = _tsnu(lambda o, ix, u: np.subtract.at(o, ix, u))
tensor_scatter_nd_max = _tsnu(lambda o, ix, u: np.maximum.at(o, ix, u))
tensor_scatter_nd_min = _tsnu(lambda o, ix, u: np.minimum.at(o, ix, u))


def boolean_mask(tensor, mask, axis=None, name='boolean_mask'):
  x, m = _t(tensor), _t(mask)
  if m._dtype is not bool:
    raise TypeError('mask must be boolean')
  ax = 0 if axis is None else int(axis)
  if m._a.ndim == 0:
    raise ValueError('mask cannot be scalar.')
  if x._a.shape[ax:ax + m._a.ndim] != m._a.shape:
    raise ValueError('Shapes %s and %s are incompatible' % (x._a.shape[ax:ax + m._a.ndim], m._a.shape))
  return Tensor(x._a[(builtins.slice(None),) * ax + (m._a,)], x._dtype)


def _segment(fn, init, op):

  def f(data, segment_ids, num_segments, name=None):
    x, s = _t(data), _t(segment_ids)
    n = int(num_segments)
    k = s._a.ndim
    if x._a.shape[:k] != s._a.shape:
      _invalid('data.shape = %s does not start with segment_ids.shape = %s', x._a.shape, s._a.shape)
    if s._a.size and s._a.max() >= n:
      _invalid('segment_ids = %d is out of range [0, %d)', s._a.max(), n)
    out = np.full((n,) + x._a.shape[k:], init(x._dtype), dtype=x._dtype._np)
    flat, ids = x._a.reshape((-1,) + x._a.shape[k:]), s._a.reshape(-1)
    keep = ids >= 0
    with _quiet():
      fn.at(out, ids[keep], flat[keep])
    return Tensor(out, x._dtype)

  return f


_unsorted_segment_sum = _segment(np.add, lambda d: 0, 'UnsortedSegmentSum')
_unsorted_segment_prod = _segment(np.multiply, lambda d: 1, 'UnsortedSegmentProd')
_unsorted_segment_max = _segment(np.maximum, lambda d: d.min, 'UnsortedSegmentMax')
_unsorted_segment_min = _segment(np.minimum, lambda d: d.max, 'UnsortedSegmentMin')


def _unsorted_segment_mean(data, segment_ids, num_segments, name=None):
  x = _t(data)
  s = _unsorted_segment_sum(x, segment_ids, num_segments)
  c = _unsorted_segment_sum(ones_like(x), segment_ids, num_segments)
  return _out(s._a / np.maximum(c._a, 1), x._dtype)


def unique(x, out_idx=int32, name=None):
  y, i, _ = unique_with_counts(x, out_idx)
  return _Unique(y, i)


import collections as _collections
_Unique = _collections.namedtuple('Unique', ['y', 'idx'])
_UniqueC = _collections.namedtuple('UniqueWithCounts', ['y', 'idx', 'count'])
_TopK = _collections.namedtuple('TopKV2', ['values', 'indices'])


def unique_with_counts(x, out_idx=int32, name=None):
  x = _t(x)
  if x._a.ndim != 1:
    _invalid('unique expects a 1D vector.')
  order, idx, cnt = {}, [], []
  for v in x._a.tolist():
    if v not in order:
      order[v] = len(order)
      cnt.append(0)
    idx.append(order[v])
    cnt[order[v]] += 1
  y = np.array(list(order), dtype=x._dtype._np) if x._dtype is not string else _string_array(list(order)) if order else np.empty(0, object)
  d = as_dtype(out_idx)
  return _UniqueC(Tensor(y, x._dtype), _out(np.array(idx, dtype=np.int64), d), _out(np.array(cnt, dtype=np.int64), d))


def _bincount(arr, weights=None, minlength=None, maxlength=None, dtype=int32, name=None, axis=None, binary_output=False):
  a = _t(arr)
  r = np.bincount(a._a.reshape(-1), None if weights is None else _t(weights)._a.reshape(-1), int(minlength or 0))
  if maxlength is not None:
    r = r[:int(maxlength)]
  return _out(r, as_dtype(dtype) if weights is None else _t(weights)._dtype)


def sort(values, axis=-1, direction='ASCENDING', name=None):
  x = _t(values)
  r = np.sort(x._a, axis=int(axis), kind='stable')
  return Tensor(np.flip(r, int(axis)).copy() if direction == 'DESCENDING' else r, x._dtype)


def argsort(values, axis=-1, direction='ASCENDING', stable=False, name=None):
  x = _t(values)
  a = x._a
  if direction == 'DESCENDING':
    a = -a if a.dtype.kind != 'u' else a.max() - a
  return _out(np.argsort(a, axis=int(axis), kind='stable'), int32)


def _top_k(input, k=1, sorted=True, index_type=int32, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  k = int(k)
  if x._a.shape[-1] < k:
    _invalid('input must have at least k columns. Had %d, needed %d', x._a.shape[-1], k)
  i = np.argsort(-x._a, axis=-1, kind='stable')[..., :k]
  return _TopK(Tensor(np.take_along_axis(x._a, i, -1), x._dtype), _out(i, as_dtype(index_type)))


def searchsorted(sorted_sequence, values, side='left', out_type=int32, name=None):
  s, v = _group([sorted_sequence, values], 'SearchSorted')
  if s._a.ndim == 1:
    return _out(np.searchsorted(s._a, v._a, side), as_dtype(out_type))
  f, g = s._a.reshape(-1, s._a.shape[-1]), v._a.reshape(-1, v._a.shape[-1])
  return _out(np.stack([np.searchsorted(a, b, side) for a, b in zip(f, g)]).reshape(v._a.shape), as_dtype(out_type))


def sequence_mask(lengths, maxlen=None, dtype=bool, name=None):
  l = _t(lengths)
  m = int(maxlen) if maxlen is not None else int(l._a.max())
  return _out(np.arange(m) < np.expand_dims(l._a, -1), as_dtype(dtype))


def histogram_fixed_width(values, value_range, nbins=100, dtype=int32, name=None):
  v = _t(values)
  r = _t(value_range, v._dtype)._a
  i = np.floor((v._a.astype(np.float64) - r[0]) / (float(r[1]) - float(r[0])) * nbins).astype(np.int64).clip(0, nbins - 1)
  return _out(np.bincount(i.reshape(-1), minlength=nbins), as_dtype(dtype))


# --------------------------------------------------------------------------
# linear algebra
def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, a_is_sparse=False, b_is_sparse=False, output_type=None, name=None):
  x, y = _group([a, b], 'MatMul')
  p, q = x._a, y._a
  if p.ndim < 2 or q.ndim < 2:
    _invalid('In[0] and In[1] has to have ndims >= 2')
  if transpose_a or adjoint_a:
    p = np.swapaxes(p, -1, -2)
  if transpose_b or adjoint_b:
    q = np.swapaxes(q, -1, -2)
  if p.shape[-1] != q.shape[-2]:
    _invalid('Matrix size-incompatible: In[0]: %s, In[1]: %s', p.shape, q.shape)
  try:
    with _quiet():
      return _out(np.matmul(p, q), x._dtype)
  except ValueError:
    _invalid('In[0] and In[1] must have compatible batch dimensions: %s vs. %s', p.shape, q.shape)


def _matvec(a, b, transpose_a=False, **kw):
  x, y = _group([a, b], 'MatVec')
  p = np.swapaxes(x._a, -1, -2) if transpose_a else x._a
  return _out(np.matmul(p, y._a[..., None])[..., 0], x._dtype)


def einsum(equation, *inputs, **kw):
  ts = _group(list(inputs), 'Einsum')
  eq = equation.replace(' ', '')
  try:
    with _quiet():
      return _out(np.einsum(eq, *[t._a for t in ts]), ts[0]._dtype)
  except ValueError as e:
    _invalid('Einsum %s: %s', eq, e)


def tensordot(a, b, axes, name=None):
  x, y = _group([a, b], 'Tensordot')
  return _out(np.tensordot(x._a, y._a, axes=axes), x._dtype)


def norm(tensor, ord='euclidean', axis=None, keepdims=None, name=None, keep_dims=None):
  x = _t(tensor)
  _need(x, _isfloat(x._dtype), 'norm')
  ax = _axis_arg(axis)
  _check_axis(x._a, ax)
  kd = builtins.bool(keepdims or keep_dims)
  with _quiet():
    if ord in ('euclidean', 'fro', 2) and not (ord == 2 and isinstance(ax, tuple)):
      return _out(np.sqrt(_np_sum(x._a * x._a, ax, kd)), x._dtype)
    if ord == 1:
      return _out(_np_sum(np.abs(x._a), ax, kd), x._dtype)
    if ord == np.inf:
      return _out(np.max(np.abs(x._a), axis=ax, keepdims=kd), x._dtype)
  raise Unsupported('norm of order %r' % (ord,))


def _inv(input, adjoint=False, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  _need(x, _isfloat(x._dtype), 'MatrixInverse')
  if x._a.ndim < 2 or x._a.shape[-1] != x._a.shape[-2]:
    _invalid('Input matrix must be square: %s', x._a.shape)
  try:
    return _out(np.linalg.inv(x._a), x._dtype)
  except np.linalg.LinAlgError:
    _invalid('Input is not invertible.')


def _det(input, name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return _out(np.linalg.det(x._a), x._dtype)


def _diag(diagonal, name=None, **kw):
  x = _t(diagonal)
  n = x._a.shape[-1]
  r = np.zeros(x._a.shape + (n,), x._a.dtype)
  i = np.arange(n)
  r[..., i, i] = x._a
  return Tensor(r, x._dtype)


def _diag_part(input, name=None, **kw):  # pylint: disable=redefined-builtin
  x = _t(input)
  return Tensor(np.diagonal(x._a, axis1=-2, axis2=-1).copy(), x._dtype)


def _trace(x, name=None):
  x = _t(x)
  return _out(np.trace(x._a, axis1=-2, axis2=-1), x._dtype)


def _cross(a, b, name=None):
  x, y = _group([a, b], 'Cross')
  return _out(np.cross(x._a, y._a), x._dtype)


def _l2_normalize(x, axis=None, epsilon=1e-12, name=None, dim=None):
  x = _t(x)
  s = _np_sum(x._a * x._a, _axis_arg(axis if axis is not None else dim), True)
  return _out(x._a / np.sqrt(np.maximum(s, x._a.dtype.type(epsilon))), x._dtype)


def _softmax(logits, axis=-1, name=None):
  x = _t(logits)
  e = np.exp(x._a - np.max(x._a, axis=axis, keepdims=True))
  return _out(e / np.sum(e, axis=axis, keepdims=True), x._dtype)


def _relu(x, name=None):
  x = _t(x)
  return _out(np.maximum(x._a, 0), x._dtype)


def _add_n(inputs, name=None):
  ts = _group(list(inputs), 'AddN')
  if not ts:
    raise ValueError('inputs must be a list of at least one Tensor')
  if len({t._a.shape for t in ts}) > 1:
    _invalid('Inputs to operation AddN must have the same size and shape')
  r = ts[0]._a
  for t in ts[1:]:
    r = r + t._a
  return _out(r, ts[0]._dtype)


def _invert_permutation(x, name=None):
  x = _t(x)
  r = np.empty_like(x._a)
  r[x._a] = np.arange(x._a.shape[0])
  return Tensor(r, x._dtype)


def _cumulative(*a, **k):
  raise Unsupported('cumulative')


def _in_top_k(*a, **k):
  raise Unsupported('in_top_k')


# --------------------------------------------------------------------------
# control
def cond(pred, true_fn=None, false_fn=None, name=None, **kw):
  return true_fn() if builtins.bool(_t(pred)) else false_fn()


def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name='case'):
  items = list(pred_fn_pairs.items()) if isinstance(pred_fn_pairs, dict) else pred_fn_pairs
  for p, fn in items:
    if builtins.bool(_t(p)):
      return fn()
  return default()


def while_loop(cond, body, loop_vars, **kw):  # pylint: disable=redefined-outer-name
  v = list(loop_vars)
  while builtins.bool(cond(*v)):
    r = body(*v)
    v = list(r) if isinstance(r, (list, tuple)) else [r]
  return v


def _flatten(x):
  if isinstance(x, dict):
    return [v for k in sorted(x) for v in _flatten(x[k])]
  if isinstance(x, (list, tuple)):
    return [v for y in x for v in _flatten(y)]
  return [x]


def _pack(like, it):
  if isinstance(like, dict):
    return type(like)((k, _pack(like[k], it)) for k in sorted(like)) if not hasattr(like, '_fields') else None
  if isinstance(like, tuple) and hasattr(like, '_fields'):
    return type(like)(*[_pack(y, it) for y in like])
  if isinstance(like, (list, tuple)):
    return type(like)([_pack(y, it) for y in like])
  return next(it)


def _map_structure(fn, *structs, **kw):
  flats = [_flatten(s) for s in structs]
  return _pack(structs[0], iter([fn(*v) for v in zip(*flats)]))


def map_fn(fn, elems, dtype=None, parallel_iterations=None, back_prop=True, swap_memory=False, infer_shape=True, name=None, fn_output_signature=None):
  flat = [_t(e) for e in _flatten(elems)]
  n = flat[0]._a.shape[0]
  outs = [fn(_pack(elems, iter([Tensor(e._a[i], e._dtype) for e in flat]))) for i in _range(n)]
  if n == 0:
    sig = fn_output_signature if fn_output_signature is not None else dtype
    if sig is None and len(flat) == 1:
      sig = flat[0]._dtype
    raise Unsupported('map_fn over nothing')
  sig = fn_output_signature if fn_output_signature is not None else dtype
  if sig is not None:
    want = _flatten(sig)
    for o in outs:
      for w, v in zip(want, _flatten(o)):
        if isinstance(w, (DType, type)) or isinstance(w, str):
          if _t(v)._dtype is not as_dtype(w):
            raise TypeError('map_fn: %s expected, got %s' % (w, _t(v)._dtype))
  cols = [stack(list(c)) for c in zip(*[_flatten(o) for o in outs])]
  return _pack(outs[0], iter(cols))


def vectorized_map(fn, elems, **kw):
  return map_fn(fn, elems)


def py_function(func=None, inp=None, Tout=None, name=None):
  r = func(*[_t(i) for i in inp])
  if isinstance(Tout, (list, tuple)):
    r = r if isinstance(r, (list, tuple)) else [r]
    return [_t(v, d) if not isinstance(v, Tensor) else v for v, d in zip(r, Tout)]
  return _t(r, Tout) if not isinstance(r, Tensor) else r


def numpy_function(func=None, inp=None, Tout=None, stateful=True, name=None):
  r = func(*[_t(i).numpy() for i in inp])
  if isinstance(Tout, (list, tuple)):
    r = r if isinstance(r, (list, tuple)) else [r]
    return [_t(v, d) for v, d in zip(r, Tout)]
  return _t(r, Tout)


py_func = numpy_function


def function(func=None, input_signature=None, autograph=True, jit_compile=None, reduce_retracing=False, **kw):
  if func is None:
    return lambda f: function(f)

  @functools.wraps(func)
  def wrapped(*a, **k):
    return func(*a, **k)

  wrapped.python_function = func
  return wrapped


def group(*a, **k):
  return Operation()


def no_op(name=None):
  return Operation()


def tuple_(tensors, **kw):
  return list(tensors)


@contextlib.contextmanager
def _null_ctx(*a, **k):
  yield a[0] if a and isinstance(a[0], str) else 'scope/'


class _NameScope(contextlib.AbstractContextManager):

  def __init__(self, name=None, default_name=None, values=None):
    self.name = name or default_name or 'scope'

  def __enter__(self):
    return self.name + '/'

  def __exit__(self, *a):
    return False


name_scope = variable_scope = _NameScope
control_dependencies = device = _null_ctx
init_scope = _null_ctx


class Module:

  def __init__(self, name=None):
    pass


class GradientTape:

  def __init__(self, *a, **k):
    raise Unsupported('gradients')


class TensorSpec:

  def __init__(self, shape=None, dtype=float32, name=None):
    self.shape, self.dtype, self.name = TensorShape(shape), as_dtype(dtype), name


def executing_eagerly():
  return True


def is_tensor(x):
  return isinstance(x, Tensor)


def get_static_value(t, partial=False):
  return t.numpy() if isinstance(t, Tensor) else np.asarray(t)


def print(*a, **k):  # pylint: disable=redefined-builtin
  return None


# --------------------------------------------------------------------------
# assertions
def _assert(ok, kind, x, y, message):
  if not ok:
    _invalid('%s: assertion %s failed: %r %r', message or '', kind, x, y)


def _assert_cmp(fn, kind):

  def f(x, y, message=None, summarize=None, name=None, data=None):
    x, y = _group([x, y], kind)
    _assert(builtins.bool(np.all(fn(x._a, y._a))), kind, x._a, y._a, message)

  return f


assert_equal = _assert_cmp(np.equal, 'equal')
_assert_none_equal = _assert_cmp(np.not_equal, 'none_equal')
assert_less = _assert_cmp(np.less, 'less')
assert_greater = _assert_cmp(np.greater, 'greater')
_assert_less_equal = _assert_cmp(np.less_equal, 'less_equal')
_assert_greater_equal = _assert_cmp(np.greater_equal, 'greater_equal')


def _assert_near(x, y, rtol=None, atol=None, message=None, summarize=None, name=None):
  x, y = _group([x, y], 'near')
  e = 10 * np.finfo(x._a.dtype).eps
  r, a = (e if rtol is None else rtol), (e if atol is None else atol)
  _assert(builtins.bool(np.all(np.abs(x._a - y._a) <= a + r * np.abs(y._a))), 'near', x._a, y._a, message)


def _assert_sign(fn, kind):

  def f(x, message=None, summarize=None, name=None, data=None):
    x = _t(x)
    _assert(builtins.bool(np.all(fn(x._a))), kind, x._a, '', message)

  return f


_assert_non_negative = _assert_sign(lambda a: a >= 0, 'non_negative')
_assert_positive = _assert_sign(lambda a: a > 0, 'positive')
_assert_negative = _assert_sign(lambda a: a < 0, 'negative')
_assert_non_positive = _assert_sign(lambda a: a <= 0, 'non_positive')


def assert_rank(tensor, rank, message=None, name=None, data=None, summarize=None):  # pylint: disable=redefined-outer-name
  x = _t(tensor)
  if x._a.ndim != int(rank):
    raise ValueError('%s.  Tensor  must have rank %s.  Received rank %d, shape %s' % (message or '', rank, x._a.ndim, x._a.shape))


def _assert_rank_at_least(x, rank, message=None, name=None, data=None, summarize=None):  # pylint: disable=redefined-outer-name
  x = _t(x)
  if x._a.ndim < int(rank):
    raise ValueError('%s: tensor must have rank at least %s' % (message or '', rank))


def _assert_rank_in(x, ranks, message=None, name=None, data=None, summarize=None):
  x = _t(x)
  if x._a.ndim not in [int(r) for r in ranks]:
    raise ValueError('%s: tensor must have a rank in %s' % (message or '', ranks))


def _assert_shapes(shapes, data=None, summarize=None, message=None, name=None):
  items = list(shapes.items()) if isinstance(shapes, dict) else list(shapes)
  sym = {}
  for x, want in items:
    a = _t(x)._a
    if isinstance(want, (int, str)) or want is None:
      want = [want] if not isinstance(want, str) else list(want)
    want = list(want)
    got = list(a.shape)
    if Ellipsis in want[:1]:
      want = want[1:]
      if len(got) < len(want):
        raise ValueError('%s. Specified a longer rank' % (message or ''))
      got = got[len(got) - len(want):]
    elif Ellipsis in want[-1:]:
      want = want[:-1]
      got = got[:len(want)]
    if len(got) != len(want):
      raise ValueError('%s: Tensor shape %s does not match %s' % (message or '', a.shape, want))
    for w, g in zip(want, got):
      if w is None or w == '.' or w == '*':
        continue
      if isinstance(w, Tensor):
        w = int(w)
      if isinstance(w, (int, np.integer)):
        if w != g:
          raise ValueError('%s: Tensor dimension %s must have size %s but has %s' % (message or '', w, w, g))
      else:
        w = str(w)
        if w.isdigit():
          if int(w) != g:
            raise ValueError('%s: Tensor dimension %s must have size %s but has %s' % (message or '', w, w, g))
        elif sym.setdefault(w, g) != g:
          raise ValueError('%s: Tensor dimension %s must have size %s but has %s' % (message or '', w, sym[w], g))


def ensure_shape(x, shape, name=None):  # pylint: disable=redefined-outer-name
  x = _t(x)
  if not x.shape.is_compatible_with(shape):
    _invalid('Shape of tensor %s is not compatible with expected shape %s.', x._a.shape, TensorShape(shape))
  return x


def _assert_scalar(tensor, name=None, message=None):
  t = _t(tensor)
  if t._a.ndim:
    raise ValueError('%s: expected a scalar' % (message or ''))
  return t


def _assert_type(tensor, tf_type, message=None, name=None):
  if _t(tensor)._dtype is not as_dtype(tf_type):
    raise TypeError('%s: tensor must be of type %s' % (message or '', tf_type))


def _check_numerics(tensor, message, name=None):
  x = _t(tensor)
  if not np.all(np.isfinite(x._a)):
    _invalid('%s : Tensor had NaN or Inf values', message)
  return x


def Assert(condition, data, summarize=None, name=None):
  if not builtins.bool(_t(condition)):
    _invalid('assertion failed: %s', data)


debugging = types.SimpleNamespace(
    assert_equal=assert_equal, assert_none_equal=_assert_none_equal,
    assert_less=assert_less, assert_greater=assert_greater,
    assert_less_equal=_assert_less_equal, assert_greater_equal=_assert_greater_equal,
    assert_near=_assert_near, assert_non_negative=_assert_non_negative,
    assert_positive=_assert_positive, assert_negative=_assert_negative,
    assert_non_positive=_assert_non_positive, assert_rank=assert_rank,
    assert_rank_at_least=_assert_rank_at_least, assert_rank_in=_assert_rank_in,
    assert_shapes=_assert_shapes, assert_scalar=_assert_scalar,
    assert_type=_assert_type, check_numerics=_check_numerics, Assert=Assert,
    is_numeric_tensor=lambda t: isinstance(t, Tensor) and _numeric(t._dtype))

# --------------------------------------------------------------------------
# operators
def _op(fn, swap=False):

  def f(self, other):
    if other is None:
      return NotImplemented
    return fn(other, self) if swap else fn(self, other)

  return f


for _n, _f in dict(add=add, sub=subtract, mul=multiply, truediv=truediv, floordiv=floordiv, mod=floormod, pow=pow, matmul=matmul).items():
  setattr(Tensor, '__%s__' % _n, _op(_f))
  setattr(Tensor, '__r%s__' % _n, _op(_f, True))
for _n, _f in dict(lt=less, le=less_equal, gt=greater, ge=greater_equal).items():
  setattr(Tensor, '__%s__' % _n, _op(_f))


def _bitop(lf, bf):
  def f(x, y):
    d = _group_dtype([x, y])
    return lf(x, y) if d is bool else bf(x, y)
  return f


_isint = lambda d: d.is_integer
_bitwise_and = _binary(np.bitwise_and, 'BitwiseAnd', types_ok=_isint)
_bitwise_or = _binary(np.bitwise_or, 'BitwiseOr', types_ok=_isint)
_bitwise_xor = _binary(np.bitwise_xor, 'BitwiseXor', types_ok=_isint)
_left_shift = _binary(np.left_shift, 'LeftShift', types_ok=_isint)
_right_shift = _binary(np.right_shift, 'RightShift', types_ok=_isint)
_invert = _unary(np.invert, 'Invert', _isint)
for _n, _l, _b in (('and', logical_and, _bitwise_and), ('or', logical_or, _bitwise_or), ('xor', _logical_xor, _bitwise_xor)):
  setattr(Tensor, '__%s__' % _n, _op(_bitop(_l, _b)))
  setattr(Tensor, '__r%s__' % _n, _op(_bitop(_l, _b), True))
Tensor.__neg__ = lambda s: negative(s)
Tensor.__pos__ = lambda s: s
Tensor.__abs__ = lambda s: abs(s)
Tensor.__invert__ = lambda s: logical_not(s) if s._dtype is bool else _invert(s)


def _eq(self, other):
  if other is None:
    return False
  try:
    return equal(self, other)
  except (InvalidArgumentError, ValueError):
    # incompatible shapes compare unequal as a whole; dtypes that differ are an error
    o = other if isinstance(other, Tensor) else None
    if o is not None and o._dtype is not self._dtype:
      raise
    return False


def _ne(self, other):
  if other is None:
    return True
  try:
    return not_equal(self, other)
  except (InvalidArgumentError, ValueError):
    o = other if isinstance(other, Tensor) else None
    if o is not None and o._dtype is not self._dtype:
      raise
    return True


Tensor.__eq__ = _eq
Tensor.__ne__ = _ne

bitwise = types.SimpleNamespace(
    bitwise_and=_bitwise_and, bitwise_or=_bitwise_or, bitwise_xor=_bitwise_xor,
    left_shift=_left_shift, right_shift=_right_shift, invert=_invert)

newaxis = None

# --------------------------------------------------------------------------
# strings, io, images
def _as_string(x, precision=-1, **kw):
  x = _t(x)
  if x._dtype.is_integer or x._dtype is bool:
    return Tensor(_string_array(np.vectorize(str, otypes=[object])(x._a).tolist()), string)
  return Tensor(_string_array(np.vectorize(lambda v: ('%.' + ('6' if precision < 0 else str(precision)) + 'f') % v, otypes=[object])(x._a).tolist()), string)


def _str_join(inputs, separator='', name=None):
  ts = [_t(i, string) for i in inputs]
  sep = separator.encode()
  b = np.broadcast_arrays(*[t._a for t in ts])
  flat = [sep.join(v) for v in zip(*[x.reshape(-1).tolist() for x in b])]
  return Tensor(_string_array(flat).reshape(b[0].shape) if b[0].shape else _string_array(flat[0]), string)


def _str_len(input, unit='BYTE', name=None):  # pylint: disable=redefined-builtin
  x = _t(input)
  return _out(np.vectorize(len, otypes=[np.int32])(x._a), int32)


strings = types.SimpleNamespace(as_string=_as_string, join=_str_join, length=_str_len)
as_string = _as_string


def _decode_compressed(bytes, compression_type='', name=None):  # pylint: disable=redefined-builtin
  x = _t(bytes)
  if x._dtype is not string:
    _invalid('decode_compressed expects a string tensor')
  def one(b):
    if compression_type == '':
      return b
    try:
      return zlib.decompress(b, 47 if compression_type == 'GZIP' else 15)
    except zlib.error as e:
      raise DataLossError(None, None, str(e))
  if x._a.ndim == 0:
    return Tensor(_string_array(one(x._a.item())), string)
  return Tensor(_string_array([one(b) for b in x._a.reshape(-1).tolist()]).reshape(x._a.shape), string)


def _decode_raw(input_bytes=None, out_type=None, little_endian=True, fixed_length=None, name=None, bytes=None):
  x, d = _t(input_bytes if input_bytes is not None else bytes), as_dtype(out_type)
  if x._a.ndim == 0:
    return Tensor(np.frombuffer(x._a.item(), dtype=d._np).copy(), d)
  return Tensor(np.stack([np.frombuffer(b, dtype=d._np) for b in x._a.tolist()]), d)


def _png_chunks(b):
  if b[:8] != b'\x89PNG\r\n\x1a\n':
    _invalid('Unknown image file format. One of JPEG, PNG, GIF, BMP required.')
  i = 8
  while i + 8 <= len(b):
    n, = struct.unpack('>I', b[i:i + 4])
    yield b[i + 4:i + 8], b[i + 8:i + 8 + n]
    i += 12 + n


def _decode_jpeg(contents, channels=0, **unused):
  # As the real op, it also reads PNG data.
  if _t(contents)._a.item()[:8] != b'\x89PNG\r\n\x1a\n':
    raise Unsupported('decode_jpeg')
  return _decode_png(contents, channels)


def _decode_png(contents, channels=0, dtype=uint8, name=None):
  b = _t(contents)._a.item()
  d = as_dtype(dtype)
  idat, hdr, plte = [], None, None
  for k, v in _png_chunks(b):
    if k == b'IHDR':
      hdr = struct.unpack('>IIBBBBB', v)
    elif k == b'PLTE':
      plte = np.frombuffer(v, np.uint8).reshape(-1, 3)
    elif k == b'IDAT':
      idat.append(v)
  w, h, depth, color, _, _, interlace = hdr
  if interlace or depth not in (8, 16) or (color == 3 and depth != 8):
    raise Unsupported('png format')
  ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
  bpp = ch * depth // 8
  raw = zlib.decompress(b''.join(idat))
  stride = w * bpp
  prev = np.zeros(stride, np.uint8)
  rows = []
  for y in _range(h):
    f = raw[y * (stride + 1)]
    line = np.frombuffer(raw, np.uint8, stride, y * (stride + 1) + 1).copy()
    if f == 2:
      line = line + prev
    elif f:
      ln, pv = line.tolist(), prev.tolist()
      for i in _range(stride):
        a = ln[i - bpp] if i >= bpp else 0
        u = pv[i]
        c = pv[i - bpp] if i >= bpp else 0
        if f == 1:
          p = a
        elif f == 3:
          p = (a + u) // 2
        else:
          e = a + u - c
          pa, pb, pc = _abs(e - a), _abs(e - u), _abs(e - c)
          p = a if pa <= pb and pa <= pc else u if pb <= pc else c
        ln[i] = (ln[i] + p) & 255
      line = np.array(ln, np.uint8)
    rows.append(line)
    prev = line
  a = np.stack(rows) if rows else np.zeros((0, stride), np.uint8)
  a = a.reshape(h, w, ch) if depth == 8 else a.reshape(h, w, ch, 2).astype(np.uint16) @ np.array([256, 1], np.uint16)
  if color == 3:
    a = plte[a[..., 0]]
  want = channels or a.shape[-1]
  if want != a.shape[-1]:
    full = np.iinfo(a.dtype).max
    src = a.shape[-1]
    if want == 4 and src == 3:
      a = np.concatenate([a, np.full(a.shape[:2] + (1,), full, a.dtype)], -1)
    elif want == 3 and src == 4:
      a = a[..., :3]
    elif want == 3 and src in (1, 2):
      a = np.repeat(a[..., :1], 3, -1)
    elif want == 1 and src == 2:
      a = a[..., :1]
    elif want == 1:
      a = np.rint(a[..., :3].astype(np.float64) @ [6968 / 32768, 23434 / 32768, 2366 / 32768])[..., None].astype(a.dtype)
    else:
      raise Unsupported('png channels')
  if d is uint8 and a.dtype == np.uint16:
    a = (a >> 8).astype(np.uint8)
  elif d is uint16 and a.dtype == np.uint8:
    a = a.astype(np.uint16) * 257
  return Tensor(np.ascontiguousarray(a), d)


def _encode_png(image, compression=-1, name=None):
  x = _t(image)
  if x._dtype not in (uint8, uint16):
    _invalid('encode_png of %s', x._dtype.name)
  a = x._a
  if a.ndim != 3 or a.shape[2] not in (1, 2, 3, 4):
    _invalid('image must be 3-dimensional %s', a.shape)
  h, w, ch = a.shape
  depth = 8 if a.dtype == np.uint8 else 16
  rows = a.astype('>u2' if depth == 16 else np.uint8).reshape(h, -1)
  raw = b''.join(b'\0' + r.tobytes() for r in rows)
  def chunk(k, v):
    return struct.pack('>I', len(v)) + k + v + struct.pack('>I', zlib.crc32(k + v))
  out = b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, {1: 0, 2: 4, 3: 2, 4: 6}[ch], 0, 0, 0)) + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b'')
  return Tensor(_string_array(out), string)


def _unsupported(name):
  def f(*a, **k):
    raise Unsupported(name)
  return f


def _hsv_to_rgb(images, name=None):
  x = _t(images)
  h, s, v = x._a[..., 0], x._a[..., 1], x._a[..., 2]
  c = s * v
  m = v - c
  dh = h * 6
  with _quiet():
    fmodu = dh - 2 * np.floor(dh / 2)
  xx = c * (1 - np.abs(fmodu - 1))
  k = np.floor(dh).astype(np.int64) % 6
  z = np.zeros_like(c)
  r = np.choose(k, [c, xx, z, z, xx, c])
  g = np.choose(k, [xx, c, c, xx, z, z])
  b = np.choose(k, [z, z, xx, c, c, xx])
  return _out(np.stack([r + m, g + m, b + m], -1), x._dtype)


def _resize(images, size, method='bilinear', **kw):  # pylint: disable=redefined-outer-name
  raise Unsupported('resize')


FixedLenFeature = _collections.namedtuple('FixedLenFeature', ['shape', 'dtype', 'default_value'])
FixedLenFeature.__new__.__defaults__ = (None,)
VarLenFeature = _collections.namedtuple('VarLenFeature', ['dtype'])


def _parse_single_example(serialized, features, example_names=None, name=None):
  from waymo_open_dataset_standin import example_pb2  # pylint: disable=g-import-not-at-top
  ex = example_pb2.Example()
  ex.ParseFromString(_t(serialized)._a.item())
  out = {}
  for k in features:
    f = features[k]
    if not isinstance(f, FixedLenFeature):
      raise Unsupported('feature kind')
    d, s = as_dtype(f.dtype), _shape_arg(f.shape)
    n = int(np.prod(s))
    if k not in ex.features.feature or ex.features.feature[k].WhichOneof('kind') is None:
      if f.default_value is None:
        _invalid('Feature: %s (data type: %s) is required but could not be found.', k, d.name)
      out[k] = constant(f.default_value, d, s)
      continue
    v = ex.features.feature[k]
    kind = {'float32': 'float_list', 'int64': 'int64_list', 'string': 'bytes_list'}[d.name]
    if v.WhichOneof('kind') != kind:
      _invalid('Feature: %s. Data types don\'t match. Expected type: %s', k, d.name)
    vals = list(getattr(v, kind).value)
    if len(vals) != n:
      _invalid('Key: %s. Can\'t parse serialized Example: number of values %d, expected %d', k, len(vals), n)
    out[k] = Tensor(_string_array(vals).reshape(s) if d is string else np.array(vals, d._np).reshape(s), d)
  return out


class _Gfile:

  @staticmethod
  def GFile(name, mode='r'):
    return open(name, mode)

  Open = GFile

  @staticmethod
  def exists(p):
    import os
    return os.path.exists(p)

  @staticmethod
  def makedirs(p):
    import os
    os.makedirs(p, exist_ok=True)

  @staticmethod
  def glob(p):
    import glob
    return sorted(glob.glob(p)) if isinstance(p, str) else sorted(x for q in p for x in glob.glob(q))

  @staticmethod
  def listdir(p):
    import os
    return os.listdir(p)

  @staticmethod
  def isdir(p):
    import os
    return os.path.isdir(p)


def _tfrecords(path):
  with open(path, 'rb') as f:
    while True:
      h = f.read(12)
      if not h:
        return
      n, = struct.unpack('<Q', h[:8])
      yield f.read(n)
      f.read(4)


class _Dataset:

  def __init__(self, make):
    self._make = make

  @classmethod
  def from_tensor_slices(cls, x):
    flat = [_t(v) for v in _flatten(x)]
    return cls(lambda: (_pack(x, iter([Tensor(f._a[i], f._dtype) for f in flat])) for i in _range(flat[0]._a.shape[0])))

  def __iter__(self):
    return iter(self._make())

  def as_numpy_iterator(self):
    return (_map_structure(lambda t: t.numpy(), e) for e in self._make())

  def map(self, fn, **kw):
    return _Dataset(lambda: (fn(*e) if isinstance(e, tuple) else fn(e) for e in self._make()))

  def filter(self, fn):
    return _Dataset(lambda: (e for e in self._make() if builtins.bool(fn(e))))

  def take(self, n):
    import itertools
    return _Dataset(lambda: itertools.islice(self._make(), n))

  def repeat(self, count=None):
    import itertools
    def make():
      n = itertools.count() if count is None or count < 0 else _range(count)
      for _ in n:
        yield from self._make()
    return _Dataset(make)

  def batch(self, n, drop_remainder=False, **kw):
    def make():
      cur = []
      for e in self._make():
        cur.append(e)
        if len(cur) == n:
          yield _map_structure(lambda *v: stack(v), *cur)
          cur = []
      if cur and not drop_remainder:
        yield _map_structure(lambda *v: stack(v), *cur)
    return _Dataset(make)

  def enumerate(self, start=0):
    return _Dataset(lambda: ((constant(i, int64), e) for i, e in builtins.enumerate(self._make(), start)))

  def get_single_element(self, name=None):
    e = list(self._make())
    if len(e) != 1:
      _invalid('Dataset had %d elements.', len(e))
    return e[0]

  def prefetch(self, *a):
    return self


class _TFRecordDataset(_Dataset):

  def __init__(self, filenames, compression_type=None, **kw):
    names = [filenames] if isinstance(filenames, (str, bytes)) else [_t(f)._a.item() if isinstance(f, Tensor) else f for f in filenames]
    if compression_type:
      raise Unsupported('compressed records')
    super().__init__(lambda: (Tensor(_string_array(r), string) for n in names for r in _tfrecords(n)))


data = types.SimpleNamespace(Dataset=_Dataset, TFRecordDataset=_TFRecordDataset, AUTOTUNE=-1,
                             experimental=types.SimpleNamespace(AUTOTUNE=-1))
io = types.SimpleNamespace(
    FixedLenFeature=FixedLenFeature, VarLenFeature=VarLenFeature, parse_single_example=_parse_single_example,
    decode_compressed=_decode_compressed, decode_raw=_decode_raw, decode_png=_decode_png,
    encode_png=_encode_png, decode_jpeg=_decode_jpeg, encode_jpeg=_unsupported('encode_jpeg'),
    decode_image=_decode_png, gfile=_Gfile)
gfile = _Gfile
image = types.SimpleNamespace(decode_png=_decode_png, encode_png=_encode_png, hsv_to_rgb=_hsv_to_rgb,
                              resize=_resize, decode_jpeg=_decode_jpeg, decode_image=_decode_png)


class _Lazy:

  def __init__(self, names):
    self._names = names

  def __getattr__(self, n):
    if n in self.__dict__.get('_names', ()):
      from waymo_open_dataset_standin import example_pb2  # pylint: disable=g-import-not-at-top
      return getattr(example_pb2, n)
    raise Unsupported('tf.train.' + n)


train = _Lazy({'Example', 'Features', 'Feature', 'FloatList', 'Int64List', 'BytesList', 'SequenceExample', 'FeatureList', 'FeatureLists'})

math = types.SimpleNamespace(
    add=add, subtract=subtract, multiply=multiply, divide=divide, truediv=truediv,
    floordiv=floordiv, floormod=floormod, mod=floormod, divide_no_nan=_divide_no_nan,
    multiply_no_nan=_multiply_no_nan, pow=pow, sqrt=sqrt, rsqrt=_rsqrt, exp=exp, expm1=_expm1,
    log=_log, log1p=_log1p, sin=sin, cos=cos, tan=tan, asin=asin, acos=acos, atan=atan,
    atan2=atan2, sinh=sinh, cosh=cosh, tanh=tanh, sigmoid=sigmoid, softplus=_softplus,
    floor=floor, ceil=_ceil, round=round, rint=_rint, abs=abs, sign=sign, square=square,
    negative=negative, reciprocal=_reciprocal, maximum=maximum, minimum=minimum,
    squared_difference=squared_difference, is_nan=_is_nan, is_inf=_is_inf,
    is_finite=_is_finite, logical_and=logical_and, logical_or=logical_or,
    logical_not=logical_not, logical_xor=_logical_xor, equal=equal,
    not_equal=not_equal, greater=greater, greater_equal=greater_equal, less=less,
    less_equal=less_equal, reduce_sum=reduce_sum, reduce_mean=reduce_mean,
    reduce_prod=reduce_prod, reduce_max=reduce_max, reduce_min=reduce_min,
    reduce_any=reduce_any, reduce_all=reduce_all, reduce_std=_reduce_std,
    reduce_variance=_reduce_variance, reduce_euclidean_norm=_reduce_euclidean_norm,
    reduce_logsumexp=reduce_logsumexp, argmax=argmax, argmin=argmin, cumsum=cumsum,
    cumprod=_cumprod, count_nonzero=_count_nonzero, add_n=_add_n, top_k=_top_k,
    unsorted_segment_sum=_unsorted_segment_sum, unsorted_segment_mean=_unsorted_segment_mean,
    unsorted_segment_max=_unsorted_segment_max, unsorted_segment_min=_unsorted_segment_min,
    unsorted_segment_prod=_unsorted_segment_prod, invert_permutation=_invert_permutation,
    l2_normalize=_l2_normalize, bincount=_bincount, softmax=_softmax)
linalg = types.SimpleNamespace(
    matmul=matmul, matvec=_matvec, inv=_inv, det=_det, norm=norm, eye=eye, diag=_diag,
    diag_part=_diag_part, set_diag=_unsupported('set_diag'), trace=_trace, cross=_cross,
    einsum=einsum, l2_normalize=_l2_normalize, matrix_transpose=lambda a, name=None: Tensor(np.swapaxes(_t(a)._a, -1, -2).copy(), _t(a)._dtype),
    tensordot=tensordot, normalize=_unsupported('normalize'))
nest = types.SimpleNamespace(map_structure=_map_structure, flatten=_flatten,
                             pack_sequence_as=lambda s, f: _pack(s, iter(f)))
nn = types.SimpleNamespace(softmax=_softmax, relu=_relu, sigmoid=sigmoid, l2_normalize=_l2_normalize, top_k=_top_k)
log = _log
is_nan = _is_nan


class _Random:
  _rng = np.random.RandomState(0)

  @classmethod
  def set_seed(cls, s):
    cls._rng = np.random.RandomState(s)

  @classmethod
  def uniform(cls, shape, minval=0, maxval=None, dtype=float32, seed=None, name=None):  # pylint: disable=redefined-outer-name
    d = as_dtype(dtype)
    maxval = 1 if maxval is None else maxval
    s = _shape_arg(shape)
    lo, hi = float(minval), float(maxval)
    r = cls._rng.random_sample(s) * (hi - lo) + lo
    return _out(np.floor(r) if d.is_integer else r, d)

  @classmethod
  def normal(cls, shape, mean=0.0, stddev=1.0, dtype=float32, seed=None, name=None):  # pylint: disable=redefined-outer-name
    return _out(cls._rng.standard_normal(_shape_arg(shape)) * float(stddev) + float(mean), as_dtype(dtype))

  @classmethod
  def shuffle(cls, value, seed=None, name=None):
    x = _t(value)
    return Tensor(x._a[cls._rng.permutation(x._a.shape[0])], x._dtype)


random = _Random
set_random_seed = _Random.set_seed


class _Types:
  class experimental:
    TensorLike = object


types_ = _Types


# --------------------------------------------------------------------------
# keras metrics used by the occupancy flow metrics
class _Metric:

  def __init__(self, name=None, dtype=None, **kw):
    self.name = name

  def __call__(self, *a, **k):
    self.update_state(*a, **k)
    return self.result()

  def reset_state(self):
    """Resets the metrics that this one tracks as attributes."""
    def walk(v):
      if isinstance(v, _Metric):
        v.reset_state()
      elif isinstance(v, dict):
        for x in v.values():
          walk(x)
      elif isinstance(v, (list, tuple)):
        for x in v:
          walk(x)
    for v in vars(self).values():
      walk(v)

  def reset_states(self):
    self.reset_state()


def _metric_weights(values, weights):
  """Weights as wide as values (keras' squeeze_or_expand and broadcast_weights)."""
  if weights is None:
    return np.ones_like(values)
  w = cast(weights, float32)._a
  if w.ndim == 0:
    return np.broadcast_to(w, values.shape)
  if w.ndim - values.ndim == 1 and w.shape[-1] == 1:
    w = w[..., 0]
  elif values.ndim - w.ndim == 1:
    w = w[..., None]
  if w.ndim != values.ndim or _any(a not in (1, b) for a, b in zip(w.shape, values.shape)):
    raise Unsupported('weights %s for values %s' % (w.shape, values.shape))
  return np.broadcast_to(w, values.shape)


class _Mean(_Metric):

  def __init__(self, name='mean', dtype=None):
    super().__init__(name)
    self.reset_state()

  def reset_state(self):
    self._sum = np.float32(0)
    self._n = np.float32(0)

  reset_states = reset_state

  def update_state(self, values, sample_weight=None):
    v = cast(values, float32)._a
    w = _metric_weights(v, sample_weight)
    self._sum = np.float32(self._sum + np.sum(v * w, dtype=np.float32))
    self._n = np.float32(self._n + np.sum(w, dtype=np.float32))

  def result(self):
    return _divide_no_nan(_out(self._sum, float32), _out(self._n, float32))


class _AUC(_Metric):

  def __init__(self, num_thresholds=200, curve='ROC', summation_method='interpolation', name=None, dtype=None, thresholds=None, **kw):
    super().__init__(name)
    if kw or thresholds is not None:
      raise Unsupported('AUC options')
    self.curve, self.method = curve, summation_method
    if summation_method != 'interpolation' or curve != 'PR':
      raise Unsupported('AUC kind')
    t = [(i + 1) * 1.0 / (num_thresholds - 1) for i in _range(num_thresholds - 2)]
    self._t = np.array([-1e-7] + t + [1 + 1e-7], np.float32)
    self.reset_state()

  def reset_state(self):
    n = len(self._t)
    self.tp, self.fp, self.fn, self.tn = (np.zeros(n, np.float64) for _ in _range(4))

  reset_states = reset_state

  def update_state(self, y_true, y_pred, sample_weight=None):
    if sample_weight is not None:
      raise Unsupported('AUC weights')
    y = cast(y_true, bool)._a.reshape(-1)
    p = cast(y_pred, float32)._a.reshape(-1)
    if np.any(p < 0) or np.any(p > 1) or np.any(np.isnan(p)):
      _invalid('predictions must be in [0, 1]')
    if y.shape != p.shape:
      _invalid('Shapes of labels and predictions differ')
    pos, neg = np.sort(p[y]), np.sort(p[~y])
    tp = len(pos) - np.searchsorted(pos, self._t, 'right')
    fp = len(neg) - np.searchsorted(neg, self._t, 'right')
    self.tp += tp
    self.fp += fp
    self.fn += len(pos) - tp
    self.tn += len(neg) - fp

  def result(self):
    tp, fp, fn = self.tp, self.fp, self.fn
    dn = lambda a, b: np.where(b > 0, a / np.where(b > 0, b, 1), 0)
    n = len(self._t)
    dtp = tp[:n - 1] - tp[1:]
    p = tp + fp
    dp = p[:n - 1] - p[1:]
    slope = dn(dtp, np.maximum(dp, 0))
    inter = tp[1:] - slope * p[1:]
    ok = (p[:n - 1] > 0) & (p[1:] > 0)
    ratio = np.where(ok, p[:n - 1] / np.where(p[1:] > 0, p[1:], 1), 1)
    inc = dn(slope * (dtp + inter * np.log(ratio)), np.maximum(tp[1:] + fn[1:], 0))
    return _out(np.sum(inc), float32)


class _Counts(_Metric):

  def __init__(self, thresholds=None, top_k=None, class_id=None, name=None, dtype=None):
    super().__init__(name)
    if top_k is not None or class_id is not None or thresholds is not None:
      raise Unsupported('precision and recall options')
    self.reset_state()

  def reset_state(self):
    self.tp = self.fp = self.fn = np.float32(0)

  def update_state(self, y_true, y_pred, sample_weight=None):
    p = cast(y_pred, float32)._a
    t = cast(y_true, float32)._a
    if np.any(p < 0) or np.any(p > 1):
      _invalid('predictions must be in [0, 1]')
    if p.shape != t.shape:
      raise Unsupported('labels and predictions of different shapes')
    w = _metric_weights(p, sample_weight)
    p, t = p > 0.5, t != 0
    self.tp = np.float32(self.tp + np.sum(w * (p & t), dtype=np.float32))
    self.fp = np.float32(self.fp + np.sum(w * (p & ~t), dtype=np.float32))
    self.fn = np.float32(self.fn + np.sum(w * (~p & t), dtype=np.float32))


class _Precision(_Counts):

  def result(self):
    return _divide_no_nan(_out(self.tp, float32), _out(np.float32(self.tp + self.fp), float32))


class _Recall(_Counts):

  def result(self):
    return _divide_no_nan(_out(self.tp, float32), _out(np.float32(self.tp + self.fn), float32))


keras = types.SimpleNamespace(
    metrics=types.SimpleNamespace(Metric=_Metric, Mean=_Mean, AUC=_AUC, Recall=_Recall, Precision=_Precision),
    backend=types.SimpleNamespace(epsilon=lambda: 1e-7))
metrics = keras.metrics


OP_HOOK = None


class _OpLibrary:

  def __init__(self, path):
    self._path = path

  def __getattr__(self, op):
    def call(*a, **k):
      if OP_HOOK is None:
        raise Unsupported('op %s of %s' % (op, self._path))
      return OP_HOOK(op, a, k)
    return call


def load_op_library(name):
  """Kernels of the library are run by OP_HOOK, which a check may set."""
  return _OpLibrary(name)


# --------------------------------------------------------------------------
# compat
class _ResourceLoader:

  @staticmethod
  def get_path_to_datafile(p):
    import os
    return os.path.join(os.path.dirname(os.path.abspath(sys._getframe(1).f_code.co_filename)), p)


class _GraphKeys:
  METRIC_VARIABLES, LOCAL_VARIABLES, GLOBAL_VARIABLES = 'metric_variables', 'local_variables', 'variables'


LOCAL_VARIABLES = {}
_SCOPES = []


class _VariableScope(contextlib.AbstractContextManager):

  def __init__(self, name_or_scope, default_name=None, values=None, reuse=None, **kw):
    self.name = name_or_scope or default_name

  def __enter__(self):
    _SCOPES.append(self.name)
    return self

  def __exit__(self, *a):
    _SCOPES.pop()
    return False


def _get_local_variable(name, shape=None, dtype=None, initializer=None, collections=None, validate_shape=True, **kw):
  """Variables live until a check clears LOCAL_VARIABLES (a new session)."""
  key = '/'.join(_SCOPES + [name])
  if key not in LOCAL_VARIABLES:
    LOCAL_VARIABLES[key] = Variable(initializer, dtype=dtype)
  v = LOCAL_VARIABLES[key]
  if dtype is not None and v._dtype != as_dtype(dtype):
    raise ValueError('Trying to share variable %s with another type' % key)
  return v


def _assign(ref, value, validate_shape=None, use_locking=None, name=None):
  t = convert_to_tensor(value, dtype=ref._dtype)
  if validate_shape is False:
    ref._a = t._a
    return ref
  return ref.assign(t)


def _v1():
  ns = types.SimpleNamespace(**{k: v for k, v in globals().items() if not k.startswith('_')})
  ns.where = _where_v1
  ns.name_scope = ns.variable_scope = _NameScope
  ns.resource_loader = _ResourceLoader
  ns.GraphKeys = _GraphKeys
  ns.AUTO_REUSE = True
  ns.div = lambda x, y, name=None: floordiv(x, y) if _group([x, y])[0]._dtype.is_integer else truediv(x, y)
  for n in ('assert_less_equal', 'assert_greater_equal', 'assert_non_negative', 'assert_positive', 'assert_rank_at_least', 'assert_near'):
    setattr(ns, n, getattr(debugging, n))
  ns.enable_eager_execution = ns.enable_v2_behavior = lambda *a, **k: None
  ns.disable_eager_execution = ns.disable_v2_behavior = _unsupported('graph mode')
  ns.variable_scope, ns.get_local_variable, ns.assign = _VariableScope, _get_local_variable, _assign
  for n in ('placeholder', 'get_variable', 'Session'):
    setattr(ns, n, _unsupported('tf.compat.v1.' + n))
  ns.logging = types.SimpleNamespace(info=lambda *a: None, warning=lambda *a: None, error=lambda *a: None)
  return ns


Graph = _unsupported('tf.Graph')
slice = slice_  # pylint: disable=redefined-builtin
tuple_fn = tuple_
_self = sys.modules[__name__]
compat = types.SimpleNamespace(
    as_bytes=lambda s, encoding='utf-8': s.encode(encoding) if isinstance(s, str) else s,
    as_text=lambda s, encoding='utf-8': s.decode(encoding) if isinstance(s, bytes) else s,
    as_str=lambda s: s.decode() if isinstance(s, bytes) else s, v1=_v1(), v2=_self,
    dimension_value=lambda d: d)
experimental = types.SimpleNamespace(numpy=_unsupported('tf.experimental.numpy'))
config = types.SimpleNamespace(run_functions_eagerly=lambda *a: None, list_physical_devices=lambda *a: [])
_types_mod = types
types = types.SimpleNamespace(experimental=types.SimpleNamespace(TensorLike=object))


class _Test:

  def __getattr__(self, n):
    from tensorflow import _testing  # pylint: disable=g-import-not-at-top
    return getattr(_testing, n)


test = _Test()


def __getattr__(name):
  if name.startswith('_'):
    raise AttributeError(name)
  raise Unsupported('tf.' + name)
