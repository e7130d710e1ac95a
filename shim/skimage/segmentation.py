import numpy as np


class ArrayMap:

  def __init__(self, src, dst):
    self.in_values, self.out_values = src, dst
    self._m = dict(zip(src.tolist(), dst.tolist()))
    self.dtype = dst.dtype

  def __getitem__(self, k):
    if np.ndim(k) == 0:
      return self.dtype.type(self._m.get(int(k), 0))
    k = np.asarray(k)
    if k.dtype == bool:
      k = np.flatnonzero(k)
    return np.array([self._m.get(int(v), 0) for v in k.reshape(-1)], self.dtype).reshape(k.shape)

  def __len__(self):
    return int(self.in_values.max()) + 1 if len(self.in_values) else 0

  def __array__(self, dtype=None):
    out = np.zeros(len(self), self.dtype)
    out[self.in_values] = self.out_values
    return out if dtype is None else out.astype(dtype)

  def __call__(self, a):
    return self[a]


def relabel_sequential(label_field, offset=1):
  """As skimage 0.20: labels >= offset in increasing order, 0 stays 0."""
  if offset <= 0:
    raise ValueError('Offset must be strictly positive.')
  a = np.asarray(label_field)
  if a.size and np.min(a) < 0:
    raise ValueError('Cannot relabel array that contains negative values.')
  if not np.issubdtype(a.dtype, np.integer):
    a = a.astype(int) if np.all(a == a.astype(int)) else a
  in_vals = np.unique(a)
  if len(in_vals) and in_vals[0] == 0:
    out_vals = np.concatenate([[0], np.arange(offset, offset + len(in_vals) - 1)])
  else:
    out_vals = np.arange(offset, offset + len(in_vals))
  in_type = a.dtype
  need = np.min_scalar_type(out_vals[-1]) if len(out_vals) else in_type
  out_type = in_type if need.itemsize < in_type.itemsize or np.can_cast(need, in_type) else need
  out_vals = out_vals.astype(out_type)
  lut = dict(zip(in_vals.tolist(), out_vals.tolist()))
  out = np.array([lut[v] for v in a.reshape(-1).tolist()], out_type).reshape(a.shape)
  return out, ArrayMap(in_vals, out_vals), ArrayMap(out_vals, in_vals)
