"""Delta-encoded range images."""
import zlib

import numpy as np
from hypothesis import strategies as st

from vlib import wod
from vlib.core import Sub

PRECS = [0.005, 0.1, 0.25, 0.5, 1.0, 2.0, 10.0, 1e-3, 0.0625, 3.0]
DTYPES = ['float64', 'float64', 'float32', 'float32', 'int64', 'int32', 'int16', 'uint8', 'int8', 'float16']


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup()
  from waymo_open_dataset.utils.compression import delta_encoder
  from waymo_open_dataset.protos import compressed_lidar_pb2
  return dict(de=delta_encoder, pb=compressed_lidar_pb2)


def value(prec, big):
  """A multiple of half a step, or anything else of that size."""
  n = st.one_of(st.sampled_from([0, 1, -1, 2, 63, 64, -64, -65, 127, 128, 8191, 8192, 16383, 16384]),
                st.integers(-300, 300), st.integers(-big, big))
  return st.tuples(n, st.sampled_from([0.0, 0.0, 0.0, 0.25, -0.3, 0.49, -0.49, 0.1])).map(lambda t: (t[0] + t[1]) * prec)


@st.composite
def images(draw):
  shape = draw(st.one_of(
      st.tuples(st.integers(1, 5), st.integers(1, 6), st.integers(1, 4)),
      st.tuples(st.sampled_from([1, 2, 8, 64]), st.sampled_from([1, 3, 130, 300]), st.integers(1, 2)),
      st.tuples(st.just(1), st.just(1), st.integers(1, 3))))
  dtype = draw(st.sampled_from(DTYPES))
  precs = draw(st.lists(st.sampled_from(PRECS), min_size=shape[2], max_size=shape[2]))
  one = draw(st.integers(0, 3)) == 0
  if one:
    precs = [precs[0]] * shape[2]
  if dtype.startswith(('int', 'uint')) and draw(st.booleans()):
    precs = [float(max(1, int(p))) for p in precs]
  n = shape[0] * shape[1]
  chans = []
  for c in range(shape[2]):
    runs = []
    left = n
    while left > 0 and len(runs) < 14:
      kind = draw(st.integers(0, 4))
      ln = min(left, draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 127, 128, 129, 16384]), st.integers(1, n))))
      if kind <= 1:
        runs.append((0.0, 0.0, ln))
      else:
        v = draw(value(precs[c], 1 << draw(st.sampled_from([4, 12, 24, 33]))))
        runs.append((v, draw(st.sampled_from([0.0, 0.0, precs[c], -3 * precs[c], 0.37 * precs[c]])), ln))
      left -= ln
    chans.append(runs)
  return dict(shape=shape, dtype=dtype, precs=precs, one=one, chans=chans,
              order=draw(st.sampled_from(['C', 'F', 'view'])))


def build_image(case):
  """The image, and whether every channel ends before its data does."""
  h, w, c = case['shape']
  a = np.zeros((c, h * w))
  for k, runs in enumerate(case['chans']):
    p = 0
    for v, step, ln in runs:
      a[k, p:p + ln] = v + step * np.arange(ln)
      p += ln
  a = a.reshape(c, h, w).transpose(1, 2, 0)
  dt = np.dtype(case['dtype'])
  if dt.kind in 'iu':
    info = np.iinfo(dt)
    a = np.clip(np.round(a), max(info.min, -2**53), min(info.max, 2**53))
  elif dt == np.float16:
    a = np.clip(a, -6e4, 6e4)
  a = a.astype(dt)
  if case['order'] == 'F':
    a = np.asfortranarray(a)
  elif case['order'] == 'view':
    big = np.zeros((h + 1, w * 2, c), dt)
    big[1:, ::2] = a
    a = big[1:, ::2]
  return a


def check_round_trip(case, ctx):
  de = ctx.env['de']
  a = build_image(case)
  before = a.copy()
  precs = case['precs']
  arg = precs[0] if case['one'] else list(precs)
  data = ctx.call(de.compress, a, arg)
  ctx.require(isinstance(data, bytes), 'compress returned %s', type(data))
  ctx.require(a.dtype == before.dtype and np.array_equal(a, before), 'compress changed its input')
  ctx.require(case['one'] or arg == precs, 'compress changed the precision list')
  ctx.require(de.compress(before, arg) == data, 'compressing twice gives different bytes')
  got = ctx.call(de.decompress, data)
  ctx.equal(tuple(got.shape), tuple(case['shape']), 'shape')
  x = before.astype(np.float64)
  p = np.array(precs)
  q = np.abs(x / p)
  # Values are divided at their own precision, and precisions are stored as
  # float32.
  eps = {2: 2e-3, 4: 2.5e-7}.get(a.dtype.itemsize if a.dtype.kind == 'f' else 8, 0) + 1.3e-7
  tol = p * (0.5 + 1e-9) + np.abs(x) * eps
  bad = np.abs(got - x) > tol
  ctx.require(not bad.any(), lambda: 'decoded %r for %r at precision %r' % (
      got[bad][0], x[bad][0], np.broadcast_to(p, x.shape)[bad][0]))
  empty = q < 0.5 - 1e-3
  ctx.require(not got[empty].any(), 'an empty pixel decodes to a value')
  grid = (np.abs(q - np.round(q)) < 1e-6) & (q < 2**20)
  ctx.require(np.all(np.abs(got - x)[grid] <= 1e-6 * p.max() + np.abs(x[grid]) * eps), 'values on the grid are not exact')
  # Decoding is stable: a decoded image is its own encoding.
  if q.max() < 2**20:
    again = de.decompress(de.compress(got.copy(), arg))
    ctx.require(np.array_equal(again, got), 'encoding a decoded image changes it')
  ctx.nontrivial(bool((q >= 0.5).any() and (q < 0.5).any()))
  ctx.label(case['dtype'], 'one precision' if case['one'] else 'per channel', 'big' if x.size > 1000 else 'small')


def ref_message(pb, ints, precs):
  """The published encoding, written as loops."""
  h, w, c = ints.shape
  flat = [int(ints[i, j, k]) for k in range(c) for i in range(h) for j in range(w)]
  mask, cur, n, prev, res = [], True, 0, 0, []
  for v in flat:
    if (v != 0) != cur:
      mask.append(n)
      cur, n = not cur, 0
    n += 1
    if v:
      res.append(v - prev)
      prev = v
  mask.append(n)
  return pb.DeltaEncodedData(residual=res, mask=mask, metadata=pb.Metadata(shape=ints.shape, quant_precision=precs))


def check_format(case, ctx):
  de, pb = ctx.env['de'], ctx.env['pb']
  case = dict(case, dtype='float64', order='C')
  precs = [float(np.float32(p)) for p in case['precs']]
  ints = np.round(build_image(dict(case, precs=precs)) / np.array(precs)).astype(np.int64)
  want = ref_message(pb, ints, precs)
  a = ints * np.array(precs)
  msg = pb.DeltaEncodedData.FromString(zlib.decompress(ctx.call(de.compress, a.copy(), list(precs))))
  ctx.require(msg == want, lambda: 'encoded %r, expected %r' % (str(msg)[:300], str(want)[:300]))
  got = ctx.call(de.decompress, zlib.compress(want.SerializeToString(), 9))
  ctx.require(got.shape == ints.shape and np.array_equal(got, a), 'published encoding decodes to other values')
  ctx.nontrivial(len(want.mask) > 2)


@st.composite
def damaged(draw):
  c = draw(images())
  return dict(img=c, how=draw(st.sampled_from(['cut', 'flip', 'mask', 'residual', 'drop shape', 'swap shape'])),
              at=draw(st.integers(0, 10**6)), bit=draw(st.integers(0, 7)))


def check_damaged(case, ctx):
  de, pb = ctx.env['de'], ctx.env['pb']
  a = build_image(dict(case['img'], dtype='float64')).astype(float)
  data = de.compress(a.copy(), list(case['img']['precs']))
  how = case['how']
  want = tuple(case['img']['shape'])
  if how == 'cut':
    data = data[:case['at'] % len(data)]
  elif how == 'flip':
    b = bytearray(data)
    b[case['at'] % len(b)] ^= 1 << case['bit']
    data = bytes(b)
  else:
    m = pb.DeltaEncodedData.FromString(zlib.decompress(data))
    if how == 'mask':
      k = case['at'] % len(m.mask)
      m.mask[k] += 1 + case['bit']
    elif how == 'residual':
      if not m.residual:
        return
      del m.residual[case['at'] % len(m.residual)]
      if not m.residual:
        return
    elif how == 'drop shape':
      del m.metadata.shape[case['at'] % 3]
    else:
      m.metadata.shape[case['at'] % 3] += 1 + case['bit']
    data = zlib.compress(m.SerializeToString())
    # One residual is spread over any number of pixels by numpy.
    if how in ('mask', 'residual') and len(m.residual) == 1:
      return
  try:
    got = de.decompress(data)
  except Exception:  # pylint: disable=broad-except
    ctx.nontrivial()
    ctx.label(how + ': refused')
    return
  ctx.label(how + ': decoded')
  ctx.require(how == 'flip' and got.shape == want and np.array_equal(got, de.decompress(de.compress(a, list(case['img']['precs'])))),
              'damaged data (%s) decoded to shape %s', how, got.shape)


@st.composite
def bad_args(draw):
  return dict(img=draw(images()), how=draw(st.sampled_from(['zero', 'negative', 'short', 'long', 'one zero', 'one negative', 'wide'])),
              at=draw(st.integers(0, 5)))


def check_bad_args(case, ctx):
  de = ctx.env['de']
  a = build_image(dict(case['img'], dtype='float64'))
  p = list(case['img']['precs'])
  k = case['at'] % len(p)
  how = case['how']
  if how == 'zero':
    p[k] = 0.0
  elif how == 'negative':
    p[k] = -p[k]
  elif how == 'short':
    p = p[:-1]
  elif how == 'long':
    p = p + [1.0] * (1 + case['at'])
  elif how == 'one zero':
    p = 0
  elif how == 'one negative':
    p = -p[k]
  else:
    a, p = np.zeros((1, 65536, 1)), 1.0
    if case['at'] % 2:
      a = a[:, :65535]
      ctx.equal(ctx.call(de.decompress, de.compress(a, p)).shape, a.shape, 'largest shape')
      return
  try:
    de.compress(a, p)
  except ValueError:
    ctx.nontrivial()
    ctx.label(how)
    return
  ctx.require(False, 'invalid argument accepted: %s', how)


SUBS = [
    Sub('round_trip', images, check_round_trip, 4000, rule='at least one empty and one non-empty pixel'),
    Sub('format', images, check_format, 2000, rule='more than two mask runs'),
    Sub('damaged', damaged, check_damaged, 2500, rule='the damage was noticed'),
    Sub('arguments', bad_args, check_bad_args, 1000, rule='refused with ValueError'),
]
