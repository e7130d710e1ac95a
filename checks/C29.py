"""Range images, point clouds and camera depth images."""
import zlib

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub

STEP = 0.00585532144
F32 = float(np.finfo(np.float32).eps)


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.utils import frame_utils, range_image_utils, transform_utils
  return dict(tf=tf, pb=dataset_pb2, fu=frame_utils, ri=range_image_utils, tr=transform_utils)


# ------------------------------------------------------------- features


@st.composite
def features(draw):
  n = draw(st.integers(1, 12))
  rng = st.one_of(st.sampled_from([0.0, STEP, 383.0, 200.0, 75.0]), st.floats(0, 383.5, width=32),
                  st.integers(0, 65534).map(lambda k: (k + 0.5) * STEP))
  inten = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 3e4, 1e-30]), st.floats(0, 1.0, width=32), st.floats(0, 2.0**60, width=32))
  elong = st.one_of(st.sampled_from([0.0, 1.0, 1.49]), st.floats(0, 1.484375, width=32),
                    st.integers(0, 253).map(lambda k: (k + 0.5) * STEP))
  return dict(rows=[[draw(rng), draw(inten), draw(elong)] for _ in range(n)],
              bad=draw(st.sampled_from([None, None, None, (0, -0.1), (0, 400.0), (2, -0.01), (2, 1.6), (0, 383.73)])),
              at=draw(st.integers(0, 11)))


def check_features(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  a = np.array(case['rows'], np.float32)
  enc = ctx.call(ri.encode_lidar_features, tf.constant(a))
  ctx.require(enc.dtype == tf.int64, 'encoded as %s', enc.dtype)
  e = enc.numpy()
  ctx.nontrivial(len(a) > 1 and a[:, 0].min() < a[:, 0].max())
  for i in range(len(a)):
    for j in range(len(a)):
      if a[i, 0] - a[j, 0] > 1.01 * STEP:
        ctx.require(np.all(e[i] > e[j]), 'range %r > %r but encoded %s, %s', a[i, 0], a[j, 0], e[i], e[j])
  d = ctx.call(ri.decode_lidar_features, enc).numpy()
  ctx.require(d.dtype == np.float32, 'decoded as %s', d.dtype)
  for c, name in ((0, 'range'), (2, 'elongation')):
    err = a[:, c].astype(float) - d[:, c]
    tol = 4 * F32 * 383
    ctx.require(np.all(err > -tol) and np.all(err < STEP + tol), lambda: '%s off by more than a step: %s -> %s' % (name, a[:, c], d[:, c]))
  want = (a[:, 1].copy().view(np.uint32) & 0xFFFF0000).astype(np.uint32).view(np.float32)
  ctx.close(d[:, 1], want, 'intensity', atol=0, rtol=0)
  if case['bad'] is not None:
    b = a.copy()
    b[case['at'] % len(a), case['bad'][0]] = case['bad'][1]
    ctx.label('out of range')
    try:
      ri.encode_lidar_features(tf.constant(b))
    except Exception as ex:  # pylint: disable=broad-except
      if type(ex).__name__ == 'Unsupported':
        raise
      return
    ctx.require(False, 'column %d value %r encoded without complaint', *case['bad'])


# ------------------------------------------------------------- scatter


@st.composite
def scatters(draw):
  h, w = draw(st.integers(1, 5)), draw(st.integers(1, 6))
  return dict(h=h, w=w, n=draw(st.integers(0, 25)), seed=draw(tfu.seeds()),
              tail=draw(st.sampled_from([(), (1,), (3,), (2, 2)])), dtype=draw(st.sampled_from(['float32', 'float64', 'int64'])),
              pool=draw(st.sampled_from(['max', 'min', 'sum', 'default'])), idt=draw(st.sampled_from(['int32', 'int64'])))


def check_scatter(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  h, w, n = case['h'], case['w'], case['n']
  idx = np.stack([rng.randint(0, h, n), rng.randint(0, w, n)], -1).astype(case['idt']).reshape(n, 2)
  val = rng.randint(-50, 50, (n,) + case['tail']).astype(case['dtype'])
  kw = {}
  fn = np.max
  if case['pool'] != 'default':
    fn = dict(max=np.max, min=np.min, sum=np.sum)[case['pool']]
    kw['pool_method'] = getattr(tf.math, 'unsorted_segment_' + case['pool'])
  got = ctx.call(ri.scatter_nd_with_pool, tf.constant(idx), tf.constant(val), [h, w], **kw).numpy()
  want = np.zeros((h, w) + case['tail'], val.dtype)
  dup = False
  for r in range(h):
    for c in range(w):
      m = (idx[:, 0] == r) & (idx[:, 1] == c)
      dup = dup or m.sum() > 1
      if m.any():
        want[r, c] = fn(val[m], axis=0)
  ctx.close(got, want, 'scatter with %s' % case['pool'], atol=1e-4)
  ctx.nontrivial(dup and h > 1 and w > 1)


# ------------------------------------------------------------- transforms


@st.composite
def angles(draw):
  return dict(shape=draw(st.sampled_from([(), (1,), (4,), (2, 3), (2, 1, 2)])), seed=draw(tfu.seeds()),
              dtype=draw(st.sampled_from(['float32', 'float64'])),
              special=draw(st.sampled_from([None, 0.0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi])))


def check_transforms(case, ctx):
  tf, tr = ctx.env['tf'], ctx.env['tr']
  rng = np.random.RandomState(case['seed'])
  d = np.dtype(case['dtype'])
  rpy = rng.uniform(-7, 7, (3,) + case['shape']).astype(d)
  if case['special'] is not None:
    rpy[rng.randint(3)] = case['special']
  tol = dict(atol=3e-6 if d == np.float32 else 1e-12, rtol=0)
  r, p, y = [tf.constant(v) for v in rpy]
  m = ctx.call(tr.get_rotation_matrix, r, p, y)
  ctx.close(m.numpy(), tfu.rot(*rpy), 'rotation matrix', **tol)
  yaw = ctx.call(tr.get_yaw_rotation, y)
  ctx.close(yaw.numpy(), tfu.rot(0, 0, rpy[2]), 'yaw rotation', **tol)
  ctx.close(ctx.call(tr.get_yaw_rotation_2d, y).numpy(), tfu.rot(0, 0, rpy[2])[..., :2, :2], 'yaw rotation 2d', **tol)
  t = rng.uniform(-100, 100, case['shape'] + (3,)).astype(d)
  full = ctx.call(tr.get_transform, m, tf.constant(t))
  want = np.zeros(case['shape'] + (4, 4))
  want[..., :3, :3] = m.numpy()
  want[..., :3, 3] = t
  want[..., 3, 3] = 1
  ctx.close(full.numpy(), want, 'transform', atol=0, rtol=0)
  ctx.require(full.dtype.as_numpy_dtype == d, 'transform has type %s', full.dtype)
  t2 = t[..., :2]
  got2 = ctx.call(tr.get_transform, tr.get_yaw_rotation_2d(y), tf.constant(t2)).numpy()
  ctx.close(got2[..., 2, :], np.broadcast_to([0., 0., 1.], case['shape'] + (3,)), 'last row', atol=0, rtol=0)
  ctx.close(got2[..., :2, 2], t2, '2d translation', atol=0, rtol=0)
  ctx.nontrivial(int(np.prod(case['shape'])) > 1)


# ------------------------------------------------------------- polar / cartesian / extract


@st.composite
def clouds(draw):
  return dict(b=draw(st.integers(1, 3)), h=draw(st.integers(1, 5)), w=draw(st.integers(1, 9)), seed=draw(tfu.seeds()),
              tilt=draw(st.sampled_from([0.0, 0.05, 1.5])), uniform=draw(st.booleans()),
              pixel=draw(st.sampled_from(['none', 'none', 'same', 'any'])), dtype=draw(st.sampled_from(['float32', 'float64'])),
              ext64=draw(st.booleans()), spread=draw(st.sampled_from([3.0, 3.0, 1000.0])))


def sensor(case, rng):
  b, h = case['b'], case['h']
  ext = np.stack([tfu.pose(rng, 3.0, case['tilt']) for _ in range(b)])
  if case.get('special'):
    for k in range(b):
      ext[k] = np.eye(4)
      ext[k, :3, :3] = tfu.rot(0, 0, case['special'] - 1)
  if case['uniform']:
    lo = rng.uniform(-0.5, -0.1, b)
    hi = rng.uniform(0.05, 0.5, b)
    inc = lo[:, None] + (np.arange(h) + .5) / h * (hi - lo)[:, None]
  else:
    inc = np.sort(rng.uniform(-1.2, 1.2, (b, h)), axis=1)
  return ext, inc[:, ::-1].copy()


def azimuths(ext, w):
  """[B, W] azimuth of each column centre in the sensor's own frame."""
  corr = np.arctan2(ext[:, 1, 0], ext[:, 0, 0])
  return np.pi - (np.arange(w) + 0.5) * 2 * np.pi / w - corr[:, None]


def cartesian(rng_img, ext, inc, pix=None, frame=None):
  az = azimuths(ext, rng_img.shape[2])[:, None, :]
  el = inc[:, :, None]
  p = np.stack([np.cos(az) * np.cos(el) * rng_img, np.sin(az) * np.cos(el) * rng_img, np.sin(el) * rng_img + 0 * az], -1)
  p = tfu.apply(ext[:, None, None], p)
  if pix is not None:
    p = tfu.apply(tfu.inv(frame)[:, None, None], tfu.apply(pix, p))
  return p


def check_extract(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  b, h, w = case['b'], case['h'], case['w']
  d = np.dtype(case['dtype'])
  ext, inc = sensor(case, rng)
  img = (rng.uniform(0, 75, (b, h, w)) * (rng.rand(b, h, w) > 0.2)).astype(d)
  e = ext if case['ext64'] else ext.astype(d)
  i = inc if case['ext64'] else inc.astype(d)
  pix = frame = None
  kw = {}
  if case['pixel'] != 'none':
    frame = np.stack([tfu.pose(rng, case['spread']) for _ in range(b)])
    if case['pixel'] == 'same':
      pix = np.broadcast_to(frame[:, None, None], (b, h, w, 4, 4)).copy()
    else:
      pix = np.stack([tfu.pose(rng, case['spread']) for _ in range(b * h * w)]).reshape(b, h, w, 4, 4)
    kw = dict(pixel_pose=tf.constant(pix.astype(d)), frame_pose=tf.constant(frame.astype(d)))
    pix, frame = pix.astype(d).astype(float), frame.astype(d).astype(float)
  if d == np.float64:
    kw['dtype'] = tf.float64
  got = ctx.call(ri.extract_point_cloud_from_range_image, tf.constant(img), tf.constant(e), tf.constant(i), **kw)
  ctx.require(got.dtype.as_numpy_dtype == d, 'points have type %s', got.dtype)
  scale = 100 + (case['spread'] if pix is not None else 0)
  tol = dict(atol=scale * (2e-6 if d == np.float32 else 1e-11), rtol=0)
  want = cartesian(img.astype(float), e.astype(float), i.astype(float), pix, frame)
  if pix is not None:  # the inverse the code uses of a rounded pose
    tol['atol'] *= 4
  ctx.close(got.numpy(), want, 'points', **tol)
  if case['pixel'] == 'same':
    ctx.close(got.numpy(), cartesian(img.astype(float), e.astype(float), i.astype(float)), 'points with the frame pose for every pixel', **tol)
  polar = ctx.call(ri.compute_range_image_polar, tf.constant(img), tf.constant(e), tf.constant(i),
                   **({'dtype': tf.float64} if d == np.float64 else {})).numpy()
  ctx.close(polar[..., 2], img, 'polar range', atol=0, rtol=0)
  ctx.close(polar[..., 1], np.broadcast_to(i[:, :, None], img.shape), 'polar inclination', atol=1e-6)
  ctx.close(tfu.wrap(polar[..., 0] - azimuths(e.astype(float), w)[:, None, :]), np.zeros(img.shape), 'polar azimuth', atol=5e-6)
  # The distance from the sensor is the range.
  if pix is None:
    dist = np.linalg.norm(got.numpy() - e[:, None, None, :3, 3], axis=-1)
    ctx.close(dist, img, 'distance from the sensor', atol=tol['atol'] * 2)
  ctx.nontrivial(w > 1 and img.any() and (h > 1 or b > 1))


# ------------------------------------------------------------- build


@st.composite
def builds(draw):
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 6)), w=draw(st.integers(2, 12)), n=draw(st.integers(1, 14)),
              seed=draw(tfu.seeds()), tilt=draw(st.sampled_from([0.0, 0.03, 0.3])), uniform=draw(st.booleans()),
              special=draw(st.sampled_from([None, None, None, 1.0, 1.0, 1 + np.pi / 2, 1 - np.pi])),
              seam=draw(st.integers(0, 3)), feat=draw(st.booleans()), f64=draw(st.booleans()), dup=draw(st.booleans()))


def check_build(case, ctx):
  """Points -> range image against a float64 model; boundary cases may go either way."""
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  b, h, w, n = case['b'], case['h'], case['w'], case['n']
  ext, inc = sensor(case, rng)
  sp = rng.uniform(-1, 1, (b, n, 3)) * [40, 40, 8] + [0, 0, 0.01]
  if case['dup']:
    sp[:, n // 2:] = sp[:, :n - n // 2] * rng.uniform(0.3, 1.3, (b, n - n // 2, 1))
  for k in range(min(case['seam'], n)):  # behind the vehicle, on the image's left and right edge
    y = [1e-9, -1e-9, 0.0, -3e-6][rng.randint(4)]
    q = rng.uniform(5, 20)
    corr = np.arctan2(ext[:, 1, 0], ext[:, 0, 0])
    sp[:, k, 0] = -q * np.cos(-corr) - y * np.sin(-corr)
    sp[:, k, 1] = -q * np.sin(-corr) + y * np.cos(-corr)
    if case['special'] == 1.0:
      sp[:, k, 1] = y
  pts = tfu.apply(ext[:, None], sp).astype(np.float32)
  num = rng.randint(0, n + 1, b)
  feat = rng.uniform(0, 1, (b, n, 2)).astype(np.float32) if case['feat'] else None
  e, i = ext.astype(np.float32), inc.astype(np.float32)
  img, idx, dist = ctx.call(
      ri.build_range_image_from_point_cloud, tf.constant(pts), tf.constant(num.astype(np.int32)), tf.constant(e), tf.constant(i), [h, w],
      point_features=None if feat is None else tf.constant(feat), **({'dtype': tf.float64} if case['f64'] else {}))
  img, idx, dist = img.numpy(), idx.numpy(), dist.numpy()
  ctx.require(img.dtype == np.float32 and idx.dtype == np.int32, 'types %s, %s', img.dtype, idx.dtype)
  ctx.require(img.shape == (b, h, w) + ((3,) if case['feat'] else ()), 'image shape %s', img.shape)
  ep = np.linalg.inv(e.astype(float))
  lp = tfu.apply(ep[:, None], pts.astype(float))
  r = np.linalg.norm(lp, axis=-1)
  ctx.close(dist, r, 'point ranges', atol=5e-5)
  elev = np.arctan2(lp[..., 2], np.linalg.norm(lp[..., :2], axis=-1))
  az = np.arctan2(lp[..., 1], lp[..., 0]) + np.arctan2(e[:, 1, 0], e[:, 0, 0]).astype(float)[:, None]
  pos = (np.pi - tfu.wrap(az)) / (2 * np.pi) * w   # in (0, w]
  # Rounding puts a point up to this far along the columns.
  flat = np.linalg.norm(lp[..., :2], axis=-1)
  slack = 5e-5 * w + 2e-5 / np.maximum(flat, 1e-3) * w
  for k in range(b):
    for j in range(n):
      row, col = idx[k, j]
      ctx.require(0 <= row < h and 0 <= col < w, 'pixel (%d, %d) outside %dx%d', row, col, h, w)
      diff = np.abs(elev[k, j] - i[k].astype(float))
      ctx.require(diff[row] <= diff.min() + 1e-5 + 1e-5 / max(flat[k, j], 1e-3),
                  'row %d for inclination %r among %s', row, elev[k, j], i[k])
      off = (pos[k, j] - (col + 0.5) + w / 2) % w - w / 2
      ctx.require(abs(off) <= 0.5 + slack[k, j], 'column %d for azimuth position %r of %d', col, pos[k, j], w)
  ctx.label('seam' if case['seam'] else 'interior')
  first = img[..., 0] if case['feat'] else img
  for k in range(b):
    want = {}
    for j in range(num[k]):
      want.setdefault(tuple(idx[k, j]), []).append(j)
    for row in range(h):
      for col in range(w):
        js = want.get((row, col))
        if js is None:
          ctx.require(np.all(img[k, row, col] == 0), 'missing pixel holds %s', img[k, row, col])
          continue
        m = min(dist[k, j] for j in js)
        if not case['feat']:
          ctx.require(first[k, row, col] == m, 'pixel holds %r, nearest point is at %r', first[k, row, col], m)
          continue
        err = m - first[k, row, col]
        ctx.require(-1e-4 < err < STEP + 1e-4, 'pixel holds %r, nearest point is at %r', first[k, row, col], m)
        # Intensity and elongation come from points as near as the nearest one.
        near = [j for j in js if dist[k, j] < m + 1.05 * STEP]
        for c in (0, 1):
          v = img[k, row, col, 1 + c]
          tol = 0.01 if c == 0 else STEP + 1e-5
          ctx.require(any(-1e-6 <= feat[k, j, c] - v <= tol for j in near), 'feature %d is %r, the nearest points have %s', c, v, [feat[k, j, c] for j in near])
  ctx.nontrivial(bool((num > 1).any()) and w > 2)


# ------------------------------------------------------------- round trip


@st.composite
def trips(draw):
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 8)), w=draw(st.sampled_from([1, 2, 3, 8, 16, 33])), seed=draw(tfu.seeds()),
              tilt=draw(st.sampled_from([0.0, 0.05, 1.0])), uniform=draw(st.booleans()), special=None, feat=draw(st.booleans()))


def check_trip(case, ctx):
  """Image -> points -> image gives the image back."""
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  b, h, w = case['b'], case['h'], case['w']
  ext, inc = sensor(case, rng)
  e, i = ext.astype(np.float32), inc.astype(np.float32)
  img = (rng.uniform(1, 75, (b, h, w)) * (rng.rand(b, h, w) > 0.3)).astype(np.float32)
  pts = ctx.call(ri.extract_point_cloud_from_range_image, tf.constant(img), tf.constant(e), tf.constant(i)).numpy()
  n = [int((img[k] > 0).sum()) for k in range(b)]
  cloud = np.zeros((b, max(n + [1]), 3), np.float32)
  for k in range(b):
    cloud[k, :n[k]] = pts[k][img[k] > 0]
  out, idx, _ = ctx.call(ri.build_range_image_from_point_cloud, tf.constant(cloud), tf.constant(np.array(n, np.int32)),
                         tf.constant(e), tf.constant(i), [h, w])
  if h > 1 and np.min(np.abs(np.diff(i, axis=1))) < 1e-4:
    ctx.label('rows too close')
    return
  ctx.close(out.numpy(), img, 'range image after a round trip', atol=5e-4)
  for k in range(b):
    ctx.require(np.array_equal(idx.numpy()[k, :n[k]], np.argwhere(img[k] > 0)), 'indices do not follow the points')
  ctx.nontrivial(max(n) > 2 and w > 1)


# ------------------------------------------------------------- depth image, crop, inclination


@st.composite
def depths(draw):
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 4)), w=draw(st.integers(1, 6)), seed=draw(tfu.seeds()),
              ih=draw(st.integers(1, 6)), iw=draw(st.integers(1, 6)), cam=draw(st.integers(1, 3)), pool=draw(st.sampled_from(['min', 'default', 'max'])))


def check_depth(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  b, h, w = case['b'], case['h'], case['w']
  ext = np.stack([tfu.pose(rng, 3.0, 0.5) for _ in range(b)]).astype(np.float32)
  pts = rng.uniform(-30, 30, (b, h, w, 3)).astype(np.float32)
  cp = np.zeros((b, h, w, 6), np.int32)
  for o in (0, 3):
    cp[..., o] = rng.randint(0, 4, (b, h, w))
    cp[..., o + 1] = rng.randint(0, case['iw'], (b, h, w))
    cp[..., o + 2] = rng.randint(0, case['ih'], (b, h, w))
  kw = {} if case['pool'] == 'default' else dict(pool_method=getattr(tf.math, 'unsorted_segment_' + case['pool']))
  got = ctx.call(ri.build_camera_depth_image, tf.constant(pts), tf.constant(ext), tf.constant(cp), [case['ih'], case['iw']], case['cam'], **kw).numpy()
  fn = max if case['pool'] == 'max' else min
  want = np.zeros((b, case['ih'], case['iw']))
  hits = 0
  for k in range(b):
    cells = {}
    q = np.linalg.norm(tfu.apply(np.linalg.inv(ext[k].astype(float)), pts[k].astype(float)), axis=-1)
    for r in range(h):
      for c in range(w):
        v = cp[k, r, c]
        if v[0] == case['cam']:
          x, y = v[1:3]
        elif v[3] == case['cam']:
          x, y = v[4:6]
        else:
          continue
        hits += 1
        cells.setdefault((y, x), []).append(q[r, c])
    for (y, x), vs in cells.items():
      want[k, y, x] = fn(vs)
  ctx.close(got, want, 'camera depth image', atol=2e-4)
  ctx.nontrivial(hits > 1)


@st.composite
def crops(draw):
  b, w = draw(st.integers(1, 3)), draw(st.integers(1, 8))
  return dict(b=b, h=draw(st.integers(1, 3)), w=w, tail=draw(st.sampled_from([(), (2,), (2, 3)])), new=draw(st.integers(-1, w + 1)),
              shift=draw(st.one_of(st.none(), st.lists(st.integers(-4, 4), min_size=b, max_size=b))))


def check_crop(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  b, h, w, new = case['b'], case['h'], case['w'], case['new']
  a = np.arange(b * h * w * int(np.prod(case['tail'], dtype=int)), dtype=np.float32).reshape((b, h, w) + case['tail'])
  shift = case['shift'] or [0] * b
  left = [(w - new) // 2 + s for s in shift]
  if new != w and (new < 1 or new > w or any(l < 0 or l + new > w for l in left)):
    ctx.label('rejected')
    try:
      ri.crop_range_image(tf.constant(a), new, case['shift'])
    except ValueError:
      return
    ctx.require(False, 'no error for width %d -> %d with shift %s', w, new, shift)
  got = ctx.call(ri.crop_range_image, tf.constant(a), new, case['shift']).numpy()
  if new == w:
    ctx.require(np.array_equal(got, a), 'the full width changes the image')
    return
  want = np.stack([a[k][:, left[k]:left[k] + new] for k in range(b)])
  ctx.require(got.shape == want.shape and np.array_equal(got, want), 'crop %d of %d, shift %s: wrong columns', new, w, shift)
  ctx.nontrivial(new > 1 and case['shift'] is not None)


@st.composite
def inclinations(draw):
  return dict(shape=draw(st.sampled_from([(), (1,), (3,), (2, 2)])), h=draw(st.integers(1, 70)), seed=draw(tfu.seeds()),
              dtype=draw(st.sampled_from(['float32', 'float64'])))


def check_inclination(case, ctx):
  tf, ri = ctx.env['tf'], ctx.env['ri']
  rng = np.random.RandomState(case['seed'])
  a = rng.uniform(-1.5, 1.5, case['shape'] + (2,)).astype(case['dtype'])
  got = ctx.call(ri.compute_inclination, tf.constant(a), case['h']).numpy()
  ctx.require(got.dtype == a.dtype, 'type %s', got.dtype)
  k = (np.arange(case['h']) + 0.5) / case['h']
  ctx.close(got, a[..., :1] + (a[..., 1:] - a[..., :1]).astype(float) * k, 'inclinations', atol=2e-6)
  ctx.nontrivial(case['h'] > 1)


# ------------------------------------------------------------- frames


@st.composite
def frames(draw):
  lasers = draw(st.permutations([1, 2, 3, 4, 5]))[:draw(st.integers(1, 5))]
  if draw(st.integers(0, 4)) and 1 not in lasers:
    lasers = list(lasers) + [1]
  return dict(lasers=list(lasers), cal=draw(st.permutations(list(lasers))),
              sizes=[(draw(st.integers(1, 4)), draw(st.integers(1, 5))) for _ in lasers],
              inc=[draw(st.booleans()) for _ in lasers], seg=[draw(st.sampled_from([0, 1, 3])) for _ in lasers],
              second=[draw(st.integers(0, 4)) > 0 for _ in lasers], seed=draw(tfu.seeds()),
              spread=draw(st.sampled_from([10.0, 500.0])), cams=draw(st.permutations([1, 2, 3, 4, 5]))[:draw(st.integers(0, 3))])


def zmat(pb, a, cls):
  m = getattr(pb, cls)()
  m.data.extend(a.ravel().tolist())
  m.shape.dims.extend(a.shape)
  return zlib.compress(m.SerializeToString())


def build_frame(case, ctx):
  pb = ctx.env['pb']
  rng = np.random.RandomState(case['seed'])
  f = pb.Frame(timestamp_micros=int(rng.randint(1, 2**31)))
  pose = tfu.pose(rng, case['spread'])
  f.pose.transform.extend(pose.ravel().tolist())
  info = {}
  for name, (h, w), inc, seg, second in zip(case['lasers'], case['sizes'], case['inc'], case['seg'], case['second']):
    l = f.lasers.add(name=name)
    d = info[name] = dict(h=h, w=w, ri=[], cp=[], seg=[])
    for k, ret in enumerate([l.ri_return1] + ([l.ri_return2] if second else [])):
      ri = rng.uniform(0.5, 70, (h, w, 4)).astype(np.float32)
      ri[rng.rand(h, w) < 0.3, 0] = [-1.0, 0.0][rng.randint(2)]
      cp = rng.randint(0, 2000, (h, w, 6)).astype(np.int32)
      ret.range_image_compressed = zmat(pb, ri, 'MatrixFloat')
      ret.camera_projection_compressed = zmat(pb, cp, 'MatrixInt32')
      d['ri'].append(ri)
      d['cp'].append(cp)
      if seg & (1 << k):
        s = rng.randint(0, 23, (h, w, 2)).astype(np.int32)
        ret.segmentation_label_compressed = zmat(pb, s, 'MatrixInt32')
        d['seg'].append(s)
    if name == 1:
      pp = np.concatenate([rng.uniform(-0.1, 0.1, (h, w, 2)), rng.uniform(-3.2, 3.2, (h, w, 1)),
                           pose[:3, 3] + rng.uniform(-2, 2, (h, w, 3))], -1).astype(np.float32)
      l.ri_return1.range_image_pose_compressed = zmat(pb, pp, 'MatrixFloat')
      d['pose'] = pp
    d['ext'] = tfu.pose(rng, 2.0, 0.05)
    d['inc'] = np.sort(rng.uniform(-0.6, 0.3, h)) if inc else None
    d['lim'] = (rng.uniform(-0.6, -0.1), rng.uniform(0.0, 0.3))
  for name in case['cal']:
    d = info[name]
    c = f.context.laser_calibrations.add(name=name)
    c.extrinsic.transform.extend(d['ext'].ravel().tolist())
    if d['inc'] is not None:
      c.beam_inclinations.extend(d['inc'].tolist())
    c.beam_inclination_min, c.beam_inclination_max = d['lim']
  cams = {}
  for name in case['cams']:
    im = f.images.add(name=name)
    a = rng.randint(0, 256, (3, 4, 3)).astype(np.uint8)
    im.image = tfu.png(a)
    v = rng.uniform(-9, 9, 6)
    for k, x in zip(('v_x', 'v_y', 'v_z', 'w_x', 'w_y', 'w_z'), v):
      setattr(im.velocity, k, x)
    p = tfu.pose(rng, 50.0)
    im.pose.transform.extend(p.ravel().tolist())
    im.pose_timestamp, im.shutter, im.camera_trigger_time, im.camera_readout_done_time = t = rng.uniform(0, 100, 4)
    cams[name] = dict(image=a, v=v, pose=p, t=t)
  for name in reversed(case['cams']):
    c = f.context.camera_calibrations.add(name=name, width=int(rng.randint(1, 2000)), height=int(rng.randint(1, 2000)),
                                          rolling_shutter_direction=int(rng.randint(1, 5)))
    intr = rng.uniform(-1, 2000, 9)
    p = tfu.pose(rng, 2.0)
    c.intrinsic.extend(intr.tolist())
    c.extrinsic.transform.extend(p.ravel().tolist())
    cams[name].update(intr=intr, ext=p, w=c.width, h=c.height, rs=c.rolling_shutter_direction)
  return f, pose, info, cams


def mat(m, dtype):
  return np.array(m.data, dtype).reshape(list(m.shape.dims))


def same(ctx, got, want, msg):
  got, want = np.asarray(got), np.asarray(want)
  ctx.require(got.shape == want.shape and np.array_equal(got, want), '%s differs', msg)


def check_frame(case, ctx):
  fu, pb = ctx.env['fu'], ctx.env['pb']
  f, pose, info, cams = build_frame(case, ctx)
  ris, cps, segs, top = ctx.call(fu.parse_range_image_and_camera_projection, f)
  ctx.equal(sorted(ris), sorted(info), 'lasers parsed')
  ctx.equal(sorted(cps), sorted(info), 'lasers with projections')
  two = all(len(d['ri']) == 2 for d in info.values())
  for n, d in info.items():
    ctx.equal(len(ris[n]), len(d['ri']), 'returns')
    for k in range(len(d['ri'])):
      same(ctx, mat(ris[n][k], np.float32), d['ri'][k], 'range image')
      same(ctx, mat(cps[n][k], np.int32), d['cp'][k], 'camera projection')
    ctx.equal(len(segs.get(n, [])), len(d['seg']), 'labelled returns')
    for a, b in zip(segs.get(n, []), d['seg']):
      same(ctx, mat(a, np.int32), b, 'segmentation label')
  if 1 not in info:
    ctx.equal(len(top.data), 0, 'top pose without a top lidar')
    ctx.label('no top lidar')
    return
  same(ctx, mat(top, np.float32), info[1]['pose'], 'top pose')
  for k in range(2 if two else 1):
    pts = {}
    for n, d in info.items():
      inc = d['inc']
      if inc is None:
        lo, hi = np.float32(d['lim'][0]), np.float32(d['lim'][1])
        inc = lo + (np.arange(d['h']) + .5) / d['h'] * (float(hi) - lo)
      pix = fr = None
      if n == 1:
        pp = d['pose'].astype(float)
        pix = np.zeros(pp.shape[:2] + (4, 4))
        pix[..., :3, :3] = tfu.rot(pp[..., 0], pp[..., 1], pp[..., 2])
        pix[..., :3, 3] = pp[..., 3:]
        pix[..., 3, 3] = 1
        pix, fr = pix[None], pose[None]
      pts[n] = cartesian(d['ri'][k][None, ..., 0].astype(float), d['ext'][None], np.asarray(inc, float)[None, ::-1], pix, fr)[0]
    tol = dict(atol=3e-6 * (100 + 4 * case['spread']), rtol=0)
    for polar in (False, True):
      got = ctx.call(fu.convert_range_image_to_cartesian, f, ris, top, k, polar)
      ctx.equal(sorted(got), sorted(info), 'lasers converted')
      p, c = ctx.call(fu.convert_range_image_to_point_cloud, f, ris, cps, top, k, polar)
      ctx.equal((len(p), len(c)), (len(info), len(info)), 'clouds')
      for q, (n, d) in enumerate(sorted(info.items())):
        g = got[n].numpy()
        if polar:
          same(ctx, g[..., :3], d['ri'][k][..., :3], 'polar features')
        ctx.close(g[..., -3:], pts[n], 'laser %d points' % n, **tol)
        ctx.equal(g.shape[-1], 6 if polar else 3, 'channels')
        m = d['ri'][k][..., 0] > 0
        same(ctx, p[q], g[m], 'cloud of laser %d' % n)
        same(ctx, c[q], d['cp'][k][m], 'projections of laser %d' % n)
  ctx.nontrivial(len(info) > 1)
  if not two:
    return
  ctx.label('frame dict')
  dd = ctx.call(fu.convert_frame_to_dict, f)
  keys = {'POSE', 'TIMESTAMP', 'TOP_RANGE_IMAGE_POSE'}
  same(ctx, dd['POSE'], pose.astype(np.float32), 'POSE')
  same(ctx, dd['TIMESTAMP'], f.timestamp_micros, 'TIMESTAMP')
  same(ctx, dd['TOP_RANGE_IMAGE_POSE'], info[1]['pose'], 'TOP_RANGE_IMAGE_POSE')
  first = fu.convert_range_image_to_cartesian(f, ris, top, 0, True)
  second = fu.convert_range_image_to_cartesian(f, ris, top, 1, True)
  for n, d in info.items():
    s = pb.LaserName.Name.Name(n)
    keys |= {s + x for x in ('_BEAM_INCLINATION', '_LIDAR_EXTRINSIC', '_RANGE_IMAGE_FIRST_RETURN', '_RANGE_IMAGE_SECOND_RETURN',
                             '_CAM_PROJ_FIRST_RETURN', '_CAM_PROJ_SECOND_RETURN')}
    inc = d['inc']
    if inc is None:
      inc = d['lim'][0] + (np.arange(d['h']) + .5) / d['h'] * (d['lim'][1] - d['lim'][0])
    ctx.close(dd[s + '_BEAM_INCLINATION'], inc, s + ' inclinations', atol=1e-6)
    same(ctx, dd[s + '_LIDAR_EXTRINSIC'], d['ext'].astype(np.float32), s + ' extrinsic')
    same(ctx, dd[s + '_RANGE_IMAGE_FIRST_RETURN'], first[n].numpy(), s + ' first return')
    same(ctx, dd[s + '_RANGE_IMAGE_SECOND_RETURN'], second[n].numpy(), s + ' second return')
    same(ctx, dd[s + '_CAM_PROJ_FIRST_RETURN'], d['cp'][0], s + ' first projections')
    same(ctx, dd[s + '_CAM_PROJ_SECOND_RETURN'], d['cp'][1], s + ' second projections')
  for n, c in cams.items():
    s = pb.CameraName.Name.Name(n)
    want = dict(IMAGE=c['image'], SDC_VELOCITY=c['v'].astype(np.float32), POSE=c['pose'].astype(np.float32), POSE_TIMESTAMP=np.float32(c['t'][0]),
                ROLLING_SHUTTER_DURATION=c['t'][1], CAMERA_TRIGGER_TIME=c['t'][2], CAMERA_READOUT_DONE_TIME=c['t'][3],
                INTRINSIC=c['intr'].astype(np.float32), EXTRINSIC=c['ext'].astype(np.float32), WIDTH=c['w'], HEIGHT=c['h'],
                ROLLING_SHUTTER_DIRECTION=c['rs'])
    for k, v in want.items():
      keys.add(s + '_' + k)
      ctx.require(s + '_' + k in dd, 'no %s_%s', s, k)
      g = np.asarray(dd[s + '_' + k])
      ctx.require(g.shape == np.shape(v) and np.allclose(g.astype(float), np.asarray(v, float), rtol=1e-6, atol=0), '%s_%s differs', s, k)
  ctx.equal(sorted(dd), sorted(keys), 'keys of the frame')


SUBS = [
    Sub('features', features, check_features, 1600, rule='two points with different ranges'),
    Sub('scatter', scatters, check_scatter, 1200, rule='two values fall on one pixel of an image with several rows and columns'),
    Sub('transforms', angles, check_transforms, 1200, rule='more than one angle'),
    Sub('extract', clouds, check_extract, 1600, rule='several columns, and several rows or frames'),
    Sub('build', builds, check_build, 2400, rule='a frame with two or more points and over two columns'),
    Sub('round_trip', trips, check_trip, 1200, rule='three or more points, several columns'),
    Sub('depth', depths, check_depth, 1200, rule='two or more points seen by the camera'),
    Sub('crop', crops, check_crop, 1200, rule='a shifted crop of two or more columns'),
    Sub('inclination', inclinations, check_inclination, 400, rule='two or more rows'),
    Sub('frame', frames, check_frame, 640, rule='a frame with a top lidar and another one'),
]
