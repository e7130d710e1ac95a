"""Object assets: tiles, PCA codec of camera rays, box and frame geometry."""
import json

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import pandas as pd
  import tensorflow as tf
  from waymo_open_dataset.utils.compression import pca_codec, tiling
  from waymo_open_dataset.v2 import column_types
  from waymo_open_dataset.v2.perception import base, object_asset
  from waymo_open_dataset.v2.perception.utils import object_asset_codec, object_asset_utils
  return dict(tf=tf, pd=pd, pca=pca_codec, tl=tiling, ct=column_types, base=base, oa=object_asset, codec=object_asset_codec, ut=object_asset_utils)


# ------------------------------------------------------------- tiles


@st.composite
def grids(draw):
  return dict(seed=draw(tfu.seeds()), tile=draw(st.integers(1, 5)), size=draw(st.tuples(st.integers(1, 12), st.integers(1, 12))), dims=draw(st.integers(1, 6)), dtype=draw(st.sampled_from(['float32', 'float64', 'int32'])))


def padded(n, tile):
  """Size of n in whole tiles, or None when it cannot be mirrored that far."""
  p = -n % tile
  return None if p > n - 1 else n + p


def check_tiles(case, ctx):
  tl, tf = ctx.env['tl'], ctx.env['tf']
  rng = np.random.RandomState(case['seed'])
  (h, w), t, d = case['size'], case['tile'], case['dims']
  ph, pw = padded(h, t), padded(w, t)
  if ph is None or pw is None:
    ctx.label('too small')
    return
  data = rng.randint(-1000, 1000, (h, w, d)).astype(case['dtype'])
  tiles = ctx.call(tl.extract_tiles, tf.constant(data), t)
  got = tiles.numpy()
  ctx.equal(got.shape, (ph // t * (pw // t), t * t * d), 'shape of the tiles')
  full = np.pad(data, [(0, ph - h), (0, pw - w), (0, 0)], mode='reflect')
  want = np.stack([full[y:y + t, x:x + t].ravel() for y in range(0, ph, t) for x in range(0, pw, t)])
  ctx.require(np.array_equal(got, want), lambda: 'tiles %s, expected %s' % (got.tolist(), want.tolist()))
  back = ctx.call(tl.combine_tiles, tiles, h, w, t).numpy()
  ctx.require(np.array_equal(back, data) and back.dtype == data.dtype, 'tiles do not combine to the grid')
  if (t * t * d) % ((t + 1) * (t + 1)):
    try:
      tl.combine_tiles(tiles, h, w, t + 1)
      ctx.fail('tiles of the wrong size were combined')
    except ValueError:
      pass
  if len(got) > 1 and t > 1:
    ctx.nontrivial()
  ctx.label('padded' if (ph, pw) != (h, w) else 'whole')


# ------------------------------------------------------------- PCA


@st.composite
def samples(draw):
  return dict(seed=draw(tfu.seeds()), features=draw(st.integers(1, 6)), n=draw(st.integers(8, 30)), keep=draw(st.integers(1, 6)), constant=draw(st.sampled_from([False, False, True])), rank=draw(st.integers(1, 6)), scale=draw(st.sampled_from([1e-3, 1, 100])))


def check_pca(case, ctx):
  lib, tf = ctx.env['pca'], ctx.env['tf']
  rng = np.random.RandomState(case['seed'])
  f = case['features']
  k = min(case['keep'], f)
  data = (rng.normal(size=(case['n'], case['rank'])) @ rng.normal(size=(case['rank'], f)) + rng.uniform(-5, 5, f)) * case['scale']
  if case['constant']:
    data[:, 0] = 3.25
  before = data.copy()
  pipe, params = ctx.call(lib.fit_pca, data.astype(np.float32) if case['seed'] % 2 else data, k)
  ctx.require(np.array_equal(data, before), 'the samples changed')
  src = data.astype(np.float32).astype(float) if case['seed'] % 2 else data
  std = src.std(0)
  std[std < 1e-12] = 1
  ctx.close(params.mean, src.mean(0), 'mean', rtol=1e-6, atol=1e-9)
  ctx.close(params.std, std, 'standard deviation', rtol=1e-6, atol=1e-9)
  ctx.equal(np.shape(params.eigen_vectors), (k, f), 'shape of the eigenvectors')
  ctx.equal(len(params.eigen_values), k, 'number of eigenvalues')
  vec = np.array(params.eigen_vectors)
  ctx.close(vec @ vec.T, np.eye(k), 'eigenvectors are orthonormal', atol=1e-6)
  scaled = (src - src.mean(0)) / std
  spectrum = np.sort(np.linalg.eigvalsh(np.cov(scaled.T).reshape(f, f)))[::-1][:k]
  ctx.close(params.eigen_values, spectrum, 'eigenvalues', atol=1e-6, rtol=1e-6)
  pca = ctx.call(lib.Pca, params)
  coeff = ctx.call(pca.transform, tf.constant(src)).numpy()
  ctx.close(coeff, scaled @ vec.T, 'coefficients', atol=1e-9, rtol=1e-7)
  ctx.close(coeff, pipe.transform(src), 'coefficients of the pipeline', atol=1e-6, rtol=1e-6)
  rec = ctx.call(pca.inverse_transform, tf.constant(coeff)).numpy()
  ctx.equal(rec.dtype, np.dtype(np.float32), 'type of the reconstruction')
  want = scaled @ vec.T @ vec * std + src.mean(0)
  ctx.close(rec, want, 'reconstruction', atol=1e-5 * case['scale'], rtol=1e-5)
  if k == f or k >= case['rank']:
    ctx.close(rec, src, 'lossless reconstruction', atol=1e-4 * case['scale'], rtol=1e-5)
  again = ctx.call(pca.transform, tf.constant(rec)).numpy()
  ctx.close(again, coeff, 'coefficients of the reconstruction', atol=1e-3 * max(1, np.abs(src / std).max()))
  # The configuration survives JSON exactly.
  cfg = lib.CodecConfig(pca=params, quantization=rng.uniform(1e-6, 1, k).tolist(), tile_size=int(rng.randint(1, 9)))
  text = ctx.call(cfg.to_json)
  json.loads(text)
  ctx.equal(ctx.call(lib.CodecConfig.from_json, text), cfg, 'configuration after JSON')
  buckets = rng.randint(1, 2000, k).tolist()
  q = ctx.call(lib.bucketed_quantization, coeff, buckets)
  ctx.close(q, [np.abs(coeff[:, i]).max() / b for i, b in enumerate(buckets)], 'quantization factors', rtol=1e-9, atol=1e-15)
  if k > 1:
    ctx.nontrivial()


# ------------------------------------------------------------- codec


@st.composite
def codes(draw):
  return dict(seed=draw(tfu.seeds()), tile=draw(st.sampled_from([1, 2, 2, 3])), size=draw(st.tuples(st.integers(1, 7), st.integers(1, 7))), keep=draw(st.sampled_from(['all', 'all', 'some'])), quant=draw(st.sampled_from([1e-5, 1e-3, 0.05, 1.0])),
              offset=draw(st.sampled_from([0.0, 3.0, 200.0])), huge=draw(st.sampled_from([False, False, False, True])))


def make_codec(case, rng, d):
  n = case['tile'] ** 2 * d
  q, _ = np.linalg.qr(rng.normal(size=(n, n)))
  k = n if case['keep'] == 'all' else rng.randint(1, n + 1)
  return dict(mean=rng.uniform(-0.1, 0.1, n).tolist(), std=rng.uniform(0.3, 2, n).tolist(), eigen_vectors=q[:k].tolist(), eigen_values=np.sort(rng.uniform(0.1, 3, k))[::-1].tolist()), (case['quant'] * rng.uniform(0.5, 1, k)).tolist()


def judge_code(ctx, case, params, quant, data, reference, values, shape):
  """Judges the code of data and returns what it decodes to."""
  h, w, d = data.shape
  t = case['tile']
  mean, std, vec, q = [np.array(params[k]) for k in ('mean', 'std', 'eigen_vectors')] + [np.array(quant)]
  ph, pw = padded(h, t), padded(w, t)
  ctx.equal(list(shape), [h, w, d], 'shape in the code')
  ctx.close(reference, data.astype(float).mean((0, 1)), 'reference', atol=1e-4, rtol=1e-5)
  ctx.equal(values.shape, (ph * pw // t // t, len(q)), 'shape of the quantized values')
  off = np.pad(data.astype(float) - np.asarray(reference, float), [(0, ph - h), (0, pw - w), (0, 0)], mode='reflect')
  tiles = off.reshape(ph // t, t, pw // t, t, d).swapaxes(1, 2).reshape(-1, t * t * d)
  coeff = (tiles - mean) / std @ vec.T
  exact = np.clip(coeff / q, -2**31, 2**31 - 1)
  slack = 0.5 + (1e-6 * (1 + np.abs(data).max()) * 30) / q + 1e-9 * np.abs(exact)
  err = np.abs(values - exact)
  ctx.require((err <= slack).all(), lambda: 'quantized values are off by up to %g steps' % err.max())
  rec = (values * q) @ vec * std + mean
  grid = rec.reshape(ph // t, pw // t, t, t, d).swapaxes(1, 2).reshape(ph, pw, d)[:h, :w] + np.asarray(reference, float)
  return grid, coeff


def check_codec(case, ctx):
  lib, tf = ctx.env['pca'], ctx.env['tf']
  rng = np.random.RandomState(case['seed'])
  (h, w), d = case['size'], int(rng.randint(1, 4))
  if padded(h, case['tile']) is None or padded(w, case['tile']) is None:
    ctx.label('too small')
    return
  params, quant = make_codec(case, rng, d)
  codec = ctx.call(lib.Codec, lib.CodecConfig(pca=lib.PcaParams(**params), quantization=quant, tile_size=case['tile']))
  ctx.equal(codec.quantization_dims, len(quant), 'dimensions')
  data = (rng.normal(size=(h, w, d)) * (1e8 if case['huge'] else 1) + case['offset']).astype(np.float32)
  code = ctx.call(codec.encode, tf.constant(data))
  ctx.equal(code.quantized_values.numpy().dtype, np.dtype(np.int32), 'type of the quantized values')
  ctx.equal(code.reference.numpy().dtype, np.dtype(np.float32), 'type of the reference')
  if case['huge']:
    # Values beyond int32 saturate: they keep their sign.
    v = code.quantized_values.numpy()
    off = np.pad(data.astype(float) - code.reference.numpy(), [(0, padded(h, case['tile']) - h), (0, padded(w, case['tile']) - w), (0, 0)], mode='reflect')
    t = case['tile']
    tiles = off.reshape(off.shape[0] // t, t, off.shape[1] // t, t, d).swapaxes(1, 2).reshape(-1, t * t * d)
    exact = (tiles - params['mean']) / params['std'] @ np.array(params['eigen_vectors']).T / quant
    wide = np.abs(exact) > 3e9
    ctx.require((np.sign(v[wide]) == np.sign(exact[wide])).all() and (np.abs(v[wide].astype(float)) >= 2**31 - 300).all(), lambda: 'saturated values %s for %s' % (v[wide].tolist(), exact[wide].tolist()))
    ctx.label('saturated' if wide.any() else 'in range')
    return
  want, coeff = judge_code(ctx, case, params, quant, data, code.reference.numpy(), code.quantized_values.numpy(), code.shape)
  got = ctx.call(codec.decode, code).numpy()
  ctx.close(got, want, 'decoded grid', atol=2e-5 * (1 + np.abs(data).max()), rtol=1e-5)
  if case['keep'] == 'all':
    bound = 0.5 * np.sqrt((np.array(quant) ** 2).sum()) * max(params['std']) + 1e-4 * (1 + np.abs(data).max())
    ctx.require(np.abs(got - data).max() <= bound, lambda: 'round trip is off by %g, the quantization allows %g' % (np.abs(got - data).max(), bound))
  if h * w > 1:
    ctx.nontrivial()
  ctx.label(case['keep'])


def check_rays(case, ctx):
  lib, oa, base, pd = ctx.env['codec'], ctx.env['oa'], ctx.env['base'], ctx.env['pd']
  rng = np.random.RandomState(case['seed'])
  h, w = case['size']
  if padded(h, case['tile']) is None or padded(w, case['tile']) is None or case['tile'] > 2 or case['huge']:
    ctx.label('skipped')
    return
  params, quant = make_codec(case, rng, 6)
  cfg = lib.ObjectAssetRayCodecConfig(pca=ctx.env['pca'].PcaParams(**params), quantization=quant, tile_size=case['tile'])
  codec = ctx.call(lib.ObjectAssetRayCodec, cfg)
  data = np.concatenate([rng.uniform(-10, 10, (h, w, 3)) + case['offset'], rng.normal(size=(h, w, 3))], -1).astype(np.float32)
  key = base.ObjectAssetKey(segment_context_name='seg%d' % rng.randint(5), frame_timestamp_micros=int(rng.randint(1 << 30)), laser_object_id='obj%d' % rng.randint(9), camera_name=int(rng.randint(1, 6)))
  image = lambda a: oa.CameraRayImage(values=a.ravel().tolist(), shape=list(a.shape))
  src = oa.ObjectAssetRayComponent(key=key, ray_origin=image(data[..., :3]), ray_direction=image(data[..., 3:]))
  comp = ctx.call(codec.encode, src)
  ctx.equal(comp.key, key, 'key of the compressed component')
  ctx.require(all(isinstance(v, int) for v in comp.quantized_values) and all(isinstance(v, int) for v in comp.shape) and all(isinstance(v, float) for v in comp.reference), 'compressed columns hold plain numbers')
  want, _ = judge_code(ctx, case, params, quant, data, comp.reference, np.array(comp.quantized_values).reshape(-1, len(quant)), comp.shape)
  back = ctx.call(codec.decode, comp)
  ctx.equal(back.key, key, 'key of the decoded component')
  for part, sl in ((back.ray_origin, slice(0, 3)), (back.ray_direction, slice(3, 6))):
    ctx.equal(list(part.shape), [h, w, 3], 'shape of the decoded rays')
    ctx.close(np.array(part.values).reshape(h, w, 3), want[..., sl], 'decoded rays', atol=2e-5 * (1 + np.abs(data).max()), rtol=1e-5)
    ctx.close(part.numpy, np.array(part.values).reshape(part.shape), 'array of the rays', atol=0, rtol=0)
    ctx.close(part.tensor.numpy(), part.numpy, 'tensor of the rays', atol=1e-4)
  df = pd.DataFrame([ctx.call(src.to_flatten_dict), ctx.call(back.to_flatten_dict)])
  rows = ctx.call(lambda d: list(lib.iter_ray_samples(d)), df)
  ctx.equal(len(rows), 2, 'ray samples')
  ctx.close(rows[0], data, 'ray sample', atol=0, rtol=0)
  ctx.close(rows[1], np.concatenate([back.ray_origin.numpy, back.ray_direction.numpy], -1), 'decoded ray sample', atol=0, rtol=0)
  ctx.nontrivial()


# ------------------------------------------------------------- geometry


@st.composite
def shots(draw):
  return dict(seed=draw(tfu.seeds()), n=draw(st.integers(1, 12)), dtype=draw(st.sampled_from(['float32', 'float64'])), zero=draw(st.sampled_from([0, 0.3, 0.7])), spread=draw(st.sampled_from([0.4, 1.0, 3.0])), unit=draw(st.booleans()))


def slabs(o, d, half):
  """(hit, t0, t1) of each ray with a box, exactly parallel rays included."""
  lo, hi = np.full(len(o), -np.inf), np.full(len(o), np.inf)
  for a in range(3):
    par = d[:, a] == 0
    with np.errstate(all='ignore'):
      t = np.stack([(-half[a] - o[:, a]) / d[:, a], (half[a] - o[:, a]) / d[:, a]])
    t.sort(0)
    inside = np.abs(o[:, a]) <= half[a]
    lo = np.maximum(lo, np.where(par, np.where(inside, -np.inf, np.inf), t[0]))
    hi = np.minimum(hi, np.where(par, np.where(inside, np.inf, -np.inf), t[1]))
  return (lo <= hi) & (hi > 0), lo, hi


def check_intersect(case, ctx):
  rng = np.random.RandomState(case['seed'])
  box = rng.uniform(0.5, 6, 3).astype(case['dtype'])
  o = (rng.uniform(-1, 1, (case['n'], 3)) * box * case['spread']).astype(case['dtype'])
  aim = rng.uniform(-0.6, 0.6, (case['n'], 3)) * box
  d = np.where(rng.rand(case['n'], 1) < 0.6, (aim - o) * rng.choice([-1, 1, 1]), rng.normal(size=(case['n'], 3)))
  d[rng.rand(case['n'], 3) < case['zero']] = 0
  d[(d == 0).all(1)] = [1, 0, 0]
  if case['unit']:
    d = d / np.linalg.norm(d, axis=1, keepdims=True)
  d = d.astype(case['dtype'])
  copies = o.copy(), d.copy(), box.copy()
  hit, t0, t1 = ctx.call(ctx.env['ut'].get_ray_box_intersects, o, d, box)
  ctx.require(all(np.array_equal(a, b) for a, b in zip(copies, (o, d, box))), 'the input changed')
  for a in (hit, t0, t1):
    ctx.equal(np.shape(a), (case['n'],), 'one result per ray')
  o, d, half = o.astype(float), d.astype(float), box.astype(float) / 2
  want, w0, w1 = slabs(o, d, half)
  small, big = slabs(o, d, half * (1 - 1e-4) - 1e-5), slabs(o, d, half * (1 + 1e-4) + 1e-5)
  sure = (small[0] == want) & (big[0] == want)
  ctx.require((np.asarray(hit)[sure] == want[sure]).all(), lambda: 'hits %s, expected %s' % (np.asarray(hit).tolist(), want.tolist()))
  eps = 1e-4 if case['dtype'] == 'float32' else 1e-7
  for r in np.flatnonzero(sure & want):
    # Distances are ill-conditioned where the two slabs nearly agree.
    tol = eps * (10 + np.abs(o[r]).max() + half.max()) / np.abs(d[r])[d[r] != 0].min()
    for g, w, name in ((t0[r], w0[r], 'first'), (t1[r], w1[r], 'second')):
      ctx.require(abs(g - w) <= tol + eps * abs(w), '%s intersection of ray %s %s with %s: %r, expected %r', name, o[r].tolist(), d[r].tolist(), box.tolist(), float(g), float(w))
    inside = (np.abs(o[r]) < half * (1 - 1e-4)).all()
    if inside:
      ctx.require(t0[r] < 0, 'first intersection of a ray that starts inside')
  for r in np.flatnonzero(sure & ~want):
    edge = np.abs(big[1][r]) < 1e-3 or np.abs(big[2][r]) < 1e-3 or not np.isfinite([t0[r], t1[r]]).all()
    if not edge and min(abs(t0[r]), abs(t1[r])) > 1e-3:
      ctx.require(t0[r] < 0 and t1[r] < 0, 'ray %s %s misses %s but has intersections at %r and %r', o[r].tolist(), d[r].tolist(), box.tolist(), float(t0[r]), float(t1[r]))
  if want.any() and not want.all():
    ctx.nontrivial()
  ctx.label('hit' if want.any() else 'miss')


def check_frames(case, ctx):
  ut = ctx.env['ut']
  rng = np.random.RandomState(case['seed'])
  dt = case['dtype']
  tol = 2e-4 if dt == 'float32' else 1e-9
  p = (rng.uniform(-50, 50, (case['n'], 3))).astype(dt)
  v = rng.normal(size=(case['n'], 3))
  v = (v / np.linalg.norm(v, axis=1, keepdims=True)).astype(dt)
  m = tfu.pose(rng, tilt=1.0).astype(rng.choice(['float32', 'float64']))
  box = np.r_[rng.uniform(-50, 50, 3), rng.uniform(0.5, 8, 3), rng.uniform(-7, 7)].astype(rng.choice(['float32', 'float64']))
  tol = max(tol, 2e-4 if box.dtype == np.float32 else 0)
  copies = [a.copy() for a in (p, v, m, box)]
  m64, b64 = m.astype(float), box.astype(float)
  c, s = np.cos(b64[6]), np.sin(b64[6])
  axes = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])  # rows: box axes

  def expect(name, got, want):
    ctx.equal(got.dtype, np.dtype(dt), 'type of ' + name)
    ctx.close(got, want, name, atol=tol)
  expect('points in another frame', ctx.call(ut.transform_points_to_frame, p, m), p.astype(float) @ m64[:3, :3].T + m64[:3, 3])
  expect('directions in another frame', ctx.call(ut.transform_directions_to_frame, v, m), v.astype(float) @ m64[:3, :3].T)
  expect('rotated points', ctx.call(ut.rotate_points_along_z, p, b64[6]), p.astype(float) @ axes)
  local = ctx.call(ut.transform_points_to_box_coord, p, box)
  expect('points in the box frame', local, (p.astype(float) - b64[:3]) @ axes.T)
  expect('directions in the box frame', ctx.call(ut.transform_directions_to_box_coord, v, box), v.astype(float) @ axes.T)
  expect('points out of the box frame', ctx.call(ut.transform_points_to_box_coord_reverse, p, box), p.astype(float) @ axes + b64[:3])
  expect('points back from the box frame', ctx.call(ut.transform_points_to_box_coord_reverse, local, box), p)
  ctx.require(all(np.array_equal(a, b) for a, b in zip(copies, (p, v, m, box))), 'the input changed')
  ctx.nontrivial(case['n'] > 1)


# ------------------------------------------------------------- images


@st.composite
def patches(draw):
  return dict(seed=draw(tfu.seeds()), size=draw(st.tuples(st.integers(1, 6), st.integers(1, 6))))


def check_images(case, ctx):
  oa, base, ct = ctx.env['oa'], ctx.env['base'], ctx.env['ct']
  rng = np.random.RandomState(case['seed'])
  h, w = case['size']
  key = base.ObjectAssetKey(segment_context_name='s', frame_timestamp_micros=1, laser_object_id='o', camera_name=1)
  rgb = rng.randint(0, 256, (h, w, 3)).astype(np.uint8)
  mask = rng.randint(0, 2, (h, w)).astype(np.uint8)
  sem = rng.randint(0, 256, (h, w)).astype(np.uint8)
  ins = rng.randint(0, 65536, (h, w)).astype(np.uint16)
  obj = rng.randint(0, 2, (h, w)).astype(np.uint8)
  dist = rng.uniform(0, 75, (h, w)).astype(np.float32)
  cam = oa.ObjectAssetCameraSensorComponent(key=key, rgb_image=tfu.png(rgb), proj_points_mask=tfu.png(mask), proj_points_dist=oa.LidarDistanceImage(values=dist.ravel().tolist(), shape=[h, w]))
  auto = oa.ObjectAssetAutoLabelComponent(key=key, semantic_mask=tfu.png(sem), instance_mask=tfu.png(ins), object_mask=tfu.png(obj))
  get = lambda o, n: ctx.call(lambda: np.asarray(getattr(o, n)))
  for o, n, want in ((cam, 'rgb_image_numpy', rgb), (cam, 'proj_points_mask_numpy', mask[..., None]), (auto, 'semantic_mask_numpy', sem[..., None]), (auto, 'instance_mask_numpy', ins[..., None]), (auto, 'object_mask_numpy', obj[..., None])):
    got = get(o, n)
    ctx.require(got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want), lambda: '%s: %s, expected %s' % (n, got.tolist(), want.tolist()))
  ctx.close(cam.proj_points_dist.numpy, dist, 'projected distances', atol=0, rtol=0)
  ctx.close(cam.proj_points_dist.tensor.numpy(), dist, 'projected distances', atol=0, rtol=0)
  pts = rng.uniform(-3, 3, (h, 3)).astype(np.float32)
  lid = oa.ObjectAssetLiDARSensorComponent(key=base.LaserLabelKey(segment_context_name='s', frame_timestamp_micros=1, laser_object_id='o'), points_xyz=oa.PointCoordinates(values=pts.ravel().tolist(), shape=[h, 3]))
  ctx.close(lid.points_xyz.numpy, pts, 'points', atol=0, rtol=0)
  b = rng.uniform(-9, 9, 7)
  box = ct.Box3d(center=ct.Vec3d(*b[:3]), size=ct.Vec3d(*b[3:6]), heading=b[6])
  for dt in (np.float32, np.float64):
    got = ctx.call(box.numpy, dt)
    ctx.require(got.dtype == dt and np.array_equal(got, b.astype(dt)), 'box %s, expected %s', got.tolist(), b.tolist())
  ctx.require(np.array_equal(box.center.numpy, b[:3]) and np.array_equal(box.size.numpy, b[3:6]), 'vectors of the box')
  ctx.nontrivial(h * w > 1)


SUBS = [
    Sub('tiles', grids, check_tiles, 800, rule='several tiles of more than one cell'),
    Sub('pca', samples, check_pca, 600, rule='several components'),
    Sub('codec', codes, check_codec, 800, rule='more than one cell'),
    Sub('rays', codes, check_rays, 500, rule='rays are coded'),
    Sub('intersect', shots, check_intersect, 1200, rule='some rays hit and some miss'),
    Sub('frames', shots, check_frames, 600, rule='several points'),
    Sub('images', patches, check_images, 300, rule='more than one pixel'),
]
