"""Upright boxes, convex distances and object trajectories (Python helpers)."""
import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub
from vlib.tfu import corners2d, hull, signed_distance


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import label_pb2
  from waymo_open_dataset.protos import scenario_pb2
  from waymo_open_dataset.utils import box_utils, geometry_utils, trajectory_utils
  return dict(tf=tf, bx=box_utils, ge=geometry_utils, tj=trajectory_utils, sc=scenario_pb2, lb=label_pb2)


def boxes(rng, n, zero=0.15, heading=7.0, spread=20.0):
  """[n, 7] boxes; some have a zero dimension, some an exact quarter turn."""
  b = np.concatenate([rng.uniform(-spread, spread, (n, 3)) * [1, 1, 0.1], rng.uniform(0.2, 6, (n, 3)), rng.uniform(-heading, heading, (n, 1))], -1)
  q = rng.rand(n) < 0.3
  b[q, 6] = rng.randint(-4, 5, q.sum()) * (np.pi / 2)
  for k in np.argwhere(rng.rand(n) < zero)[:, 0]:
    b[k, 3 + rng.randint(3)] = 0
  return b.astype(np.float32)


# ------------------------------------------------------------- points in boxes


@st.composite
def points_boxes(draw):
  return dict(n=draw(st.integers(1, 12)), m=draw(st.integers(1, 4)), seed=draw(tfu.seeds()), two=draw(st.booleans()))


def check_inside(case, ctx):
  tf, bx = ctx.env['tf'], ctx.env['bx']
  rng = np.random.RandomState(case['seed'])
  n, m = case['n'], case['m']
  b = boxes(rng, m)
  # Points around the boxes: inside, outside, and just either side of a face.
  loc = rng.uniform(-1.3, 1.3, (n, 3)) * 0.5
  face = rng.rand(n, 3) < 0.3
  loc = np.where(face, np.sign(loc) * 0.5 * (1 + rng.choice([-0.02, 0.02], (n, 3))), loc)
  w = rng.randint(0, m, n)
  p = np.zeros((n, 3))
  for k in range(n):
    bb = b[w[k]].astype(float)
    p[k] = tfu.rot(0, 0, bb[6]) @ (loc[k] * bb[3:6]) + bb[:3]
  p = p.astype(np.float32)
  rel = np.einsum('mji,nmj->nmi', tfu.rot(0, 0, b[:, 6]), p[:, None].astype(float) - b[None, :, :3])
  half = b[None, :, 3:6].astype(float) / 2
  if case['two']:
    rel, half = rel[..., :2], half[..., :2]
    got = ctx.call(bx.is_within_box_2d, tf.constant(p[:, :2]), tf.constant(b[:, [0, 1, 3, 4, 6]])).numpy()
  else:
    got = ctx.call(bx.is_within_box_3d, tf.constant(p), tf.constant(b)).numpy()
  margin = np.min(half - np.abs(rel), -1)
  ctx.require(got.shape == (n, m) and got.dtype == bool, 'result %s %s', got.shape, got.dtype)
  flat = np.any(half == 0, -1)
  for i in range(n):
    for j in range(m):
      if flat[0, j]:
        ctx.require(not got[i, j], 'a point lies in a box without volume: %s', b[j])
      elif abs(margin[i, j]) > 2e-5:
        ctx.require(got[i, j] == (margin[i, j] > 0), lambda: 'point %s, box %s: %s, margin %r' % (p[i], b[j], got[i, j], margin[i, j]))
  if not case['two']:
    cnt = ctx.call(bx.compute_num_points_in_box_3d, tf.constant(p), tf.constant(b))
    ctx.equal(cnt.numpy().tolist(), got.sum(0).tolist(), 'points per box')
    ctx.require(cnt.dtype == tf.int32, 'count type %s', cnt.dtype)
  ctx.nontrivial(got.any() and not got.all())


# ------------------------------------------------------------- corners, frames


@st.composite
def box_frames(draw):
  return dict(n=draw(st.integers(1, 5)), lead=draw(st.sampled_from([(), (2,), (2, 3)])), seed=draw(tfu.seeds()), spread=draw(st.sampled_from([5.0, 200.0])))


def check_frames(case, ctx):
  tf, bx, lb = ctx.env['tf'], ctx.env['bx'], ctx.env['lb']
  rng = np.random.RandomState(case['seed'])
  n, lead = case['n'], case['lead']
  b = boxes(rng, n)
  c = ctx.call(bx.get_upright_3d_box_corners, tf.constant(b)).numpy()
  want = np.zeros((n, 8, 3))
  want[:, :4, :2] = want[:, 4:, :2] = corners2d(b)
  want[:, :4, 2] = (b[:, 2] - b[:, 5] / 2)[:, None]
  want[:, 4:, 2] = (b[:, 2] + b[:, 5] / 2)[:, None]
  ctx.close(c, want, 'corners', atol=2e-5)
  t = ctx.call(bx.box_to_tensor, lb.Label.Box(center_x=b[0, 0], center_y=b[0, 1], center_z=b[0, 2], length=b[0, 3], width=b[0, 4], height=b[0, 5], heading=b[0, 6]))
  ctx.close(t.numpy(), b[0], 'box proto as a tensor', atol=0, rtol=1e-7)
  # Frames that differ by a turn about z only keep boxes upright.
  k = int(np.prod(lead, dtype=int))
  src = np.stack([tfu.pose(rng, case['spread'], 0.0) for _ in range(k)]).reshape(lead + (4, 4)).astype(np.float32)
  dst = np.stack([tfu.pose(rng, case['spread'], 0.0) for _ in range(k)]).reshape(lead + (4, 4)).astype(np.float32)
  bb = np.stack([boxes(rng, n) for _ in range(k)]).reshape(lead + (n, 7))
  tol = 2e-6 * (50 + 4 * case['spread'])
  got = ctx.call(bx.transform_box, tf.constant(bb), tf.constant(src), tf.constant(dst)).numpy()
  m = np.linalg.inv(dst.astype(float)) @ src.astype(float)
  ctx.close(got[..., :3], tfu.apply(m[..., None, :, :], bb[..., :3].astype(float)), 'centre in the other frame', atol=tol, rtol=0)
  ctx.close(got[..., 3:6], bb[..., 3:6], 'dimensions in the other frame', atol=0, rtol=0)
  turn = np.arctan2(m[..., 1, 0], m[..., 0, 0])[..., None]
  ctx.close(tfu.wrap(got[..., 6] - bb[..., 6] - turn), np.zeros(lead + (n,)), 'heading in the other frame', atol=1e-5)
  # The box's corners move as points do.
  a = bx.get_upright_3d_box_corners(tf.constant(bb.reshape(-1, 7))).numpy().reshape(lead + (n * 8, 3))
  z = bx.get_upright_3d_box_corners(tf.constant(got.reshape(-1, 7).astype(np.float32))).numpy().reshape(lead + (n * 8, 3))
  moved = ctx.call(bx.transform_point, tf.constant(a), tf.constant(src), tf.constant(dst)).numpy()
  ctx.close(moved, z, 'corners of the moved box against moved corners', atol=3 * tol, rtol=0)
  # Any rigid frames for points; there and back gives the points again.
  src = np.stack([tfu.pose(rng, case['spread'], 1.5) for _ in range(k)]).reshape(lead + (4, 4)).astype(np.float32)
  there = ctx.call(bx.transform_point, tf.constant(a), tf.constant(src), tf.constant(dst))
  ctx.close(there.numpy(), tfu.apply((np.linalg.inv(dst.astype(float)) @ src)[..., None, :, :], a.astype(float)), 'points in the other frame', atol=tol, rtol=0)
  back = ctx.call(bx.transform_point, there, tf.constant(dst), tf.constant(src)).numpy()
  ctx.close(back, a, 'points after going there and back', atol=4 * tol, rtol=0)
  ctx.nontrivial(n > 1)


# ------------------------------------------------------------- convex distances


@st.composite
def polys(draw):
  return dict(n=draw(st.integers(1, 4)), seed=draw(tfu.seeds()), same=draw(st.sampled_from([None, None, 'heading', 'quarter', 'box'])),
              near=draw(st.booleans()))


def check_convex(case, ctx):
  tf, ge = ctx.env['tf'], ctx.env['ge']
  rng = np.random.RandomState(case['seed'])
  n = case['n']
  spread = 3.0 if case['near'] else 20.0
  a = boxes(rng, n, 0, spread=spread).astype(float)
  b = boxes(rng, n, 0, spread=spread).astype(float)
  if case['same'] == 'heading':
    b[:, 6] = a[:, 6]
  elif case['same'] == 'quarter':
    b[:, 6] = a[:, 6] + np.pi / 2 * rng.randint(-3, 4, n)
  elif case['same'] == 'box':
    b = a.copy()
  ca, cb = corners2d(a).astype(np.float32), corners2d(b).astype(np.float32)
  ca = np.stack([np.roll(c, rng.randint(4), 0) for c in ca])
  cb = np.stack([np.roll(c, rng.randint(4), 0) for c in cb])
  s = ctx.call(ge.minkowski_sum_of_box_and_box_points, tf.constant(ca), tf.constant(cb)).numpy()
  ctx.require(s.shape == (n, 8, 2), 'sum has shape %s', s.shape)
  for k in range(n):
    allp = (ca[k][:, None].astype(float) + cb[k][None].astype(float)).reshape(-1, 2)
    # Every vertex of the sum is a sum of vertices, they contain all sums, and go round counter-clockwise.
    d = np.min(np.linalg.norm(s[k][:, None] - allp[None], axis=-1), -1)
    ctx.require(np.all(d < 1e-4), 'a vertex of the sum is not a sum of vertices')
    h = hull(s[k])
    out = max(signed_distance(p, h) for p in allp)
    ctx.require(out < 1e-3, 'a sum of vertices is %r outside the result', out)
    v = s[k].astype(float)
    area = 0.5 * np.sum(v[:, 0] * np.roll(v[:, 1], -1) - np.roll(v[:, 0], -1) * v[:, 1])
    hh = hull(allp)
    want = 0.5 * np.sum(hh[:, 0] * np.roll(hh[:, 1], -1) - np.roll(hh[:, 0], -1) * hh[:, 1])
    ctx.close(area, want, 'signed area of the sum', atol=1e-2, rtol=1e-4)
  # Distance from points to convex polygons.
  m = rng.randint(3, 8)
  polygons, queries = [], []
  for k in range(n):
    ang = np.sort(rng.permutation(24)[:m] * (2 * np.pi / 24))
    if np.max(np.diff(np.append(ang, ang[0] + 2 * np.pi))) > 3.0:
      ang = np.arange(m) * 2 * np.pi / m
    p = np.stack([np.cos(ang) * rng.uniform(1, 8), np.sin(ang) * rng.uniform(1, 8)], -1)
    polygons.append((tfu.rot(0, 0, rng.uniform(-3, 3))[:2, :2] @ p.T).T + rng.uniform(-10, 10, 2))
    kind = rng.randint(4)
    j = rng.randint(m)
    c, v, w = polygons[-1].mean(0), polygons[-1][j], polygons[-1][(j + 1) % m]
    queries.append([c + rng.uniform(-12, 12, 2), c + rng.uniform(0.0, 2.0) * (v - c), c + rng.uniform(0.0, 1.5) * ((v + w) / 2 - c), c][kind])
  pg, qu = np.array(polygons, np.float32), np.array(queries, np.float32)
  got = ctx.call(ge.signed_distance_from_point_to_convex_polygon, tf.constant(qu), tf.constant(pg)).numpy()
  want = np.array([signed_distance(qu[k], pg[k].astype(float)) for k in range(n)])
  ctx.require(got.shape == (n,), 'shape %s', got.shape)
  for k in range(n):
    tol = 2e-4
    ok = abs(got[k] - want[k]) <= tol or (abs(want[k]) < tol and abs(got[k]) < tol)
    ctx.require(ok, lambda: 'distance %r, expected %r for %s and %s' % (got[k], want[k], qu[k], pg[k].tolist()))
  # Small vector helpers.
  u, v, y = rng.uniform(-9, 9, (n, 2)).astype(np.float32), rng.uniform(-9, 9, (n, 2)).astype(np.float32), rng.uniform(-7, 7, n).astype(np.float32)
  ctx.close(ctx.call(ge.cross_product_2d, tf.constant(u), tf.constant(v)).numpy(), u[:, 0].astype(float) * v[:, 1] - u[:, 1].astype(float) * v[:, 0], 'cross product', atol=2e-5)
  ctx.close(ctx.call(ge.dot_product_2d, tf.constant(u), tf.constant(v)).numpy(), np.sum(u.astype(float) * v, -1), 'dot product', atol=2e-5)
  r = ctx.call(ge.rotate_2d_points, tf.constant(u), tf.constant(y)).numpy()
  ctx.close(r, np.einsum('nij,nj->ni', tfu.rot(0, 0, y)[:, :2, :2], u), 'rotated points', atol=1e-5)
  ctx.label('inside' if (want < 0).any() else 'outside')
  ctx.nontrivial(n > 1)


# ------------------------------------------------------------- trajectories

FIELDS = ('x', 'y', 'z', 'heading', 'length', 'width', 'height', 'valid')


@st.composite
def scenarios(draw):
  n, t = draw(st.integers(1, 6)), draw(st.integers(1, 7))
  return dict(n=n, t=t, seed=draw(tfu.seeds()), start=draw(st.integers(-3, 8)), end=draw(st.one_of(st.none(), st.integers(-3, 9))),
              pick=draw(st.lists(st.integers(0, n - 1), max_size=6)), bad=draw(st.sampled_from([None, None, 'missing', 'twice'])))


def check_trajectories(case, ctx):
  tf, tj, sc = ctx.env['tf'], ctx.env['tj'], ctx.env['sc']
  rng = np.random.RandomState(case['seed'])
  n, t = case['n'], case['t']
  s = sc.Scenario(scenario_id='s')
  ids = rng.permutation(3 * n)[:n] + rng.choice([0, 1, 10**6])
  ref = {f: np.zeros((n, t), np.float64) for f in FIELDS}
  types = rng.randint(0, 5, n)
  for k in range(n):
    tr = s.tracks.add(id=int(ids[k]), object_type=int(types[k]))
    for j in range(t):
      v = rng.uniform(-100, 100, 7)
      st_ = tr.states.add(center_x=v[0], center_y=v[1], center_z=v[2], heading=v[3], length=abs(v[4]), width=abs(v[5]), height=abs(v[6]), valid=bool(rng.rand() < 0.7))
      for f, g in zip(FIELDS, ('center_x', 'center_y', 'center_z', 'heading', 'length', 'width', 'height', 'valid')):
        ref[f][k, j] = getattr(st_, g)
  o = ctx.call(tj.ObjectTrajectories.from_scenario, s)

  def compare(o, sel, sl, what):
    for f in FIELDS:
      g = getattr(o, f)
      ctx.close(g.numpy(), ref[f][sel][:, sl], '%s of %s' % (f, what), atol=0, rtol=2e-7)
      ctx.require(g.dtype == (tf.bool if f == 'valid' else tf.float32), '%s has type %s', f, g.dtype)
    ctx.equal(o.object_id.numpy().tolist(), ids[sel].tolist(), 'ids of %s' % what)
    ctx.equal(o.object_type.numpy().tolist(), types[sel].tolist(), 'types of %s' % what)

  every = np.arange(n)
  compare(o, every, slice(None), 'the scenario')
  compare(ctx.call(o.slice_time, case['start'], case['end']), every, slice(case['start'], case['end']), 'a slice of time')
  pick = np.array(case['pick'], int)
  if len(pick):
    compare(ctx.call(o.gather_objects, tf.constant(pick.astype(np.int32))), pick, slice(None), 'gathered objects')
    by = ctx.call(o.gather_objects_by_id, tf.constant(ids[pick].astype(np.int32)))
    compare(by, pick, slice(None), 'objects gathered by id')
    compare(ctx.call(by.slice_time, case['start'], case['end']), pick, slice(case['start'], case['end']), 'a slice of gathered objects')
  ctx.nontrivial(len(pick) > 1 and t > 1)
  if case['bad'] is None:
    return
  if case['bad'] == 'missing':
    q, o2 = np.append(ids[pick], 4 * 10**6).astype(np.int32), o
  else:
    # The repeated id is the one asked for: which object it means is unclear.
    idx = np.append(every, every[rng.randint(n)])
    o2 = o.gather_objects(tf.constant(idx.astype(np.int32)))
    q = np.array([ids[idx[-1]]], np.int32)
  try:
    o2.gather_objects_by_id(tf.constant(q))
  except ValueError:
    ctx.label('rejected')
    return
  ctx.require(False, '%s id accepted', case['bad'])


SUBS = [
    Sub('inside', points_boxes, check_inside, 2000, rule='a point inside a box and a pair that is not'),
    Sub('frames', box_frames, check_frames, 1200, rule='two or more boxes'),
    Sub('convex', polys, check_convex, 1200, rule='two or more pairs'),
    Sub('trajectories', scenarios, check_trajectories, 1200, rule='two or more objects gathered over several steps'),
]
