"""LiDAR points in the v2 and motion dataset formats; motion scenarios with sensors."""
import numpy as np
from hypothesis import strategies as st

from checks.C29 import build_frame, cartesian, frames, same
from vlib import tfu, wod
from vlib.core import Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import dataset_pb2
  from waymo_open_dataset.protos import compressed_lidar_pb2, scenario_pb2
  from waymo_open_dataset.utils import frame_utils, womd_camera_utils, womd_lidar_utils
  from waymo_open_dataset.utils.compression import delta_encoder
  from waymo_open_dataset.v2.perception import lidar as v2_lidar
  from waymo_open_dataset.v2.perception.compat_v1 import context, interfaces, lidar, pose, segmentation
  from waymo_open_dataset.v2.perception.utils import lidar_utils
  return dict(tf=tf, pb=dataset_pb2, cl=compressed_lidar_pb2, sc=scenario_pb2, fu=frame_utils, cam=womd_camera_utils, womd=womd_lidar_utils, de=delta_encoder, v2l=v2_lidar,
              cx=context, inter=interfaces, li=lidar, po=pose, se=segmentation, ut=lidar_utils)


def poses(a):
  """[roll, pitch, yaw, x, y, z] -> 4x4, float64."""
  a = np.asarray(a, float)
  m = np.zeros(a.shape[:-1] + (4, 4))
  m[..., :3, :3] = tfu.rot(a[..., 0], a[..., 1], a[..., 2])
  m[..., :3, 3] = a[..., 3:]
  m[..., 3, 3] = 1
  return m


def inclinations(d):
  if d['inc'] is not None:
    return np.asarray(d['inc'], float)
  lo, hi = np.float32(d['lim'][0]), np.float32(d['lim'][1])
  return lo + (np.arange(d['h']) + .5) / d['h'] * (float(hi) - lo)


# ------------------------------------------------------------- v2


def check_v2(case, ctx):
  e = ctx.env
  f, pose, info, _ = build_frame(case, ctx)
  f.context.name = 'segment-%d' % (case['seed'] % 97)
  I, ut = e['inter'], e['ut']
  before = f.SerializeToString()
  one = lambda it: list(ctx.call(lambda: list(it)))
  vehicle = one(e['po'].VehiclePoseFrameExtractor()(I.FrameComponentSrc(f)))
  ctx.equal(len(vehicle), 1, 'vehicle poses')
  calibs = {c.name: one(e['cx'].LiDARCalibrationComponentExtractor()(I.LiDARCalibrationComponentSrc(f, c)))[0] for c in f.context.laser_calibrations}
  ris, cps, _, top = e['fu'].parse_range_image_and_camera_projection(f)
  tol = dict(atol=3e-6 * (100 + 4 * case['spread']), rtol=0)
  for l in f.lasers:
    d = info[l.name]
    got = ctx.call(ut.get_laser_by_name, f, e['v2l'].LaserName(l.name))
    ctx.equal(got, l, 'laser found by name')
    src = I.LiDARComponentSrc(f, l)
    key = ctx.call(ut.get_laser_key, src)
    ctx.equal((key.segment_context_name, key.frame_timestamp_micros, key.laser_name), (f.context.name, f.timestamp_micros, l.name), 'key')
    comps = {n: one(getattr(m, n + 'ComponentExtractor')()(src)) for m, n in ((e['li'], 'LiDAR'), (e['li'], 'LiDARCameraProjection'), (e['li'], 'LiDARPose'), (e['se'], 'LiDARSegmentationLabel'))}
    ctx.equal({n: len(c) for n, c in comps.items()}, {'LiDAR': 1, 'LiDARCameraProjection': 1, 'LiDARPose': int(l.name == 1), 'LiDARSegmentationLabel': int(bool(d['seg']))}, 'components of laser %d' % l.name)
    for n, c in comps.items():
      for x in c:
        ctx.equal(x.key, key, 'key of ' + n)
    returns = comps['LiDAR'][0].range_image_returns
    projs = comps['LiDARCameraProjection'][0].range_image_returns
    for imgs, ref, name in ((returns, d['ri'], 'range image'), (projs, d['cp'], 'camera projection')):
      ctx.equal([x is not None for x in imgs], [k < len(ref) for k in range(2)], 'returns of the ' + name)
      for x, r in zip(imgs, ref):
        same(ctx, ctx.call(lambda: x.tensor.numpy()), r, name)
    if d['seg']:
      sl = comps['LiDARSegmentationLabel'][0].range_image_returns
      labelled = [x for x in sl if x is not None]
      ctx.equal(len(labelled), len(d['seg']), 'labelled returns')
      for x, r in zip(labelled, d['seg']):
        same(ctx, x.tensor.numpy(), r, 'segmentation labels')
    pix = fr = None
    kw = {}
    if l.name == 1:
      same(ctx, comps['LiDARPose'][0].range_image_return1.tensor.numpy(), d['pose'], 'pixel poses')
      m = ctx.call(ut.convert_lidar_pose_range_image_to_transformation, comps['LiDARPose'][0].range_image_return1).numpy()
      ctx.close(m, poses(d['pose']), 'pixel transformations', atol=2e-6 * (1 + case['spread']))
      pix, fr = poses(d['pose'])[None], pose[None]
      kw = dict(pixel_pose=comps['LiDARPose'][0].range_image_return1, frame_pose=vehicle[0])
    for k, r in enumerate(d['ri']):
      want = cartesian(r[None, ..., 0].astype(float), d['ext'][None], inclinations(d)[None, ::-1], pix, fr)[0]
      mask = r[..., 0] > 0
      for polar in (False, True):
        if polar:
          kw['keep_polar_features'] = True
        else:
          kw.pop('keep_polar_features', None)
        g = ctx.call(ut.convert_range_image_to_cartesian, returns[k], calibs[l.name], **kw).numpy()
        ctx.equal(g.shape, r.shape[:2] + ((6,) if polar else (3,)), 'shape')
        ctx.close(g[..., -3:], want, 'points of laser %d, return %d' % (l.name, k + 1), **tol)
        if polar:
          same(ctx, g[..., :3], r[..., :3], 'polar features')
        c = ctx.call(ut.convert_range_image_to_point_cloud, returns[k], calibs[l.name], **kw).numpy()
        same(ctx, c, g[mask], 'cloud of laser %d, return %d' % (l.name, k + 1))
      p = ctx.call(ut.extract_pointwise_camera_projection, returns[k], projs[k]).numpy()
      same(ctx, p, d['cp'][k][mask], 'projections of the points')
      if l.name == 1 and k == 0:
        try:
          ut.convert_range_image_to_cartesian(returns[k], calibs[1], pixel_pose=kw['pixel_pose'])
          ctx.fail('pixel poses without a frame pose were accepted')
        except (AssertionError, ValueError):
          pass
  # The v1 code sees the same points.
  if 1 in info:
    v1 = e['fu'].convert_range_image_to_cartesian(f, ris, top, 0)
    for l in f.lasers:
      kw = dict(pixel_pose=one(e['li'].LiDARPoseComponentExtractor()(I.LiDARComponentSrc(f, l)))[0].range_image_return1, frame_pose=vehicle[0]) if l.name == 1 else {}
      img = one(e['li'].LiDARComponentExtractor()(I.LiDARComponentSrc(f, l)))[0].range_image_return1
      ctx.close(ut.convert_range_image_to_cartesian(img, calibs[l.name], **kw).numpy(), v1[l.name].numpy(), 'v1 and v2 points', **tol)
  for name in e['v2l'].LaserName:
    if name.value not in info:
      try:
        ut.get_laser_by_name(f, name)
        ctx.fail('a missing laser was found')
      except ValueError:
        pass
      break
  for nothing in (None, b''):
    ctx.equal(ctx.call(ut.parse_range_image, nothing, e['v2l'].RangeImage), None, 'absent range image')
  bare = e['pb'].Laser(name=2)
  for m, n in ((e['li'], 'LiDAR'), (e['li'], 'LiDARCameraProjection'), (e['li'], 'LiDARPose'), (e['se'], 'LiDARSegmentationLabel')):
    ctx.equal(one(getattr(m, n + 'ComponentExtractor')()(I.LiDARComponentSrc(f, bare))), [], n + ' of a laser without data')
  ctx.equal(f.SerializeToString(), before, 'the frame')
  ctx.nontrivial(len(info) > 1)
  ctx.label('top' if 1 in info else 'no top')


# ------------------------------------------------------------- motion


@st.composite
def motions(draw):
  return dict(seed=draw(tfu.seeds()), h=draw(st.integers(1, 5)), w=draw(st.integers(1, 7)), top=draw(st.booleans()), inc=draw(st.booleans()), spread=draw(st.sampled_from([5.0, 300.0])),
              channels=draw(st.sampled_from([3, 4])), empty=draw(st.sampled_from([0.3, 0.3, 0.9, 1.0])), per=draw(st.booleans()))


def check_motion(case, ctx):
  e = ctx.env
  rng = np.random.RandomState(case['seed'])
  h, w, de = case['h'], case['w'], e['de']
  laser = e['cl'].CompressedLaser(name=1 if case['top'] else int(rng.randint(2, 6)))
  imgs = []
  quant = [0.005, 0.01, 0.01, 1.0][:case['channels']] if case['per'] else 0.01
  for ret in (laser.ri_return1, laser.ri_return2):
    ri = rng.uniform(0.5, 70, (h, w, case['channels']))
    ri[rng.rand(h, w) < case['empty'], 0] = [0.0, -1.0][rng.randint(2)]
    ret.range_image_delta_compressed = de.compress(ri, quant)
    imgs.append((np.round(ri / np.array(quant)) * np.array(quant)))
  pose = tfu.pose(rng, case['spread'])
  pp = np.concatenate([rng.uniform(-0.1, 0.1, (h, w, 2)), rng.uniform(-3.1, 3.1, (h, w, 1)), pose[:3, 3] + rng.uniform(-2, 2, (h, w, 3))], -1)
  pix = fr = None
  if case['top']:
    laser.ri_return1.range_image_pose_delta_compressed = de.compress(pp, 1e-4)
    pp = np.round(pp / 1e-4) * 1e-4
    pix, fr = poses(pp)[None], pose[None]
  d = dict(h=h, inc=np.sort(rng.uniform(-0.6, 0.3, h)) if case['inc'] else None, lim=(rng.uniform(-0.6, -0.1), rng.uniform(0, 0.3)))
  ext = tfu.pose(rng, 2.0, 0.05)
  calib = e['pb'].LaserCalibration(name=laser.name, beam_inclination_min=d['lim'][0], beam_inclination_max=d['lim'][1])
  calib.extrinsic.transform.extend(ext.ravel().tolist())
  if case['inc']:
    calib.beam_inclinations.extend(d['inc'].tolist())
  before = laser.SerializeToString(), calib.SerializeToString()
  if case['top']:
    arg = e['tf'].constant(pose.astype(np.float32)) if rng.rand() < 0.5 else pose
    got = ctx.call(e['womd'].extract_top_lidar_points, laser, arg, calib)
  else:
    got = ctx.call(e['womd'].extract_side_lidar_points, laser, calib)
  ctx.equal((laser.SerializeToString(), calib.SerializeToString()), before, 'the protos')
  ctx.equal(len(got), 4, 'results')
  inc = inclinations(dict(d, lim=(calib.beam_inclination_min, calib.beam_inclination_max)))
  for k, img in enumerate(imgs):
    mask = img[..., 0] > 1e-9
    want = cartesian(img[None, ..., 0], ext[None], inc[None, ::-1], pix, fr)[0][mask]
    xyz, feat = got[2 * k].numpy(), got[2 * k + 1].numpy()
    ctx.equal(xyz.shape, want.shape, 'shape of the points of return %d' % (k + 1))
    ctx.close(xyz, want, 'points of return %d' % (k + 1), atol=4e-6 * (100 + 4 * case['spread']), rtol=0)
    ctx.close(feat, img[..., :3][mask], 'features of return %d' % (k + 1), atol=1e-4, rtol=1e-5)
  ctx.nontrivial(w > 1 and any((i[..., 0] > 0).any() for i in imgs))
  ctx.label('top' if case['top'] else 'side', 'inclinations' if case['inc'] else 'range of inclinations')


@st.composite
def mergers(draw):
  return dict(seed=draw(tfu.seeds()), lasers=draw(st.integers(0, 4)), tokens=draw(st.integers(0, 4)), had=draw(st.integers(0, 2)), book=draw(st.tuples(st.integers(1, 9), st.integers(1, 5))), n=draw(st.integers(1, 8)),
              bad=draw(st.sampled_from([None, None, -1, 'top', 'far'])))


def check_merge(case, ctx):
  e = ctx.env
  rng = np.random.RandomState(case['seed'])
  sc = e['sc']

  def fill(s, lasers, tokens, tag):
    for k in range(lasers):
      s.compressed_frame_laser_data.add().lasers.add(name=1 + k % 5).ri_return1.range_image_delta_compressed = b'%s%d' % (tag, k)
    for k in range(tokens):
      s.frame_camera_tokens.add().camera_tokens.add(camera_name=1 + k % 5, tokens=rng.randint(0, 8192, 3).tolist())
  scenario = sc.Scenario(scenario_id='x%d' % rng.randint(9), timestamps_seconds=[0.0, 0.1], current_time_index=1, sdc_track_index=0)
  scenario.tracks.add(id=7).states.add(center_x=rng.uniform(), valid=True)
  fill(scenario, case['had'], case['had'], b'old')
  extra = sc.Scenario(scenario_id='other')
  fill(extra, case['lasers'], case['tokens'], b'new')
  before = scenario.SerializeToString(), extra.SerializeToString()
  for fn, field in ((e['womd'].augment_womd_scenario_with_lidar_points, 'compressed_frame_laser_data'), (e['cam'].add_camera_tokens_to_scenario, 'frame_camera_tokens')):
    got = ctx.call(fn, scenario, extra)
    want = sc.Scenario()
    want.CopyFrom(scenario)
    getattr(want, field).extend(list(getattr(extra, field)))
    ctx.equal(got, want, fn.__name__)
    got.scenario_id = 'changed'
    for m in getattr(got, field):
      m.Clear()
    ctx.equal((scenario.SerializeToString(), extra.SerializeToString()), before, 'the merged scenarios')
  book = rng.normal(size=case['book']).astype(np.float32)
  tokens = rng.randint(0, case['book'][0], case['n'])
  copy = book.copy()
  if case['bad'] is not None:
    tokens[rng.randint(case['n'])] = {'top': case['book'][0], 'far': 10**6}.get(case['bad'], case['bad'])
    try:
      e['cam'].get_camera_embedding_from_codebook(book, tokens)
      ctx.fail('tokens %s were accepted for %d embeddings' % (tokens.tolist(), case['book'][0]))
    except ValueError:
      return
  got = ctx.call(e['cam'].get_camera_embedding_from_codebook, book, tokens)
  same(ctx, got, np.stack([copy[t] for t in tokens]), 'embeddings')
  got += 1
  ctx.require(np.array_equal(book, copy), 'the codebook changed')
  ctx.nontrivial(case['n'] > 1)


SUBS = [
    Sub('v2', frames, check_v2, 500, rule='more than one laser'),
    Sub('motion', motions, check_motion, 800, rule='several columns with a point'),
    Sub('merge', mergers, check_merge, 400, rule='several tokens'),
]
