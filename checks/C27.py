"""Components extracted from v1 Frame protos."""
from hypothesis import strategies as st

from vlib import v2, wod
from vlib.core import Sub

_S = {}
KTYPES = [0, 1, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20]
fl = st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.floats(allow_nan=False, allow_infinity=False))
f32 = st.floats(-1e6, 1e6, allow_nan=False, width=32)
i32 = st.integers(-2**31, 2**31 - 1)
text = st.text(max_size=6)
ID22 = st.text(alphabet='ABCabc019-_', min_size=22, max_size=22)
CAMERAS = ['UNKNOWN', 'FRONT', 'FRONT_LEFT', 'FRONT_RIGHT', 'SIDE_LEFT', 'SIDE_RIGHT']
tf = st.lists(fl, max_size=16)


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  if not _S:
    for m in ('box', 'camera_image', 'context', 'keypoints', 'pose', 'interfaces'):
      _S[m] = v2.load('perception.compat_v1.' + m)
    for m in ('box', 'camera_image', 'context', 'keypoints', 'base'):
      _S['v2' + m] = v2.load('perception.' + m)
    _S.update(ds=wod.pb('dataset_pb2'), lb=wod.pb('label_pb2'), kp=wod.pb('protos.keypoint_pb2'))
  return dict(env, **_S)


def maybe(draw, s, none=None):
  return draw(s) if draw(st.integers(0, 3)) else none


@st.composite
def head(draw):
  return dict(name=draw(text), t=draw(st.integers(-2**63, 2**63 - 1)))


box3 = st.lists(fl, min_size=7, max_size=7)
box2 = st.lists(fl, min_size=4, max_size=4)


@st.composite
def kps(draw, dims):
  return [dict(t=draw(st.sampled_from(KTYPES)), occ=draw(st.sampled_from([None, False, True])),
               p=draw(st.lists(st.one_of(fl, st.none()), min_size=dims, max_size=dims)),
               also=draw(st.booleans()), drop=draw(st.sampled_from([None] * 12 + ['type', 'kp', 'loc', 'vis'])))
          for _ in range(draw(st.integers(0, 4)))]


@st.composite
def label(draw, lidar):
  cam = draw(st.sampled_from(CAMERAS[1:]))
  oid = draw(ID22)
  return dict(
      id=draw(text) if lidar or draw(st.booleans()) else oid + '_' + cam, oid=oid, cam=cam,
      box=maybe(draw, box3 if lidar else box2), type=draw(st.integers(0, 4)),
      meta=maybe(draw, st.lists(fl, min_size=6, max_size=6)), z=draw(st.tuples(st.booleans(), st.booleans())),
      diff=(maybe(draw, st.integers(0, 2)), maybe(draw, st.integers(0, 2))),
      n=maybe(draw, i32), top=maybe(draw, i32), assoc=maybe(draw, text),
      vis=draw(st.sampled_from(CAMERAS[1:] + ['', None])), synced=maybe(draw, box3),
      kps=maybe(draw, kps(3 if lidar else 2)))


@st.composite
def label_cases(draw):
  lidar = draw(st.booleans())
  return dict(head=draw(head()), lidar=lidar, cam=draw(st.integers(0, 5)), label=draw(label(lidar)))


def set_box(b, v):
  names = ['center_x', 'center_y', 'center_z', 'length', 'width', 'height', 'heading'] if len(v) == 7 else [
      'center_x', 'center_y', 'length', 'width']
  for n, x in zip(names, v):
    setattr(b, n, x)


def vec(v):
  return dict(zip('xyz', v))


def box(v):
  if len(v) == 4:
    return dict(center=vec(v[:2]), size=vec(v[2:]))
  return dict(center=vec(v[:3]), size=vec(v[3:6]), heading=v[6])


def make_label(env, c):
  L = env['lb'].Label()
  l = c['label']
  L.id, L.type = l['id'], l['type']
  if l['box']:
    set_box(L.box, l['box'])
  if l['meta']:
    m = l['meta']
    L.metadata.speed_x, L.metadata.speed_y, L.metadata.accel_x, L.metadata.accel_y = m[:4]
    if l['z'][0]:
      L.metadata.speed_z = m[4]
    if l['z'][1]:
      L.metadata.accel_z = m[5]
  for n, x in zip(('detection_difficulty_level', 'tracking_difficulty_level', 'num_lidar_points_in_box',
                   'num_top_lidar_points_in_box', 'most_visible_camera_name'), (*l['diff'], l['n'], l['top'], l['vis'])):
    if x is not None:
      setattr(L, n, x)
  if l['assoc'] is not None:
    L.association.laser_object_id = l['assoc']
  if l['synced']:
    set_box(L.camera_synced_box, l['synced'])
  if l['kps'] is not None:
    dst = L.laser_keypoints if c['lidar'] else L.camera_keypoints
    dst.SetInParent()
    for k in l['kps']:
      p = dst.keypoint.add()
      if k['drop'] != 'type':
        p.type = k['t']
      if k['drop'] == 'kp':
        continue
      q = p.keypoint_3d if c['lidar'] else p.keypoint_2d
      q.SetInParent()
      if k['drop'] != 'loc':
        q.location_m.SetInParent() if c['lidar'] else q.location_px.SetInParent()
        for n, x in zip('xyz', k['p']):
          if x is not None:
            setattr(q.location_m if c['lidar'] else q.location_px, n, x)
      if k['drop'] != 'vis':
        q.visibility.SetInParent()
        if k['occ'] is not None:
          q.visibility.is_occluded = k['occ']
  return L


def make_frame(env, h):
  fr = env['ds'].Frame(timestamp_micros=h['t'])
  fr.context.name = h['name']
  return fr


def run(ctx, ex, src, want, error=False):
  """The extractor's components, as nested dicts, must equal want."""
  I = ctx.env['interfaces']
  before = repr(src)
  try:
    got = list(ex()(src))
  except I.ExtractionError:
    ctx.require(error, '%s refused complete data', ex.__name__)
    ctx.label('refused')
    return
  ctx.require(not error, '%s accepted incomplete data', ex.__name__)
  ctx.equal(repr(src), before, 'source after extraction')
  ctx.equal([v2.plain(g) for g in got], want, ex.__name__)
  cls = ex.component()
  for g in got:
    ctx.require(type(g) is cls, '%s yields %s, declares %s', ex.__name__, type(g), cls)
    ctx.equal(v2.plain(cls.from_dict(g.to_flatten_dict())), v2.plain(g), 'component read back')
  ctx.require(ex.schema() == cls.schema(), 'schema of %s', ex.__name__)
  ctx.nontrivial(bool(want))
  ctx.label(ex.__name__ + (': none' if not want else ''))


def check_labels(case, ctx):
  e = ctx.env
  I = e['interfaces']
  l = case['label']
  fr = make_frame(e, case['head'])
  L = make_label(e, case)
  key = dict(segment_context_name=case['head']['name'], frame_timestamp_micros=case['head']['t'])
  diff = dict(detection=None, tracking=None)
  if l['diff'] != (None, None):
    diff = dict(detection=l['diff'][0] or 0, tracking=l['diff'][1] or 0)
  kp = l['kps'] or []
  bad = any(k['drop'] for k in kp)
  vis = dict(is_occluded=[bool(k['occ']) for k in kp])
  loc = {n: [(k['p'][i] or 0.0) for k in kp] for i, n in enumerate('xyz' if case['lidar'] else 'xy')}
  types = [k['t'] for k in kp]
  if case['lidar']:
    src = I.LiDARLabelComponentSrc(frame=fr, lidar_label=L)
    key['laser_object_id'] = l['id']
    m = l['meta']
    none = dict(x=None, y=None, z=None)
    run(ctx, e['box'].LiDARBoxComponentExtractor, src, [] if not l['box'] else [dict(
        key=key, box=box(l['box']), type=l['type'], num_lidar_points_in_box=l['n'] or 0,
        num_top_lidar_points_in_box=l['top'] or 0, difficulty_level=diff,
        speed=vec([m[0], m[1], m[4] if l['z'][0] else 0]) if m else none,
        acceleration=vec([m[2], m[3], m[5] if l['z'][1] else 0]) if m else none)])
    run(ctx, e['box'].LiDARCameraSyncedBoxComponentExtractor, src, [] if not l['vis'] or not l['synced'] else [dict(
        key=key, most_visible_camera_name=CAMERAS.index(l['vis']), camera_synced_box=box(l['synced']))])
    run(ctx, e['keypoints'].LiDARHumanKeypointsFrameExtractor, src, [] if l['kps'] is None else [dict(
        key=key, lidar_keypoints=dict(type=types, keypoint_3d=dict(location_m=loc, visibility=vis)))], bad)
    return
  cl = e['ds'].CameraLabels(name=case['cam'])
  cl.labels.append(L)
  src = I.CameraLabelComponentSrc(frame=fr, camera_labels=cl, label=L)
  key.update(camera_name=case['cam'], camera_object_id=l['id'])
  run(ctx, e['box'].CameraBoxComponentExtractor, src, [] if not l['box'] else [dict(
      key=key, box=box(l['box']), type=l['type'], difficulty_level=diff)])
  run(ctx, e['box'].CameraToLiDARBoxAssociationComponentExtractor, src, [] if l['assoc'] is None else [dict(
      key=dict(key, laser_object_id=l['assoc']))])
  k3 = dict(location_m=dict(x=None, y=None, z=None), visibility=dict(is_occluded=None))
  run(ctx, e['keypoints'].CameraHumanKeypointsFrameExtractor, src, [] if l['kps'] is None else [dict(
      key=key, camera_keypoints=dict(type=types, keypoint_2d=dict(location_px=loc, visibility=vis), keypoint_3d=k3))], bad)
  if l['id'] == l['oid'] + '_' + l['cam']:
    pk = dict(segment_context_name=case['head']['name'], frame_timestamp_micros=case['head']['t'],
              laser_object_id=l['oid'], camera_name=CAMERAS.index(l['cam']))
    run(ctx, e['box'].ProjectedLiDARBoxComponentExtractor, src, [] if not l['box'] else [dict(
        key=pk, box=box(l['box']), type=l['type'])])


@st.composite
def frame_cases(draw):
  return dict(
      head=draw(head()), pose=draw(tf), stats=draw(st.tuples(text, text, text)),
      lo=draw(st.lists(st.tuples(st.integers(0, 4), i32), max_size=3)),
      co=draw(st.lists(st.tuples(st.integers(0, 4), i32), max_size=3)),
      img=dict(name=draw(st.integers(0, 8)), image=draw(st.binary(max_size=5)), pose=draw(tf),
               v=draw(st.lists(f32, min_size=3, max_size=3)), w=draw(st.lists(fl, min_size=3, max_size=3)),
               t=draw(st.lists(fl, min_size=4, max_size=4))),
      cam=dict(name=draw(st.integers(0, 8)), k=draw(st.lists(fl, min_size=9, max_size=9)), ex=draw(tf), w=draw(i32),
               h=draw(i32), d=draw(st.integers(0, 5))),
      laser=dict(name=draw(st.integers(0, 5)), ex=draw(tf), lim=draw(st.lists(fl, min_size=2, max_size=2)),
                 inc=draw(st.lists(fl, max_size=4))))


def check_frames(case, ctx):
  e = ctx.env
  I, ds = e['interfaces'], e['ds']
  fr = make_frame(e, case['head'])
  fr.pose.transform.extend(case['pose'])
  s = fr.context.stats
  s.time_of_day, s.location, s.weather = case['stats']
  for a, dst in ((case['lo'], s.laser_object_counts), (case['co'], s.camera_object_counts)):
    for t, n in a:
      dst.add(type=t, count=n)
  name = dict(segment_context_name=case['head']['name'])
  key = dict(name, frame_timestamp_micros=case['head']['t'])
  src = I.FrameComponentSrc(frame=fr)
  run(ctx, e['pose'].VehiclePoseFrameExtractor, src, [dict(key=key, world_from_vehicle=dict(transform=case['pose']))])
  counts = lambda a: dict(types=[t for t, _ in a], counts=[n for _, n in a]) if a else dict(types=None, counts=None)
  run(ctx, e['context'].StatsComponentExtractor, src, [dict(
      key=key, time_of_day=case['stats'][0], location=case['stats'][1], weather=case['stats'][2],
      lidar_object_counts=counts(case['lo']), camera_object_counts=counts(case['co']))])
  m = case['img']
  im = ds.CameraImage(name=m['name'], image=m['image'], pose_timestamp=m['t'][0], shutter=m['t'][1],
                      camera_trigger_time=m['t'][2], camera_readout_done_time=m['t'][3])
  im.pose.transform.extend(m['pose'])
  im.velocity.v_x, im.velocity.v_y, im.velocity.v_z = m['v']
  im.velocity.w_x, im.velocity.w_y, im.velocity.w_z = m['w']
  run(ctx, e['camera_image'].CameraImageComponentExtractor, I.CameraImageComponentSrc(frame=fr, camera_image=im), [dict(
      key=dict(key, camera_name=m['name']), image=m['image'], pose=dict(transform=m['pose']), pose_timestamp=m['t'][0],
      velocity=dict(linear_velocity=vec(m['v']), angular_velocity=vec(m['w'])),
      rolling_shutter_params=dict(shutter=m['t'][1], camera_trigger_time=m['t'][2], camera_readout_done_time=m['t'][3]))])
  m = case['cam']
  cc = ds.CameraCalibration(name=m['name'], intrinsic=m['k'], width=m['w'], height=m['h'], rolling_shutter_direction=m['d'])
  cc.extrinsic.transform.extend(m['ex'])
  run(ctx, e['context'].CameraCalibrationComponentExtractor,
      I.CameraCalibrationComponentSrc(frame=fr, camera_calibration=cc), [dict(
          key=dict(name, camera_name=m['name']), extrinsic=dict(transform=m['ex']), width=m['w'], height=m['h'],
          intrinsic=dict(zip('f_u f_v c_u c_v k1 k2 p1 p2 k3'.split(), m['k'])), rolling_shutter_direction=m['d'])])
  m = case['laser']
  lc = ds.LaserCalibration(name=m['name'], beam_inclination_min=m['lim'][0], beam_inclination_max=m['lim'][1],
                           beam_inclinations=m['inc'])
  lc.extrinsic.transform.extend(m['ex'])
  run(ctx, e['context'].LiDARCalibrationComponentExtractor,
      I.LiDARCalibrationComponentSrc(frame=fr, lidar_calibration=lc), [dict(
          key=dict(name, laser_name=m['name']), extrinsic=dict(transform=m['ex']),
          beam_inclination=dict(min=m['lim'][0], max=m['lim'][1], values=m['inc'] or None))])


def check_enums(case, ctx):
  """Enumerations of both formats agree wherever both have a name or value."""
  e = ctx.env
  pairs = [(e['v2box'].BoxType, e['lb'].Label.Type), (e['v2box'].DifficultyLevelType, e['lb'].Label.DifficultyLevel),
           (e['v2camera_image'].CameraName, e['ds'].CameraName.Name),
           (e['v2context'].RollingShutterReadOutDirection, e['ds'].CameraCalibration.RollingShutterReadOutDirection),
           (e['v2keypoints'].KeypointType, e['kp'].KeypointType)]
  a, b = pairs[case['pair']]
  v1 = dict(b.items())
  n = 0
  for m in a:
    short = [k for k in v1 if k == m.name or k.endswith('_' + m.name) and v1[k] == m.value]
    if m.value in v1.values() or m.name in v1:
      ctx.require(any(v1[k] == m.value for k in short), '%s.%s = %d, v1 has %s', a.__name__, m.name, m.value,
                  [k for k in v1 if v1[k] == m.value])
      n += 1
  ctx.nontrivial(n > 2)


def enum_cases():
  return st.fixed_dictionaries(dict(pair=st.integers(0, 4)))


SUBS = [
    Sub('labels', label_cases, check_labels, 12000, rule='a component was extracted'),
    Sub('frames', frame_cases, check_frames, 4000, rule='a component was extracted'),
    Sub('enumerations', enum_cases, check_enums, 40, thorough=40, rule='three or more shared values'),
]
