"""Keypoints: tensors, similarity and error metrics, matching of objects."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Known, Sub


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset import dataset_pb2, label_pb2
  from waymo_open_dataset.metrics.python import keypoint_metrics
  from waymo_open_dataset.protos import box_pb2, keypoint_pb2, metrics_pb2
  from waymo_open_dataset.utils import keypoint_data
  return dict(tf=tf, kp=keypoint_pb2, lb=label_pb2, ds=dataset_pb2, bx=box_pb2, mt=metrics_pb2, da=keypoint_data, me=keypoint_metrics)


# ------------------------------------------------------------- helpers


def boxes_np(rng, n, dims, far, heading=True):
  c = np.c_[rng.uniform(-far, far, (n, dims))]
  size = rng.uniform(0.3, 4, (n, dims))
  h = rng.uniform(-math.pi, math.pi, n) if heading and dims == 3 else None
  return c.astype(np.float32), size.astype(np.float32), None if h is None else h.astype(np.float32)


def to_box(ctx, c, s, h):
  tf = ctx.env['tf']
  return ctx.env['da'].BoundingBoxTensors(center=tf.constant(c), size=tf.constant(s), heading=None if h is None else tf.constant(h))


def to_kp(ctx, loc, vis):
  tf = ctx.env['tf']
  return ctx.env['da'].KeypointsTensors(location=tf.constant(loc), visibility=tf.constant(vis))


def convention(ctx):
  """+1: boxes are turned counter-clockwise by the heading, -1: clockwise."""
  sign = ctx.env.get('sign')
  if sign is None:
    # 10 x 1 box turned by 45 degrees; a point on the diagonal x = y.
    box = to_box(ctx, np.zeros((1, 3), np.float32), np.array([[10, 1, 1]], np.float32), np.array([math.pi / 4], np.float32))
    d = ctx.env['me'].box_displacement(ctx.env['tf'].constant(np.array([[[2, 2, 0]]], np.float32)), box).numpy()
    sign = ctx.env['sign'] = 1 if np.abs(d).max() < 1e-3 else -1
  return sign


def local(ctx, p, c, h):
  """Points [n, ..., d] in the frames of n boxes (float64)."""
  p, c = np.asarray(p, float), np.asarray(c, float)
  c = c.reshape(c.shape[:1] + (1,) * (p.ndim - 2) + c.shape[-1:])
  q = p - c
  if h is None:
    return q
  a = convention(ctx) * np.asarray(h, float).reshape((-1,) + (1,) * (p.ndim - 2))
  out = q.copy()
  out[..., 0] = np.cos(a) * q[..., 0] + np.sin(a) * q[..., 1]
  out[..., 1] = -np.sin(a) * q[..., 0] + np.cos(a) * q[..., 1]
  return out


def outside(ctx, p, c, s, h):
  """Distance of points to the boxes."""
  q = local(ctx, p, c, h)
  half = np.asarray(s, float) / 2
  half = half.reshape(half.shape[:1] + (1,) * (q.ndim - 2) + half.shape[-1:])
  return np.linalg.norm(np.maximum(np.abs(q) - half, 0), axis=-1)


# ------------------------------------------------------------- boxes and points


@st.composite
def displaced(draw):
  return dict(seed=draw(tfu.seeds()), n=draw(st.integers(1, 4)), m=draw(st.integers(1, 5)), k=draw(st.integers(1, 4)), dims=draw(st.sampled_from([2, 3])),
              heading=draw(st.booleans()), far=draw(st.sampled_from([0.0, 3.0, 20.0])))


def check_displacement(case, ctx):
  tf, me = ctx.env['tf'], ctx.env['me']
  rng = np.random.RandomState(case['seed'])
  n, dims = case['n'], case['dims']
  c, s, h = boxes_np(rng, n, dims, case['far'], case['heading'])
  p = (c[:, None] + rng.uniform(-3, 3, (n, case['m'], dims)) * rng.choice([0.3, 1], (n, case['m'], 1))).astype(np.float32)
  box = to_box(ctx, c, s, h)
  d = ctx.call(me.box_displacement, tf.constant(p), box).numpy().astype(float)
  ctx.equal(d.shape, p.shape, 'shape of the displacement')
  want = outside(ctx, p, c, s, h)
  ctx.close(np.linalg.norm(d, axis=-1), want, 'length of the displacement', atol=2e-5 + 2e-6 * case['far'])
  q = local(ctx, p + d, c, h)
  ctx.require(np.all(np.abs(q) <= s[:, None].astype(float) / 2 + 1e-4), 'a displaced point is not inside its box')
  ctx.close(box.scale.numpy(), np.prod(s.astype(float), -1)**(1 / dims), 'scale of the box', rtol=1e-5)
  ctx.close(box.min_corner.numpy(), c.astype(float) - s / 2, 'smallest corner', atol=1e-5)
  ctx.close(box.max_corner.numpy(), c.astype(float) + s / 2, 'largest corner', atol=1e-5)
  ctx.equal((box.dims, box.has_batch_dimension), (dims, True), 'dimensions of the box')
  one = to_box(ctx, c[0], s[0], None if h is None else h[0])
  ctx.close(ctx.call(me.box_displacement, tf.constant(p[0]), one).numpy(), d[0], 'displacement without a batch dimension', atol=1e-5)
  ctx.equal(one.has_batch_dimension, False, 'batch dimension of one box')
  ctx.label('%dD' % dims, 'turned' if h is not None else 'straight')
  if dims == 3:
    m, k = case['m'], case['k']
    loc = (c[rng.randint(n, size=m)][:, None] + rng.uniform(-4, 4, (m, k, 3))).astype(np.float32)
    vis = rng.randint(0, 3, (m, k)).astype(np.int32)
    kp = to_kp(ctx, loc, vis)
    got = ctx.call(me.keypoint_distance, box, kp).numpy()
    ctx.equal(got.shape, (n, m, k), 'shape of keypoint distances')
    w = outside(ctx, np.broadcast_to(loc, (n, m, k, 3)), c, s, h)
    w[:, vis < 2] = np.inf
    ctx.close(got, w, 'keypoint distance', atol=3e-5 + 3e-6 * case['far'])
    ctx.close(ctx.call(me.closest_keypoint_distance, box, kp).numpy(), w.min(-1), 'closest keypoint', atol=3e-5 + 3e-6 * case['far'])
  ctx.nontrivial(bool((want > 0.01).any() or h is not None))


@st.composite
def turned(draw):
  return dict(heading=draw(st.floats(-3, 3)), x=draw(st.floats(-20, 20)), y=draw(st.floats(-20, 20)))


def check_convention(case, ctx):
  """A point in front of the box as everywhere else in the dataset."""
  h = case['heading']
  if abs(math.sin(h)) < 0.2 or abs(math.cos(h)) < 0.2:
    return
  c = np.array([[case['x'], case['y'], 0]], np.float32)
  box = to_box(ctx, c, np.array([[8, 1, 1]], np.float32), np.array([h], np.float32))
  p = c[:, None] + np.array([3 * math.cos(h), 3 * math.sin(h), 0], np.float32)
  d = ctx.call(ctx.env['me'].box_displacement, ctx.env['tf'].constant(p.astype(np.float32)), box).numpy()
  ctx.nontrivial()
  if np.abs(d).max() < 1e-3:
    return
  ctx.close(np.linalg.norm(d), np.linalg.norm(np.maximum(np.abs([3 * math.cos(2 * h), 3 * math.sin(2 * h)]) - [4, 0.5], 0)),
            'distance of a point in the box (neither turned counter-clockwise nor clockwise)', atol=1e-3)
  raise Known('C35-clockwise-heading', 'box_displacement turns boxes clockwise by their heading: the point 3 m in front of the center of an 8 m long box with heading %.2f is outside' % h)


# ------------------------------------------------------------- metrics


KINDS = ('oks', 'mpjpe', 'pem', 'precision', 'recall', 'pck')


@st.composite
def pairs(draw):
  return dict(seed=draw(tfu.seeds()), n=draw(st.integers(1, 5)), k=draw(st.integers(1, 5)), dims=draw(st.sampled_from([2, 3])),
              batches=draw(st.integers(1, 3)), weights=draw(st.sampled_from([None, None, 'points', 'zeros'])), reset=draw(st.booleans()),
              same=draw(st.booleans()), spread=draw(st.sampled_from([0.05, 0.3, 2.0, 20.0])), blank=draw(st.sampled_from([0.0, 0.4])),
              empty_boxes=draw(st.booleans()), object_scale=draw(st.booleans()), type_scale=draw(st.booleans()))


def make_pair(case, rng):
  n, k, dims = case['n'] if case['same'] else rng.randint(1, case['n'] + 1), case['k'], case['dims']
  c, s, _ = boxes_np(rng, n, dims, 10.0, False)
  if case['empty_boxes']:
    z = rng.rand(n) < 0.5
    c[z], s[z] = 0, 0
  gt = (c[:, None] + rng.uniform(-0.6, 0.6, (n, k, dims)) * s[:, None]).astype(np.float32)
  pr = (gt + rng.normal(size=(n, k, dims)) * case['spread'] * rng.choice([0, 1, 1, 1], (n, k, 1))).astype(np.float32)
  gv = rng.randint(0, 3, (n, k)).astype(np.int32)
  gv[rng.rand(n) < case['blank']] = 0
  pv = rng.randint(0, 3, (n, k)).astype(np.int32)
  w = None
  if case['weights']:
    w = rng.randint(0, 5, (n, k)).astype(np.float32) / 2
    if case['weights'] == 'zeros':
      w[rng.rand(n) < 0.7] = 0
  return dict(gt=gt, pr=pr, gv=gv, pv=pv, c=c, s=s, w=w)


def similarity(ctx, b, scales):
  g, p = b['gt'].astype(float), b['pr'].astype(float)
  size = np.prod(b['s'].astype(float), -1)**(1 / g.shape[-1])
  sc = np.float32(scales).astype(float)[None] * size[:, None]
  def score(d2):
    with np.errstate(all='ignore'):
      return np.exp(np.where(sc > 0, -d2 / (2 * sc**2), 0))
  near = score(((g - p)**2).sum(-1))
  far = score(outside(ctx, p, b['c'], 3 * b['s'], None)**2)
  w = ((b['gv'] > 0) & (b['pv'] > 0)).astype(float)
  if b['w'] is not None:
    w = w * b['w']
  with np.errstate(all='ignore'):
    gt = np.where(w.sum(-1) > 0, (near * w).sum(-1) / w.sum(-1), 0)
  return np.where((b['gv'] > 0).any(-1), gt, far.mean(-1))


def scales_of(case):
  rng = np.random.RandomState(case['seed'] ^ 5)
  return [float(np.float32(x)) for x in rng.uniform(0.05, 1, case['k'])]


def ratio(num, den):
  return num / den if den else 0.0


class Model:
  """What a metric reports after a history of batches; None: undecided."""

  def __init__(self, ctx, kind, case, opts):
    self.ctx, self.kind, self.case, self.o = ctx, kind, case, opts
    self.reset()

  def reset(self):
    self.b = []

  def add(self, b):
    self.b.append(b)

  def result(self, name):
    o, k = self.o, self.kind
    tot, den = {}, {}
    vague = set()

    def put(key, v, w):
      tot[key] = tot.get(key, 0) + float((v * w).sum())
      den[key] = den.get(key, 0) + float(np.sum(w * np.ones_like(v)))
    aps, loads = [], []
    for b in self.b:
      err = np.linalg.norm(b['gt'].astype(float) - b['pr'].astype(float), axis=-1)
      both = ((b['gv'] > 0) & (b['pv'] > 0)).astype(float)
      w = np.ones_like(both) if b['w'] is None else b['w'].astype(float)
      if k == 'mpjpe':
        put(name, err, both * w)
      elif k == 'pem':
        g, p = b['gv'] == 2, b['pv'] == 2
        pen = o['penalty']
        put(name, np.where(g & p, np.minimum(err, pen), pen), (g | p) * w)
      elif k in ('precision', 'recall'):
        g, p = b['gv'] == 2, b['pv'] == 2
        put(name, (g & p).astype(float), (p if k == 'precision' else g) * w)
      elif k == 'pck':
        for t in o['thresholds']:
          lim = np.full(err.shape, t)
          if o['object_scale']:
            lim = lim * (np.prod(b['s'].astype(float), -1)**(1 / b['s'].shape[-1]))[:, None]
          if o['scales']:
            lim = lim * np.array(o['scales'])[None]
          key = '%s @ %.2f' % (name, t)
          put(key, (err <= lim).astype(float), both * w)
          if (np.abs(err - lim)[both > 0] < 1e-4 * (1 + lim[both > 0])).any() or ((err == 0) & (lim == 0)).any():
            vague.add(key)
      elif k == 'oks':
        s = similarity(self.ctx, b, o['scales'])
        ok = (b['s'] > 1e-5).any(-1)
        s = np.where(ok, s, 0)
        ow = ok.astype(float)
        if b['w'] is not None:
          ow = ow * ratio(b['w'].astype(float).sum(-1), b['w'].astype(float).sum())
        ps = []
        for t in o['thresholds']:
          key = '%s P @ %.2f' % (name, t)
          m = (s > t).astype(float)
          put(key, m, ow)
          ps.append(ratio((m * ow).sum(), ow.sum()))
          if (np.abs(s - t)[ow > 0] < 1e-4).any():
            vague |= {key, name + ' AP'}
        aps.append(np.mean(ps))
        loads.append(round(float(ow.sum()), 6))
    out = {n: None if n in vague else ratio(tot[n], den[n]) for n in tot}
    if k == 'oks' and aps:
      # Over several batches of different weight the two readings (mean of the
      # precisions; mean over batches) differ.
      out[name + ' AP'] = None if name + ' AP' in vague or len(set(loads)) > 1 else float(np.mean(aps))
    return out


def options(case, kind):
  rng = np.random.RandomState(case['seed'] ^ 77)
  th = sorted(set(np.round(rng.uniform(0.05, 0.95, rng.randint(1, 5)), 2).tolist()))
  return dict(penalty=float(np.float32(rng.choice([0.25, 1.0, 3.0]))), thresholds=th,
              scales=scales_of(case) if kind == 'oks' or case['type_scale'] else None, object_scale=case['object_scale'])


def build(ctx, kind, o, name):
  me = ctx.env['me']
  if kind == 'oks':
    return me.AveragePrecisionAtOKS(per_type_scales=o['scales'], thresholds=o['thresholds'], name=name)
  if kind == 'mpjpe':
    return me.MeanPerJointPositionError(name=name)
  if kind == 'pem':
    return me.PoseEstimationMetric(mismatch_penalty=o['penalty'], name=name)
  if kind == 'precision':
    return me.KeypointVisibilityPrecision(name=name)
  if kind == 'recall':
    return me.KeypointVisibilityRecall(name=name)
  return me.PercentageOfCorrectKeypoints(thresholds=o['thresholds'], per_type_scales=o['scales'], use_object_scale=o['object_scale'], name=name)


def feed(ctx, metric, b):
  inputs = (to_kp(ctx, b['gt'], b['gv']), to_kp(ctx, b['pr'], b['pv']), to_box(ctx, b['c'], b['s'], None))
  w = None if b['w'] is None else ctx.env['tf'].constant(b['w'])
  return ctx.call(metric.update_state, inputs, sample_weight=w)


def judge(ctx, got, want, what):
  ctx.equal(sorted(got), sorted(want), what + ': names')
  n = 0
  for k, v in want.items():
    if v is None:
      ctx.label('undecided value')
      continue
    n += 0 < v
    ctx.close(float(got[k].numpy()), v, '%s: %s' % (what, k), atol=2e-4, rtol=2e-4)
  return n


def check_metrics(case, ctx):
  rng = np.random.RandomState(case['seed'])
  metrics, models = {}, {}
  for kind in KINDS:
    o = options(case, kind)
    metrics[kind] = ctx.call(build, ctx, kind, o, 'm/' + kind)
    models[kind] = Model(ctx, kind, case, o)
  first = make_pair(case, rng)
  # The similarity itself.
  sc = scales_of(case)
  b = first
  w = None if b['w'] is None else ctx.env['tf'].constant(b['w'])
  got = ctx.call(ctx.env['me'].object_keypoint_similarity, to_kp(ctx, b['gt'], b['gv']), to_kp(ctx, b['pr'], b['pv']), to_box(ctx, b['c'], b['s'], None), sc, sample_weight=w).numpy()
  ctx.close(got, similarity(ctx, b, sc), 'object keypoint similarity', atol=3e-4, rtol=3e-4)
  if b['w'] is None:
    one = ctx.call(ctx.env['me'].object_keypoint_similarity, to_kp(ctx, b['gt'][0], b['gv'][0]), to_kp(ctx, b['pr'][0], b['pv'][0]), to_box(ctx, b['c'][0], b['s'][0], None), sc).numpy()
    ctx.close(one, got[0], 'similarity without a batch dimension', atol=1e-5)
  if not (b['gv'] > 0).any(-1).all():
    ctx.label('surrogate similarity')
  seen = 0
  for i in range(case['batches']):
    b = first if i == 0 else make_pair(case, rng)
    for kind in KINDS:
      feed(ctx, metrics[kind], b)
      models[kind].add(b)
  for kind in KINDS:
    seen += judge(ctx, ctx.call(metrics[kind].result), models[kind].result('m/' + kind), kind)
  if case['reset']:
    b = make_pair(case, rng)
    for kind in KINDS:
      ctx.call(metrics[kind].reset_state)
      models[kind].reset()
      feed(ctx, metrics[kind], b)
      models[kind].add(b)
      judge(ctx, ctx.call(metrics[kind].result), models[kind].result('m/' + kind), kind + ' after a reset')
  ctx.nontrivial(seen > 3)


# ------------------------------------------------------------- combined metrics


@st.composite
def combined(draw):
  return dict(seed=draw(tfu.seeds()), order=draw(st.sampled_from(['CAMERA', 'LASER', 'ALL', 'own'])), n=draw(st.integers(1, 4)), batches=draw(st.integers(1, 2)),
              dims=draw(st.sampled_from([2, 3])), spread=draw(st.sampled_from([0.05, 0.3, 2.0])), same=True, blank=0.2, weights=None, empty_boxes=False,
              bad=draw(st.sampled_from([None, None, 'scale', 'subset'])))


def check_combined(case, ctx):
  me, da, T = ctx.env['me'], ctx.env['da'], ctx.env['kp'].KeypointType
  rng = np.random.RandomState(case['seed'])
  if case['order'] == 'own':
    types = [v for v in T.values() if v]
    src = [int(x) for x in rng.permutation(types)[:rng.randint(2, 8)]]
    subsets = {'S%d' % i: tuple(int(x) for x in rng.permutation(src)[:rng.randint(1, len(src) + 1)]) for i in range(rng.randint(1, 4))}
    scales = {t: float(np.float32(rng.uniform(0.1, 1))) for t in src}
    th = dict(oks_thresholds=(0.3, 0.7), pck_thresholds=(0.1, 0.4, 0.9))
    args = dict(src_order=src, subsets=subsets, per_type_scales=scales, **th)
    if case['bad'] == 'scale':
      del scales[src[rng.randint(len(src))]]
    elif case['bad'] == 'subset':
      subsets['bad'] = (src[0], next(t for t in types if t not in src)) if len(src) < len(types) else (99,)
    if case['bad']:
      try:
        me.CombinedMetricsConfig(**args)
      except ValueError:
        ctx.nontrivial()
        return
      ctx.fail('a configuration with a keypoint type without scale is accepted')
    cfg = ctx.call(me.CombinedMetricsConfig, **args)
  else:
    cfg = getattr(me, 'DEFAULT_CONFIG_' + case['order'])
    src, subsets, scales = list(cfg.src_order), dict(cfg.subsets), dict(cfg.per_type_scales)
    canonical(ctx, case['order'], src, subsets, scales, cfg)
  metric = ctx.call(me.create_combined_metric, cfg)
  models = {}
  for name, sub in subsets.items():
    sc = [scales[t] for t in sub]
    c = dict(case, k=len(sub))
    models['MPJPE/' + name] = sub, Model(ctx, 'mpjpe', c, {})
    models['OKS/' + name] = sub, Model(ctx, 'oks', c, dict(scales=sc, thresholds=cfg.oks_thresholds))
    models['PCK/' + name] = sub, Model(ctx, 'pck', c, dict(scales=sc, thresholds=cfg.pck_thresholds, object_scale=True))
  for _ in range(case['batches']):
    b = make_pair(dict(case, k=len(src)), rng)
    feed(ctx, metric, b)
    for sub, m in models.values():
      ix = [src.index(t) for t in sub]
      m.add(dict(b, **{f: b[f][:, ix] for f in ('gt', 'pr', 'gv', 'pv')}))
  want = {}
  for name, (_, m) in models.items():
    want.update(m.result(name))
  judge(ctx, ctx.call(metric.result), want, 'combined metrics')
  ctx.nontrivial()


def canonical(ctx, kind, src, subsets, scales, cfg):
  """The documented groups: every keypoint of the modality, left and right."""
  T = ctx.env['kp'].KeypointType
  v = lambda *n: {T.Value('KEYPOINT_TYPE_' + x) for x in n}
  pair = lambda x: v('LEFT_' + x, 'RIGHT_' + x)
  heads = dict(CAMERA=v('FOREHEAD'), LASER=v('HEAD_CENTER'), ALL=v('FOREHEAD', 'HEAD_CENTER'))[kind]
  want = {x + 'S': pair(x) for x in ('SHOULDER', 'ELBOW', 'WRIST', 'HIP', 'KNEE', 'ANKLE')}
  want['HEAD'] = v('NOSE') | heads
  want['ALL'] = set().union(*want.values())
  ctx.equal({k: set(s) for k, s in subsets.items()}, want, 'canonical groups of keypoints')
  ctx.equal((set(src), len(src)), (want['ALL'], len(want['ALL'])), 'canonical order of keypoints')
  for a in ('SHOULDER', 'ELBOW', 'WRIST', 'HIP', 'KNEE', 'ANKLE'):
    ctx.equal(len({scales[t] for t in pair(a)}), 1, 'scales of the left and right ' + a)


# ------------------------------------------------------------- tensors from protos


@st.composite
def framed(draw):
  return dict(seed=draw(tfu.seeds()), n=draw(st.integers(0, 4)), cams=draw(st.integers(0, 3)), order=draw(st.sampled_from(['CAMERA', 'LASER', 'ALL', 'own'])),
              dtype=draw(st.sampled_from(['float32', 'float64'])), double=draw(st.booleans()))


def rand_box(ctx, rng, laser=True):
  b = ctx.env['lb'].Label.Box()
  for f in ('center_x', 'center_y', 'length', 'width') + (('center_z', 'height', 'heading') if laser else ()):
    setattr(b, f, float(rng.uniform(-3, 3)) if 'center' in f or f == 'heading' else float(rng.uniform(0.1, 4)))
  return b


def rand_points(ctx, rng, laser):
  kp = ctx.env['kp']
  types = [v for v in kp.KeypointType.values() if v]
  out = []
  for t in rng.permutation(types)[:rng.randint(0, len(types) + 1)]:
    xyz = rng.uniform(-5, 5, 3)
    occ = [None, True, False][rng.randint(3)]
    k = (kp.LaserKeypoint if laser else kp.CameraKeypoint)(type=int(t))
    q = k.keypoint_3d if laser else k.keypoint_2d
    loc = q.location_m if laser else q.location_px
    loc.x, loc.y = xyz[:2]
    if laser:
      loc.z = xyz[2]
    if occ is not None:
      q.visibility.is_occluded = occ
    if not laser and rng.rand() < 0.3:
      k.keypoint_3d.location_m.x = 77
      k.keypoint_3d.visibility.is_occluded = not occ
    out.append((int(t), xyz[:3 if laser else 2], bool(occ), k))
  return out


def kp_oracle(points, order, default):
  by = {t: (xyz, occ) for t, xyz, occ, _ in points}
  return ([list(by[t][0]) if t in by else list(default) for t in order], [0 if t not in by else 1 if by[t][1] else 2 for t in order])


def check_data(case, ctx):
  tf, da, kp, lb, ds = (ctx.env[k] for k in ('tf', 'da', 'kp', 'lb', 'ds'))
  rng = np.random.RandomState(case['seed'])
  dt = getattr(tf, case['dtype'])
  tol = 1e-6 if case['dtype'] == 'float32' else 1e-12
  types = [v for v in kp.KeypointType.values() if v]
  order = list(getattr(da, 'CANONICAL_ORDER_' + case['order'])) if case['order'] != 'own' else [int(x) for x in rng.permutation(types)[:rng.randint(1, 9)]]

  def judge_kp(t, points, default, what):
    loc, vis = kp_oracle(points, order, default)
    ctx.close(t.location.numpy(), loc, what + ': locations', atol=tol, rtol=tol)
    ctx.equal(t.location.dtype, dt, what + ': type')
    ctx.equal(t.visibility.numpy().tolist(), vis, what + ': visibility')
    ctx.equal(bool(t.has_visible.numpy()), 2 in vis, what + ': has_visible')
    ctx.equal(t.mask.numpy().tolist(), [float(v > 0) for v in vis], what + ': mask')
    ctx.equal(t.is_fully_visible.numpy().tolist(), [v == 2 for v in vis], what + ': is_fully_visible')
    ctx.equal((t.dims, t.has_batch_dimension), (len(default), False), what + ': dimensions')

  frame = ds.Frame()
  lasers, cams = [], {}
  for i in range(case['n']):
    pts = rand_points(ctx, rng, True)
    l = frame.laser_labels.add(id='o%d' % i, type=int(rng.randint(0, 5)), box=rand_box(ctx, rng))
    if rng.rand() < 0.7:
      l.laser_keypoints.keypoint.extend([p[3] for p in pts])
    else:
      pts = []
    lasers.append((l, pts))
    d = np.float64(rng.uniform(-9, 9, 3))
    judge_kp(ctx.call(da.create_laser_keypoints_tensors, l.laser_keypoints.keypoint, d, order, dtype=dt), pts, d, 'laser keypoints')
    b = ctx.call(da.create_laser_box_tensors, l.box, dtype=dt)
    x = l.box
    ctx.close(b.center.numpy(), [x.center_x, x.center_y, x.center_z], 'center of a laser box', atol=tol, rtol=tol)
    ctx.close(b.size.numpy(), [x.length, x.width, x.height], 'size of a laser box', atol=tol, rtol=tol)
    ctx.close(b.heading.numpy(), x.heading, 'heading of a laser box', atol=tol, rtol=tol)
  for name in rng.permutation([1, 2, 3, 4, 5])[:case['cams']]:
    cl = frame.camera_labels.add(name=int(name))
    for j in rng.permutation(case['n'] + 2):
      if rng.rand() < 0.3:
        continue
      pts = rand_points(ctx, rng, False)
      l = cl.labels.add(id='c%d' % j, box=rand_box(ctx, rng, False))
      l.camera_keypoints.keypoint.extend([p[3] for p in pts])
      if j < case['n']:
        l.association.laser_object_id = 'o%d' % j
        cams.setdefault('o%d' % j, {})[int(name)] = l
      elif j == case['n']:
        l.association.laser_object_id = 'unknown'
      d = rng.uniform(-9, 9, 2)
      judge_kp(ctx.call(da.create_camera_keypoints_tensors, l.camera_keypoints.keypoint, d, order, dtype=dt), pts, d, 'camera keypoints')
      b = ctx.call(da.create_camera_box_tensors, l.box, dtype=dt)
      ctx.close(np.concatenate([b.center.numpy(), b.size.numpy()]), [l.box.center_x, l.box.center_y, l.box.length, l.box.width], 'camera box', atol=tol, rtol=tol)
      ctx.require(b.heading is None, 'heading of a camera box')
  got = ctx.call(da.group_object_labels, frame)
  ctx.equal(list(got), [l.id for l, _ in lasers], 'objects of the frame')
  for l, pts in lasers:
    o = got[l.id]
    ctx.require(o.laser.box == l.box and o.laser.object_type == l.type and o.object_type == l.type and o.laser.keypoints == l.laser_keypoints, 'laser label of %s', l.id)
    w = cams.get(l.id, {})
    g = o.camera or {}
    ctx.equal(sorted(g), sorted(w), 'cameras of ' + l.id)
    for k in w:
      ctx.require(g[k].box == w[k].box and g[k].keypoints == w[k].camera_keypoints, 'camera label of %s in camera %d', l.id, k)
  judge_poses(case, ctx, rng, lasers, order, dt, tol)
  b3 = ctx.env['bx'].Box3d(heading=float(rng.uniform(-3, 3)))
  for m in (b3.center, b3.size):
    m.x, m.y, m.z = rng.uniform(0.5, 5, 3)
  g = ctx.call(da.label_box_from_box_proto, b3)
  ctx.close([g.center_x, g.center_y, g.center_z, g.length, g.width, g.height, g.heading], [b3.center.x, b3.center.y, b3.center.z, b3.size.x, b3.size.y, b3.size.z, b3.heading],
            'label box of a Box3d (length: dimension x, width: dimension y)')
  ctx.nontrivial(case['n'] > 0)
  judge_subset(ctx, rng, types)


def judge_poses(case, ctx, rng, lasers, order, dt, tol):
  da = ctx.env['da']
  kind = rng.randint(3)
  poses, kept = [], []
  for l, pts in lasers:
    kps = None if rng.rand() < 0.3 else l.laser_keypoints
    if kind == 0:
      poses.append(da.PoseLabel(object_type=l.type, box=l.box, keypoints=kps))
    else:
      poses.append(da.PosePrediction(object_type=l.type, box=l.box if kind == 1 else None, keypoints=kps))
    if kps is not None:
      kept.append((l, pts))
  d = rng.uniform(-9, 9, 3)
  got = ctx.call(da.create_pose_estimation_tensors, poses, d, order, dtype=dt)
  n, k = len(kept), len(order)
  ctx.equal((list(got.keypoints.location.shape), list(got.keypoints.visibility.shape)), ([n, k, 3], [n, k]), 'shapes of pose tensors')
  want = [kp_oracle(p, order, d) for _, p in kept]
  if n:
    ctx.close(got.keypoints.location.numpy(), [w[0] for w in want], 'locations of poses', atol=tol, rtol=tol)
    ctx.equal(got.keypoints.visibility.numpy().tolist(), [w[1] for w in want], 'visibility of poses')
    ctx.equal(got.keypoints.has_visible.numpy().tolist(), [2 in w[1] for w in want], 'visible poses')
  if n and kind == 2:
    ctx.require(got.box is None, 'poses without boxes have boxes')
  else:
    ctx.equal((list(got.box.center.shape), list(got.box.size.shape), list(got.box.heading.shape)), ([n, 3], [n, 3], [n]), 'shapes of boxes')
    if n:
      x = [l.box for l, _ in kept]
      ctx.close(got.box.center.numpy(), [[b.center_x, b.center_y, b.center_z] for b in x], 'centers of poses', atol=tol, rtol=tol)
      ctx.close(got.box.size.numpy(), [[b.length, b.width, b.height] for b in x], 'sizes of poses', atol=tol, rtol=tol)
      ctx.close(got.box.heading.numpy(), [b.heading for b in x], 'headings of poses', atol=tol, rtol=tol)


def judge_subset(ctx, rng, types):
  tf, da = ctx.env['tf'], ctx.env['da']
  src = [int(x) for x in rng.permutation(types)[:rng.randint(2, 9)]]
  dst = [int(x) for x in rng.permutation(src)[:rng.randint(1, len(src) + 1)]]
  v = rng.uniform(-1, 1, (rng.randint(1, 4), len(src)) + ((3,) if rng.rand() < 0.5 else ())).astype(np.float32)
  got = ctx.call(da.select_subset, tf.constant(v), src, dst).numpy()
  ctx.equal(got.tolist(), v[:, [src.index(t) for t in dst]].tolist(), 'subset of keypoints')
  other = next(t for t in types if t not in src)
  for a, s, q in ((v, src, dst + [other]), (v[:, 1:], src, dst), (v[0, :, ...].reshape(len(src), -1)[:, 0], src, dst)):
    try:
      da.select_subset(tf.constant(a), s, q)
    except ValueError:
      continue
    ctx.fail('select_subset accepts %s of %s with shape %s' % (q, s, a.shape))


# ------------------------------------------------------------- matching


@st.composite
def frames(draw):
  return dict(seed=draw(tfu.seeds()), g=draw(st.integers(1, 4)), p=draw(st.integers(0, 4)), k=draw(st.integers(1, 4)), crowd=draw(st.sampled_from([0.8, 2.0, 8.0])),
              noise=draw(st.sampled_from([0.02, 0.1, 0.3])), hidden=draw(st.sampled_from([0.0, 0.3, 0.6, 1.0])), limit=draw(st.sampled_from([0.25, 0.25, 0.1, 1.0])),
              tight=draw(st.booleans()))


def make_frame(case, rng):
  g, p, k = case['g'], case['p'], case['k']
  c = np.c_[rng.uniform(-case['crowd'], case['crowd'], (g, 2)), rng.uniform(0, 1, g)]
  s = np.c_[rng.uniform(0.5, 1.2, (g, 2)), rng.uniform(1, 2, g)]
  h = rng.uniform(-math.pi, math.pi, g)
  loc = c[:, None] + rng.uniform(-0.5, 0.5, (g, k, 3)) * s[:, None] * (0.6 if case['tight'] else 1)
  gv = rng.randint(0, 3, (g, k))
  gv[(rng.rand(g, 1) < 0.7).repeat(k, 1) & (gv < 2) & (rng.rand(g, k) < 0.7)] = 2
  gv[rng.rand(g) < case['hidden']] = rng.randint(0, 2)
  src = rng.randint(0, g, p) if rng.rand() < 0.4 else np.concatenate([rng.permutation(g), rng.randint(0, g, p)])[:p]
  pl = loc[src] + rng.normal(size=(p, k, 3)) * case['noise'] + rng.normal(size=(p, 1, 3)) * rng.choice([0, case['noise'], 1.0], (p, 1, 1))
  pv = np.where(rng.rand(p, k) < 0.8, 2, rng.randint(0, 3, (p, k)))
  pv[rng.rand(p) < 0.1] = 0
  ps = rng.uniform(0.5, 1.5, (p, 3))
  return dict(c=c.astype(np.float32), s=s.astype(np.float32), h=h.astype(np.float32), gl=loc.astype(np.float32), gv=gv.astype(np.int32),
              pl=pl.astype(np.float32).reshape(p, k, 3), pv=pv.astype(np.int32).reshape(p, k),
              pc=(pl.mean(1) if k else pl).astype(np.float32).reshape(p, 3), ps=ps.astype(np.float32), ph=rng.uniform(-3, 3, p).astype(np.float32))


def pose_pair(ctx, f):
  da = ctx.env['da']
  return ctx.env['me'].PoseEstimationPair(
      gt=da.PoseEstimationTensors(keypoints=to_kp(ctx, f['gl'], f['gv']), box=to_box(ctx, f['c'], f['s'], f['h'])),
      pr=da.PoseEstimationTensors(keypoints=to_kp(ctx, f['pl'], f['pv']), box=to_box(ctx, f['pc'], f['ps'], f['ph'])))


def matchings(n, m, allowed):
  """All one-to-one sets of allowed (i, j)."""
  def rec(i, used):
    if i == n:
      yield ()
      return
    for rest in rec(i + 1, used):
      yield rest
    for j in range(m):
      if j not in used and allowed[i][j]:
        for rest in rec(i + 1, used | {j}):
          yield ((i, j),) + rest
  return list(rec(0, frozenset()))


def pair_error(f, i, j, pen):
  g, p = f['gv'][i] == 2, f['pv'][j] == 2
  err = np.minimum(np.linalg.norm(f['gl'][i].astype(float) - f['pl'][j], axis=-1), pen)
  return np.where(g & p, err, np.where(g | p, pen, 0.0)).mean()


def check_matcher(case, ctx):
  me = ctx.env['me']
  rng = np.random.RandomState(case['seed'])
  f = make_frame(case, rng)
  g, p, k, lim = case['g'], case['p'], case['k'], case['limit']
  pose = pose_pair(ctx, f)
  m = ctx.call(me.create_matcher, me.MeanErrorMatcherConfig(max_closest_keypoint_distance=lim))
  ctx.require(isinstance(m, me.MeanErrorMatcher), 'class of the matcher')
  ids = ctx.call(m.matching_ids, pose)
  pairs = list(zip(ids.gt.numpy().tolist(), ids.pr.numpy().tolist()))
  ctx.equal((len(ids.gt.numpy()), len(ids.pr.numpy())), (len(pairs),) * 2, 'numbers of matched objects')
  for side in zip(*pairs):
    ctx.require(len(set(side)) == len(side), 'an object is matched twice: %s', pairs)
  ctx.require(all(0 <= i < g and 0 <= j < p for i, j in pairs), 'matched ids out of range: %s', pairs)
  if p:
    dist = outside(ctx, np.broadcast_to(f['pl'], (g,) + f['pl'].shape), f['c'], f['s'], f['h'])
    q = local(ctx, np.broadcast_to(f['pl'], (g,) + f['pl'].shape), f['c'], f['h'])
    depth = (f['s'][:, None, None].astype(float) / 2 - np.abs(q)).min(-1)
    vis = f['pv'] == 2
    dist[:, ~vis] = np.inf
    near = np.linalg.norm(f['gl'][:, None].astype(float) - f['pl'][None], axis=-1)
    seen = (f['gv'] == 2)[:, None] & vis[None]
    if (np.abs(depth)[:, vis] < 1e-4).any() or (np.abs(dist[:, vis] - lim) < 1e-4).any() or (np.abs(near - lim)[seen] < 1e-4).any():
      ctx.label('too close to call')
      return
    inside = ((depth > 0) & vis[None]).sum(-1)
    hidden = ~(f['gv'] == 2).any(-1)
    claimed = (seen & (near < lim)).any(-1).any(0)
    score = np.where(hidden[:, None] & ~claimed[None], inside, 0)
    first = matchings(g, p, score > 0)
    best = max(sum(score[i, j] for i, j in s) for s in first)
    cost = np.array([[pair_error(f, i, j, lim) for j in range(p)] for i in range(g)])
    cand = dist.min(-1) <= lim
    ok = False
    stage1 = [s for s in first if sum(score[i, j] for i, j in s) == best]
    for s in stage1:
      if not set(s) <= set(pairs):
        continue
      rest = set(pairs) - set(s)
      free = cand & (cost < lim - 1e-6)
      loose = cand & (cost < lim + 1e-6)
      for i, j in s:
        free[i], free[:, j], loose[i], loose[:, j] = False, False, False, False
      if not all(loose[i, j] for i, j in rest):
        continue
      gain = lambda t: sum(lim - cost[i, j] for i, j in t)
      if gain(rest) >= max(gain(t) for t in matchings(g, p, free)) - 1e-4 * (1 + lim):
        ok = True
        break
    ctx.require(ok, lambda: 'matched (ground truth, prediction) %s is not optimal: points inside hidden boxes %s, mean errors %s, candidates %s' % (
        sorted(pairs), score.tolist(), np.round(cost, 4).tolist(), cand.tolist()))
    if best:
      ctx.label('hidden objects matched')
  else:
    ctx.equal(pairs, [], 'matches without predictions')
  judge_reorder(ctx, m, pose, f, pairs)
  ctx.nontrivial(len(pairs) > 0)
  # Any one-to-one ids of a matcher of the user.
  a, b = rng.permutation(g), rng.permutation(p)
  n = rng.randint(0, min(g, p) + 1)
  tf = ctx.env['tf']

  class Own(me.BaseMatcher):

    def matching_ids(self, pose):
      return me.MatchingIdsPairs(gt=tf.constant(a[:n].astype(np.int32)), pr=tf.constant(b[:n].astype(np.int32)))
  judge_reorder(ctx, Own(), pose, f, list(zip(a[:n].tolist(), b[:n].tolist())))
  count = int(rng.randint(1, 8))
  part = rng.permutation(count)[:rng.randint(0, count + 1)].astype(np.int32)
  ctx.equal(ctx.call(me.missing_ids, tf.constant(part), count).numpy().tolist(), [x for x in range(count) if x not in part.tolist()], 'missing ids')


def judge_reorder(ctx, matcher, pose, f, pairs):
  out = ctx.call(matcher.reorder, pose)
  gs, ps = (f['gv'] == 2).any(-1), (f['pv'] == 2).any(-1)
  want = [(i, j) for i, j in pairs if gs[i]]
  want += [(i, None) for i in range(len(gs)) if gs[i] and i not in {a for a, _ in pairs}]
  want += [(None, j) for j in range(len(ps)) if ps[j] and j not in {b for _, b in pairs}]
  def rows(t):
    kp, bx = t.keypoints, t.box
    parts = [np.reshape(kp.location.numpy(), (kp.location.shape[0], kp.location.shape[1] * 3)), kp.visibility.numpy(), bx.center.numpy(), bx.size.numpy(), bx.heading.numpy()[:, None]]
    ctx.equal({len(x) for x in parts}, {len(parts[0])}, 'rows of reordered tensors')
    return np.concatenate([x.astype(np.float32) for x in parts], 1)
  G, P = rows(out.gt), rows(out.pr)
  g, p = rows(pose.gt), rows(pose.pr)
  ctx.equal(len(G), len(P), 'numbers of reordered objects')
  zero = np.zeros(g.shape[1], np.float32)
  key = lambda a, b: tuple(a.tolist()) + tuple(b.tolist())
  w = sorted(key(zero if i is None else g[i], zero if j is None else p[j]) for i, j in want)
  ctx.equal(sorted(key(a, b) for a, b in zip(G, P)), w, 'pairs of reordered ground truth and predictions')
  # A metric accepts them, and each match, miss and false alarm counts once.
  pen = 0.5
  metric = ctx.env['me'].PoseEstimationMetric(mismatch_penalty=pen, name='pem')
  if not want:
    return
  ctx.call(metric.update_state, (out.gt.keypoints, out.pr.keypoints, out.gt.box))
  tot = den = 0.0
  for i, j in want:
    a = f['gv'][i] == 2 if i is not None else np.zeros(f['gv'].shape[1], bool)
    b = f['pv'][j] == 2 if j is not None else np.zeros(f['gv'].shape[1], bool)
    both = a & b
    if both.any():
      tot += np.minimum(np.linalg.norm(f['gl'][i].astype(float) - f['pl'][j], axis=-1), pen)[both].sum()
    tot += pen * (a ^ b).sum()
    den += (a | b).sum()
  ctx.close(float(ctx.call(metric.result)['pem'].numpy()), ratio(tot, den), 'pose estimation metric of reordered objects', atol=1e-4)


def check_cpp_matcher(case, ctx):
  """What the op is asked for, and what becomes of its answer."""
  tf, me, mt = ctx.env['tf'], ctx.env['me'], ctx.env['mt']
  rng = np.random.RandomState(case['seed'])
  f = make_frame(case, rng)
  pose = pose_pair(ctx, f)
  g, p = case['g'], case['p']
  n = rng.randint(0, min(g, p) + 1)
  a, b = rng.permutation(g)[:n], rng.permutation(p)[:n]
  iou = float(np.float32(rng.uniform(0.1, 0.9)))
  types = mt.MatcherProto
  method = [types.TYPE_HUNGARIAN, types.TYPE_SCORE_FIRST][rng.randint(2)]
  calls = []

  def hook(op, args, kwargs):
    calls.append((op, args, kwargs))
    return [tf.constant(b.astype(np.int32)), tf.constant(a.astype(np.int32)), tf.constant(np.ones(n, np.float32)), tf.constant(np.ones(n, np.float32))]
  tf.OP_HOOK = hook
  try:
    m = ctx.call(me.create_matcher, me.CppMatcherConfig(method=method, iou_threshold=iou))
    judge_reorder(ctx, m, pose, f, list(zip(a.tolist(), b.tolist())))
  finally:
    tf.OP_HOOK = None
  ctx.equal([c[0] for c in calls], ['match'], 'ops of the matcher')
  _, args, kwargs = calls[0]
  vals = dict(zip(('prediction_boxes', 'groundtruth_boxes', 'config'), args), **kwargs)
  row = lambda c, s, h: np.concatenate([c, s, h[:, None]], 1)[None]
  ctx.close(np.asarray(vals['prediction_boxes'].numpy()), row(f['pc'], f['ps'], f['ph']), 'predicted boxes of the op')
  ctx.close(np.asarray(vals['groundtruth_boxes'].numpy()), row(f['c'], f['s'], f['h']), 'ground truth boxes of the op')
  cfg = mt.Config.FromString(vals['config'])
  ctx.equal((cfg.matcher_type, cfg.box_type), (method, ctx.env['lb'].Label.Box.TYPE_3D), 'matcher and box types of the op')
  ctx.close(list(cfg.iou_thresholds)[1:], [iou] * 4, 'IoU thresholds of the op', atol=1e-6)
  ctx.nontrivial(n > 0)


SUBS = [
    Sub('displacement', displaced, check_displacement, 1500, rule='a point is outside its box, or the box is turned'),
    Sub('convention', turned, check_convention, 100, rule='heading not close to a multiple of 90 degrees'),
    Sub('metrics', pairs, check_metrics, 1200, rule='more than three metric values are positive'),
    Sub('combined', combined, check_combined, 120, rule='any'),
    Sub('data', framed, check_data, 800, rule='the frame has objects'),
    Sub('matcher', frames, check_matcher, 2500, rule='something is matched'),
    Sub('cpp_matcher', frames, check_cpp_matcher, 600, rule='something is matched'),
]
