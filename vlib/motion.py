"""Motion-prediction scenes, their protos and a reference model of the metrics."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import geo, wod
from vlib.driver import ud
from vlib.geo import f

UNSET, VEHICLE, PEDESTRIAN, CYCLIST, OTHER = range(5)
PRIORITY = {UNSET: 0, OTHER: 1, VEHICLE: 2, PEDESTRIAN: 3, CYCLIST: 4}
(STATIONARY, STRAIGHT, STRAIGHT_LEFT, STRAIGHT_RIGHT, LEFT_U, LEFT, RIGHT_U,
 RIGHT) = range(8)
SHAPE_PRIORITY = [STATIONARY, STRAIGHT, STRAIGHT_RIGHT, STRAIGHT_LEFT, RIGHT,
                  LEFT, LEFT_U, RIGHT_U]
f32 = lambda x: float(np.float32(x)) + 0.0  # never -0.0


# ---- generators -----------------------------------------------------------
PROBS = [0.0, 0.125, 0.25, 0.25, 0.5, 0.7, 1.0, 3.0]


@st.composite
def configs(draw, max_future=16):
  pps = draw(st.sampled_from([1, 2, 5]))
  ratio = draw(st.sampled_from([1, 2, 3]))
  hist = draw(st.integers(0, 3))
  steps = draw(st.integers(2, max(2, max_future // ratio)))
  future = steps * ratio + draw(st.integers(0, ratio - 1))
  ms = draw(st.lists(st.integers(0, steps - 1), min_size=1, max_size=3, unique=True))
  if draw(st.booleans()) and steps - 1 not in ms:
    ms[-1] = steps - 1
  sl = draw(st.sampled_from([1.0, 1.4, 0.0]))
  return dict(tps=pps * ratio, pps=pps, hist=hist, future=future, steps=steps, ratio=ratio,
              ms=[(m, draw(st.sampled_from([1.0, 0.5, 3.0])), draw(st.sampled_from([2.0, 1.0, 6.0]))) for m in ms],
              k=draw(st.integers(1, 5)), sl=f32(sl), su=f32(sl + draw(st.sampled_from([0.5, 9.6, 3.0]))),
              scl=draw(st.sampled_from([0.5, 0.25, 1.0])), scu=draw(st.sampled_from([1.0, 2.0])))


@st.composite
def track(draw, cfg, k, spread):
  """A constant-turn-rate motion with a validity pattern."""
  n = cfg['hist'] + cfg['future'] + 1
  dt = 1.0 / cfg['tps']
  speed = draw(st.sampled_from([0.0, 0.4, 1.0, 2.5, 4.0, 6.0, 11.5, 20.0]))
  rate = draw(st.sampled_from([0.0, 0.0, 0.15, -0.15, 0.5, -0.5, 1.0, -1.0]))
  acc = draw(st.sampled_from([0.0, 0.0, -1.0, 1.0]))
  h0 = draw(st.one_of(st.sampled_from([0.0, math.pi / 2, -math.pi, 3.0]), f(-4, 4)))
  x, y = draw(f(-spread, spread)), draw(f(-spread, spread))
  dims = draw(st.sampled_from([(4.5, 2.0), (4.5, 2.0), (0.9, 0.8), (2.0, 0.8), (10.0, 3.0)]))
  kind = draw(st.sampled_from(['all', 'all', 'all', 'mask', 'late', 'tail', 'none']))
  valid = [True] * n
  if kind == 'mask':
    mask = draw(st.integers(0, 2**n - 1))
    valid = [bool(mask >> t & 1) for t in range(n)]
    valid[cfg['hist']] |= draw(st.booleans())
  elif kind == 'late':
    a = draw(st.integers(0, n))
    valid = [t >= a for t in range(n)]
  elif kind == 'tail':
    a = draw(st.integers(0, n))
    valid = [t <= a for t in range(n)]
  elif kind == 'none':
    valid = [False] * n
  states = []
  h, s = h0, speed
  for t in range(n):
    states.append([x, y, f32(h), f32(s * math.cos(h)), f32(s * math.sin(h)), f32(dims[0]), f32(dims[1])])
    x += dt * s * math.cos(h)
    y += dt * s * math.sin(h)
    h += rate * dt
    s = max(0.0, s + acc * dt)
  return dict(id=draw(st.sampled_from([7 * k, 1000 - k, 2**31 - 1 - k])) + 1 if k else 1,
              t=draw(st.sampled_from([VEHICLE, VEHICLE, PEDESTRIAN, CYCLIST, OTHER, UNSET])), s=states, v=valid,
              kind=kind)


def gt_at(cfg, tr, step):
  return cfg['hist'] + (step + 1) * cfg['ratio']


def scale(cfg, tr):
  s = tr['s'][cfg['hist']]
  v = math.hypot(s[3], s[4])
  a = min(1.0, max(0.0, (v - cfg['sl']) / (cfg['su'] - cfg['sl'])))
  return cfg['scl'] + (cfg['scu'] - cfg['scl']) * a


@st.composite
def trajectory(draw, cfg, tr, others):
  """Positions that follow the ground truth at a multiple of a threshold."""
  mode = draw(st.sampled_from(['near', 'near', 'near', 'other', 'still', 'jump']))
  n = cfg['steps']
  if mode == 'still':
    x, y = f32(tr['s'][cfg['hist']][0]), f32(tr['s'][cfg['hist']][1])
    return [(x, y)] * n
  if mode == 'other' and others:
    o = draw(st.sampled_from(others))
    return [(f32(o['s'][gt_at(cfg, o, t)][0] + 0.2), f32(o['s'][gt_at(cfg, o, t)][1] - 0.1)) for t in range(n)]
  _, lat, lon = draw(st.sampled_from(cfg['ms']))
  k = scale(cfg, tr)
  a = draw(st.sampled_from([0.0, 0.3, -0.95, 1.05, 0.6, -2.5])) * lat * k
  b = draw(st.sampled_from([0.0, -0.4, 0.95, -1.05, 0.7, 3.0])) * lon * k
  out = []
  at = draw(st.integers(0, n)) if mode == 'jump' else 0
  for t in range(n):
    s = tr['s'][gt_at(cfg, tr, t)]
    c, d = math.cos(s[2]), math.sin(s[2])
    p, q = (b, a) if t >= at else (0.0, 0.0)
    out.append((f32(s[0] + p * c - q * d), f32(s[1] + p * d + q * c)))
  return out


@st.composite
def scenario(draw, cfg, sid, min_tracks=1, max_tracks=4, joint=2, spread=None):
  spread = spread or draw(st.sampled_from([8.0, 40.0]))
  shift = draw(st.sampled_from([0.0, 0.0, 250.0]))
  nt = draw(st.integers(min_tracks, max_tracks))
  tracks = [draw(track(cfg, k, spread)) for k in range(nt)]
  for t in tracks:
    for s in t['s']:
      s[0] += shift
      s[1] -= 2 * shift
  pr = draw(st.permutations(range(nt)))[:draw(st.integers(1, min(nt, 3)))]
  groups, rest = [], list(pr)
  while rest:
    k = min(len(rest), draw(st.integers(1, joint)))
    groups.append(rest[:k])
    rest = rest[k:]
  mm = []
  for g in groups:
    js = []
    # Confidences need not be probabilities: logits are one kind.
    conf = draw(st.sampled_from([PROBS, PROBS, PROBS, [-4.0, -2.5, -0.5, -0.125, 0.0], [-3.0, -1.0, 0.5, 2.0]]))
    for _ in range(draw(st.integers(1, 4))):
      order = g if len(g) == 1 or draw(st.booleans()) else g[::-1]
      js.append(dict(c=draw(st.sampled_from(conf)),
                     tr=[(a, draw(trajectory(cfg, tracks[a], [o for j, o in enumerate(tracks) if j != a])))
                         for a in order]))
    mm.append(js)
  # Invalid states carry nothing (or rubbish, where nothing reads it).
  for k, t in enumerate(tracks):
    for j, ok in enumerate(t['v']):
      if not ok:
        t['s'][j] = [0.0] * 7 if k in pr else [t['s'][0][0] + 0.3, t['s'][0][1], 1.0, 9.0, 9.0, 6.0, 6.0]
  return dict(id=sid, tracks=tracks, predict=list(pr), mm=mm)


# ---- protos ---------------------------------------------------------------
def config_proto(cfg):
  c = wod.pb('protos.motion_metrics_pb2').MotionMetricsConfig()
  c.track_steps_per_second = cfg['tps']
  c.prediction_steps_per_second = cfg['pps']
  c.track_history_samples = cfg['hist']
  c.track_future_samples = cfg['future']
  c.speed_lower_bound, c.speed_upper_bound = cfg['sl'], cfg['su']
  c.speed_scale_lower, c.speed_scale_upper = cfg['scl'], cfg['scu']
  c.max_predictions = cfg['k']
  for m, a, b in cfg['ms']:
    c.step_configurations.add(measurement_step=m, lateral_miss_threshold=a, longitudinal_miss_threshold=b)
  return c


def track_proto(tr, out=None):
  t = out or wod.pb('protos.scenario_pb2').Track()
  t.id, t.object_type = tr['id'], tr['t']
  for j, (s, v) in enumerate(zip(tr['s'], tr['v'])):
    # All these metrics are planar.
    z, h = (tr['id'] % 5 * 1.75 - 3 + 0.25 * j, 1 + tr['id'] % 3 * 0.5) if v else (0.0, 0.0)
    t.states.add(center_x=s[0], center_y=s[1], center_z=z, heading=s[2], velocity_x=s[3], velocity_y=s[4],
                 length=s[5], width=s[6], height=h, valid=v)
  return t


def scenario_proto(sc):
  s = wod.pb('protos.scenario_pb2').Scenario(scenario_id=sc['id'])
  for t in sc['tracks']:
    track_proto(t, s.tracks.add())
  n = len(sc['tracks'])
  for k in sc['predict']:
    s.tracks_to_predict.add(track_index=k)
    if n % 2:
      s.tracks_to_predict[-1].difficulty = 1 + k % 2
  # The rest of a scenario makes no difference.
  if n > 1:
    s.sdc_track_index = (7 * n + sc['predict'][0]) % n
    s.objects_of_interest.extend(t['id'] for t in sc['tracks'][:2])
    s.timestamps_seconds.extend(0.1 * j for j in range(len(sc['tracks'][0]['s'])))
  if n > 2:
    s.map_features.add(id=1).stop_sign.lane.append(3)
    s.dynamic_map_states.add().lane_states.add(lane=3, state=4)
  return s


def predictions_proto(sc):
  p = wod.pb('protos.motion_metrics_pb2').ScenarioPredictions(scenario_id=sc['id'])
  for js in sc['mm']:
    m = p.multi_modal_predictions.add()
    for j in js:
      o = m.joint_predictions.add(confidence=j['c'])
      for a, pts in j['tr']:
        o.trajectories.add(object_id=sc['tracks'][a]['id'], center_x=[q[0] for q in pts], center_y=[q[1] for q in pts])
  return p


# ---- the model ------------------------------------------------------------
def angle_diff(a, b):
  return math.remainder(a - b, 2 * math.pi)


def classify(tr, now):
  """-> (shape or None, ambiguous)."""
  last = [t for t in range(now + 1, len(tr['s'])) if tr['v'][t]]
  if not last or not tr['v'][now]:
    return None, False
  s, e = tr['s'][now], tr['s'][last[-1]]
  dx, dy = e[0] - s[0], e[1] - s[1]
  c, d = math.cos(s[2]), math.sin(s[2])
  lon, lat = dx * c + dy * d, -dx * d + dy * c
  dh = abs(angle_diff(e[2], s[2]))
  speed = max(math.hypot(s[3], s[4]), math.hypot(e[3], e[4]))
  dist = math.hypot(dx, dy)
  eps = 1e-4
  bad = abs(speed - 2) < eps or abs(dist - 3) < eps
  if speed < 2 and dist < 3:
    return STATIONARY, bad
  bad |= abs(dh - math.pi / 6) < eps
  if dh < math.pi / 6:
    bad |= abs(abs(lat) - 2.5) < eps
    if abs(lat) < 2.5:
      return STRAIGHT, bad
    return (STRAIGHT_RIGHT if lat < 0 else STRAIGHT_LEFT), bad
  bad |= abs(lat) < eps or abs(lon) < eps
  if lat < 0:
    return (RIGHT_U if lon < 0 else RIGHT), bad
  return (LEFT_U if lon < 0 else LEFT), bad


def heading_at(pts, t):
  """-> (heading, ambiguous): along the motion, averaged over both sides."""
  segs = [k for k in (t - 1, t) if 0 <= k < len(pts) - 1]
  x = y = 0.0
  bad = False
  for k in segs:
    dx, dy = pts[k + 1][0] - pts[k][0], pts[k + 1][1] - pts[k][1]
    n = math.hypot(dx, dy)
    if n == 0:
      x += 1.0  # a standing object faces 0
    else:
      bad |= n < 1e-3
      x += dx / n
      y += dy / n
  return math.atan2(y, x), bad or math.hypot(x, y) < 1e-3


def overlap_depth(p, q):
  """Separation of two convex polygons: > 0 apart, < 0 overlapping."""
  best = -math.inf
  for poly in (p, q):
    for k in range(4):
      ax, ay = poly[k]
      bx, by = poly[(k + 1) % 4]
      n = math.hypot(bx - ax, by - ay)
      nx, ny = (by - ay) / n, -(bx - ax) / n
      other = q if poly is p else p
      best = max(best, min((x - ax) * nx + (y - ay) * ny for x, y in other))
  return best


class Stats:

  def __init__(self):
    self.ade, self.fde, self.miss, self.over = [], [], [], []
    self.custom = []
    self.map = {}
    self.soft = {}
    self.bad = set()

  def add(self, o):
    for k in ('ade', 'fde', 'miss', 'over', 'custom'):
      getattr(self, k).extend(getattr(o, k))
    for k in ('map', 'soft'):
      mine = getattr(self, k)
      for b, (n, s) in getattr(o, k).items():
        m = mine.setdefault(b, [0, []])
        m[0] += n
        m[1].extend(s)
    self.bad |= o.bad


def evaluate(cfg, sc, js, m, lat_thr, lon_thr):
  """The measurements of one multimodal prediction at step m -> Stats."""
  out = Stats()
  tracks = sc['tracks']
  ades, fdes, match = [], [], []
  for j in js[:cfg['k']]:
    a_j, f_j, hit = [], [], True
    for a, pts in j['tr']:
      tr = tracks[a]
      errs = []
      for t in range(m + 1):
        g = gt_at(cfg, tr, t)
        if tr['v'][g]:
          s = tr['s'][g]
          errs.append((t, pts[t][0] - s[0], pts[t][1] - s[1], s[2]))
      a_j.append(sum(math.hypot(e[1], e[2]) for e in errs) / len(errs) if errs else None)
      last = errs[-1] if errs and errs[-1][0] == m else None
      if last is None:
        f_j.append(None)
        hit = None
        continue
      _, dx, dy, h = last
      f_j.append(math.hypot(dx, dy))
      k = scale(cfg, tr)
      lon = abs(dx * math.cos(h) + dy * math.sin(h)) / k
      lat = abs(dy * math.cos(h) - dx * math.sin(h)) / k
      if abs(lon - lon_thr) < 1e-5 * (1 + lon) or abs(lat - lat_thr) < 1e-5 * (1 + lat):
        out.bad.add('match')
      if hit is not None and (lon > lon_thr or lat > lat_thr):
        hit = False
    ades.append(None if None in a_j else sum(a_j) / len(a_j))
    fdes.append(None if None in f_j else sum(f_j) / len(f_j))
    match.append((j['c'], hit))
  for dst, xs in ((out.ade, ades), (out.fde, fdes)):
    xs = [x for x in xs if x is not None]
    if xs:
      dst.append(min(xs))
  hits = [h for _, h in match if h is not None]
  if hits:
    out.miss.append(0.0 if any(hits) else 1.0)

  # Overlap of the most confident one.
  considered = js[:cfg['k']]
  best = max(range(len(considered)), key=lambda k: (considered[k]['c'], -k))
  over = False
  for a, pts in considered[best]['tr']:
    for t in range(m + 1):
      if pts[t] in pts[max(0, t - 1):t] + pts[t + 1:t + 2]:
        out.bad.add('still')  # no motion to take a heading from: it is 0
      g = gt_at(cfg, tracks[a], t)
      if not tracks[a]['v'][g]:
        continue
      s = tracks[a]['s'][g]
      h, bad = heading_at(pts, t)
      box = geo.corners(pts[t][0], pts[t][1], s[5], s[6], h)
      reach = math.hypot(s[5], s[6]) / 2
      for k, o in enumerate(tracks):
        if k == a or not o['v'][cfg['hist']] or not o['v'][g]:
          continue
        q = o['s'][g]
        if math.hypot(q[0] - pts[t][0], q[1] - pts[t][1]) > reach + math.hypot(q[5], q[6]) / 2 + 0.01:
          continue
        if bad:
          out.bad.add('over')
          continue
        d = overlap_depth(box, geo.corners(q[0], q[1], q[5], q[6], q[2]))
        if abs(d) < 1e-3:
          out.bad.add('over')
        elif d < 0:
          over = True
  if over:
    out.bad.discard('over')
  out.over.append(1.0 if over else 0.0)

  # Precision samples, in the bucket of the prediction's shape.
  shapes = []
  for a, _ in js[0]['tr']:
    s, bad = classify(tracks[a], cfg['hist'])
    if bad:
      out.bad.add('shape')
    if s is not None:
      shapes.append(s)
  if shapes:
    shape = max(shapes, key=SHAPE_PRIORITY.index)
    shape = RIGHT if shape == RIGHT_U else shape
    found = False
    hard, soft = [], []
    for c, h in sorted(match, key=lambda x: -x[0]):
      if h is None:
        continue
      hard.append((f32(c), bool(h) and not found))
      if not (h and found):
        soft.append((f32(c), bool(h)))
      found |= bool(h)
    if hard:
      out.map[shape] = [1, hard]
      out.soft[shape] = [1, soft]
  out.custom.append(m + 100 * len(js) + 10000 * len(tracks) + 1000000 * len(set(sc['predict'])))
  return out


def type_of(sc, js):
  return max((sc['tracks'][a]['t'] for a, _ in js[0]['tr']), key=PRIORITY.get)


def reference(cfg, scs):
  """-> {(type, step): Stats} over the scenarios."""
  out = {}
  for sc in scs:
    for js in sc['mm']:
      if not js or not js[0]['tr']:
        continue
      for m, a, b in cfg['ms']:
        out.setdefault((type_of(sc, js), m), Stats()).add(evaluate(cfg, sc, js, m, f32(a), f32(b)))
  return out


def area(samples, n):
  """Area under the max-interpolated precision/recall curve."""
  s = sorted(samples, key=lambda x: (-x[0], x[1]))
  tp, pts = 0, []
  for k, (_, t) in enumerate(s):
    tp += t
    pts.append((tp / n, tp / (k + 1)))
  total, prev = 0.0, 0.0
  for k, (r, _) in enumerate(pts):
    if r > prev:
      total += (r - prev) * max(p for _, p in pts[k:])
      prev = r
  return total


def map_metric(buckets):
  xs = [area(s, n) for n, s in buckets.values() if s]
  return sum(xs) / len(xs) if xs else 0.0


# ---- decoding -------------------------------------------------------------
def decode(b):
  v = list(ud(b))
  out = dict(type=int(v[0]), step=int(v[1]))
  for k, name in enumerate(('ade', 'fde', 'miss', 'over', 'custom')):
    out[name] = (v[2 + 2 * k], int(v[3 + 2 * k]))
  p = 12
  for name in ('map', 'soft'):
    nb = int(v[p])
    p += 1
    out[name] = {}
    for k in range(nb):
      n, m = int(v[p]), int(v[p + 1])
      p += 2
      s = [(v[p + 2 * q], bool(v[p + 2 * q + 1])) for q in range(m)]
      p += 2 * m
      if n or s:
        out[name][k] = [n, sorted(s)]
  return out


def mean(xs):
  return sum(xs) / len(xs) if xs else 0.0


def run(ctx, cfg, sc, custom=0):
  """The measurements the tree makes -> {(type, step): decoded}."""
  from vlib.driver import i, ui, unpack
  out = ctx.env['drv'].call('stats', config_proto(cfg).SerializeToString(), predictions_proto(sc).SerializeToString(),
                            scenario_proto(sc).SerializeToString(), i(custom))
  ctx.require(ui(out[0])[0] == 1, 'a well-formed prediction was rejected')
  ds = [decode(b) for b in unpack(out[1])]
  ctx.equal(len({(d['type'], d['step']) for d in ds}), len(ds), 'entries')
  return {(d['type'], d['step']): d for d in ds}


def compare(ctx, got, want, names, where=''):
  """Accumulators and samples of the tree against the model's."""
  ctx.equal(sorted(got), sorted(want), 'measured (type, step) pairs' + where)
  for key, w in want.items():
    g = got[key]
    for n in names:
      at = '%s of type %d at step %d%s' % (n, key[0], key[1], where)
      if n in ('map', 'soft'):
        if w.bad & {'match', 'shape'}:
          ctx.label('skipped: on a threshold')
          continue
        x = getattr(w, n)
        ctx.equal(sorted(g[n]), sorted(x), 'buckets with samples of ' + at)
        for b in x:
          ctx.equal(g[n][b], [x[b][0], sorted(x[b][1])], 'count and samples of bucket %d of %s' % (b, at))
        continue
      if (n == 'miss' and 'match' in w.bad) or (n == 'over' and 'over' in w.bad):
        ctx.label('skipped: on a threshold')
        continue
      x = getattr(w, n)
      ctx.equal(g[n][1], len(x), 'measurements of ' + at)
      ctx.close(g[n][0], sum(x), 'total ' + at, 1e-6, 1e-6)


@st.composite
def cases(draw, **kw):
  cfg = draw(configs())
  return dict(cfg=cfg, sc=draw(scenario(cfg, 's', **kw)))


@st.composite
def moved_cases(draw, **kw):
  c = draw(cases(**kw))
  c['move'] = (draw(geo.f(-100, 100)), draw(geo.f(-100, 100)), draw(geo.f(-3.2, 3.2)))
  c['order'] = draw(st.permutations(range(len(c['sc']['tracks']))))
  return c


def moved(sc, move, order):
  """The scene seen from elsewhere, its tracks listed in another order."""
  x, y, a = move
  c, s = math.cos(a), math.sin(a)
  pos = {t: k for k, t in enumerate(order)}

  def at(p, q):
    return p * c - q * s + x, p * s + q * c + y
  tracks = []
  for k in order:
    t = sc['tracks'][k]
    states = []
    for v in t['s']:
      p, q = at(v[0], v[1])
      states.append([p, q, f32(v[2] + a), f32(v[3] * c - v[4] * s), f32(v[3] * s + v[4] * c), v[5], v[6]])
    tracks.append(dict(t, s=states))
  mm = [[dict(j, tr=[(pos[k], [tuple(map(f32, at(*q))) for q in pts]) for k, pts in j['tr']]) for j in js]
        for js in sc['mm']]
  return dict(id=sc['id'], tracks=tracks, predict=[pos[k] for k in sc['predict']], mm=mm)


def check_moved(case, ctx, names):
  cfg, sc = case['cfg'], case['sc']
  other = moved(sc, case['move'], case['order'])
  a, b = run(ctx, cfg, sc), run(ctx, cfg, other)
  w, v = reference(cfg, [sc]), reference(cfg, [other])
  ctx.equal(sorted(a), sorted(b), 'measured (type, step) pairs of the moved scene')
  for key in a:
    if (w[key].bad | v[key].bad) & ({'still', 'over'} if 'over' in names else {'match', 'shape'}):
      ctx.label('skipped: on a threshold or standing still')
      continue
    for n in names:
      at = '%s of type %d at step %d after moving the scene' % (n, key[0], key[1])
      if n in ('map', 'soft'):
        ctx.equal(b[key][n], a[key][n], at)
      else:
        ctx.equal(b[key][n][1], a[key][n][1], at)
        ctx.close(b[key][n][0], a[key][n][0], at, 1e-3, 1e-5)
    ctx.nontrivial(len(sc['tracks']) > 1)
