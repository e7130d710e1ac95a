"""Objects, frames and configurations for the detection-style metrics, and
plain reference versions of matching (independent of the tree)."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import geo, wod

HUNGARIAN, SCORE_FIRST = 1, 2
KINDS = {1: '3d', 2: '2d', 3: 'aa'}
N_TYPES = 5  # label types, with TYPE_UNKNOWN


def f32(x):
  return float(np.float32(x))


# ---- generators -----------------------------------------------------------
DIMS = [(4.0, 2.0, 1.5), (1.0, 1.0, 1.75), (9.0, 2.5, 3.0), (2.0, 0.75, 1.75), (6.875, 2.0, 2.0)]


@st.composite
def obj(draw, anchors, types, idx, is_pd):
  a = anchors[draw(st.integers(0, len(anchors) - 1))]
  near = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 4.0]))
  # A distinct jitter per object keeps optimal assignments unique.
  j = 0.01 * ((idx * 37 + (11 if is_pd else 0)) % 29) / 29
  b = [a[0] + near * draw(geo.f(-1, 1)) + j, a[1] + near * draw(geo.f(-1, 1)) - j * 0.7,
       a[2] + draw(st.sampled_from([0.0, 0.25, -0.5]))]
  s = draw(st.sampled_from([1.0, 1.0, 1.0, 0.9, 1.25]))
  b += [x * s for x in a[3]]
  b.append(a[4] + draw(st.sampled_from([0.0, 0.0, 0.1, -0.2, math.pi, 2 * math.pi, 1.5])))
  t = a[5] if draw(st.integers(0, 5)) else draw(st.sampled_from(types))
  return dict(b=b, t=t, id='%s%d' % ('p' if is_pd else 'g', idx))


@st.composite
def anchors(draw, types, spread=(6, 35, 60)):
  out = []
  for _ in range(draw(st.integers(1, 4))):
    lim = draw(st.sampled_from(list(spread)))
    out.append((draw(geo.f(-lim, lim)), draw(geo.f(-lim, lim)), draw(geo.f(-2, 2)),
                draw(st.sampled_from(DIMS)), draw(geo.heading), draw(st.sampled_from(types))))
  return out


SCORES = [k / 64 for k in range(0, 65)]
VIS = ['FRONT', 'FRONT_LEFT', 'FRONT_RIGHT', 'SIDE_LEFT', 'SIDE_RIGHT']
NOT_VIS = ['UNKNOWN', '', 'REAR', 'front']


@st.composite
def frame(draw, npd=7, ngt=6, types=(1, 1, 2, 3, 4), anchor=None, distinct=True, extras=True):
  types = list(types)
  an = anchor if anchor is not None else draw(anchors(types))
  pds, gts = [], []
  n = draw(st.integers(0, npd))
  scores = draw(st.lists(st.sampled_from(SCORES), min_size=n, max_size=n, unique=distinct))
  for k in range(n):
    o = draw(obj(an, types, k, True))
    o['s'] = scores[k]
    if extras:
      o['nlz'] = draw(st.integers(0, 5)) == 0
      if draw(st.integers(0, 5)) == 0:
        o['dd'] = o['td'] = draw(st.integers(0, 2))  # predictions have no difficulty
    pds.append(o)
  for k in range(draw(st.integers(0, ngt))):
    o = draw(obj(an, types, k, False))
    o['dd'] = draw(st.sampled_from([1, 1, 2, 2, 0]))
    o['td'] = draw(st.sampled_from([1, 1, 2, 2, 0]))
    if extras:
      o['nlz'] = draw(st.integers(0, 7)) == 0  # must make no difference
      if draw(st.integers(0, 7)) == 0:
        o['s'] = draw(st.sampled_from([0.0, 0.25, 0.8]))  # nor must this
      o['v'] = [draw(st.sampled_from([0.0, 0.1, 0.5, 2.0, 5.0, 12.0, -5.0])),
                draw(st.sampled_from([0.0, 0.0, 0.15, -2.5]))]
      if draw(st.booleans()):
        o['vis'] = draw(st.sampled_from(VIS + VIS + NOT_VIS))
    gts.append(o)
  return dict(p=pds, g=gts)


# ---- protos ---------------------------------------------------------------
def to_proto(o):
  M = wod.pb('protos.metrics_pb2')
  x = M.Object()
  l = x.object
  b = l.box
  (b.center_x, b.center_y, b.center_z, b.length, b.width, b.height, b.heading) = o['b']
  l.type = o['t']
  l.id = o.get('id', '')
  if 's' in o and not (o['s'] == 1.0 and l.id[-1:] in '02468'):  # 1 is the default
    x.score = o['s']
  if 'dd' in o:
    l.detection_difficulty_level = o['dd']
  if 'td' in o:
    l.tracking_difficulty_level = o['td']
  if o.get('nlz'):
    x.overlap_with_nlz = True
  if o.get('v') is not None:
    l.metadata.speed_x, l.metadata.speed_y = o['v']
  if o.get('acc') is not None:
    l.metadata.accel_x = o['acc']
  if o.get('vis') is not None:
    l.most_visible_camera_name = o['vis']
  if o.get('cam') is not None:
    x.camera_name = o['cam']
  if o.get('ctx') is not None:
    x.context_name = o['ctx']
  if o.get('ts') is not None:
    x.frame_timestamp_micros = o['ts']
  return x


def packed(objs):
  from vlib.driver import pack
  return pack([to_proto(o).SerializeToString() for o in objs])


def thresholds(draw):
  return [0.0] + [draw(st.sampled_from([0.5, 0.3, 0.7, 0.05, 0.5, 0.3, 0.7, 0.5, 0.05, 0.0])) for _ in range(4)]


# ---- reference geometry of one frame --------------------------------------
def iou_matrix(pds, gts, kind, align=None):
  """IoU, 0 for different types."""
  return [[geo.iou(p['b'], g['b'], kind) if p['t'] == g['t'] else 0.0 for g in gts]
          for p in pds]


TIE = 60  # micro-weights: closer alternatives count as ties
NEAR = 2e-4


def allowed(iou, pds, gts, thr):
  """-> allowed matrix, and whether some pair is too close to its threshold
  (with a threshold of 0, pairs that do not overlap may or may not be matched)."""
  near = False
  can = []
  for k, p in enumerate(pds):
    row = []
    for x, g in zip(iou[k], gts):
      t = f32(thr[p['t']])
      near |= p['t'] == g['t'] and abs(x - t) < NEAR
      row.append(p['t'] == g['t'] and x >= t)
    can.append(row)
  return can, near


def solve(w, n, m):
  """Max-weight assignment (e-maxx O(n^3)): w[i][j] >= 0 -> list of j (or -1)."""
  if n == 0 or m == 0:
    return [-1] * n, 0
  size = max(n, m)
  INF = float('inf')
  a = [[0] * (size + 1) for _ in range(size + 1)]
  for i in range(n):
    for j in range(m):
      a[i + 1][j + 1] = -w[i][j]
  u, v = [0] * (size + 1), [0] * (size + 1)
  p, way = [0] * (size + 1), [0] * (size + 1)
  for i in range(1, size + 1):
    p[0] = i
    j0 = 0
    minv = [INF] * (size + 1)
    used = [False] * (size + 1)
    while True:
      used[j0] = True
      i0, delta, j1 = p[j0], INF, 0
      for j in range(1, size + 1):
        if not used[j]:
          cur = a[i0][j] - u[i0] - v[j]
          if cur < minv[j]:
            minv[j], way[j] = cur, j0
          if minv[j] < delta:
            delta, j1 = minv[j], j
      for j in range(size + 1):
        if used[j]:
          u[p[j]] += delta
          v[j] -= delta
        else:
          minv[j] -= delta
      j0 = j1
      if p[j0] == 0:
        break
    while j0:
      j1 = way[j0]
      p[j0] = p[j1]
      j0 = j1
  out = [-1] * n
  tot = 0
  for j in range(1, m + 1):
    if 1 <= p[j] <= n and w[p[j] - 1][j - 1] > 0:
      out[p[j] - 1] = j - 1
      tot += w[p[j] - 1][j - 1]
  return out, tot


def hungarian(w):
  """-> (matching per row, unique by a margin of TIE)."""
  n = len(w)
  m = len(w[0]) if n else 0
  best, tot = solve(w, n, m)
  unique = True
  for i, j in enumerate(best):
    if j >= 0:
      keep, w[i][j] = w[i][j], 0
      _, t2 = solve(w, n, m)
      w[i][j] = keep
      if t2 > tot - TIE:
        unique = False
        break
  return best, unique


def score_first(w, scores):
  """w: weight, or 0 when not allowed. -> (matching, unique)."""
  n = len(w)
  m = len(w[0]) if n else 0
  unique = len(set(scores)) == n
  free = [True] * m
  out = [-1] * n
  for i in sorted(range(n), key=lambda k: -scores[k]):
    c = sorted([(w[i][j], j) for j in range(m) if free[j] and w[i][j] > 0], reverse=True)
    if c:
      out[i] = c[0][1]
      free[c[0][1]] = False
      if len(c) > 1 and c[0][0] - c[1][0] < TIE:
        unique = False
  return out, unique


def match(weights, can, scores, ps, gs, matcher):
  """Matching of subsets: list over ps of position in gs or -1, unique."""
  w = [[weights[i][j] if can[i][j] else 0 for j in gs] for i in ps]
  if matcher == SCORE_FIRST:
    return score_first(w, [scores[i] for i in ps])
  return hungarian(w)


def inverse(m, n):
  out = [-1] * n
  for i, j in enumerate(m):
    if j >= 0:
      out[j] = i
  return out


# ---- breakdowns -----------------------------------------------------------
ONE_SHARD, OBJECT_TYPE, RANGE, VELOCITY, ALL_BUT_SIGN, SIZE, CAMERA = 1, 2, 3, 7, 8, 9, 10
GENERATORS = [ONE_SHARD, OBJECT_TYPE, RANGE, VELOCITY, ALL_BUT_SIGN, SIZE, CAMERA]
PER_TYPE = {OBJECT_TYPE: 1, RANGE: 3, VELOCITY: 5, SIZE: 2, CAMERA: 5}
GT_ONLY = (VELOCITY, CAMERA)
TYPE_NAMES = ['', 'TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_SIGN', 'TYPE_CYCLIST']
PART_NAMES = {OBJECT_TYPE: [''], RANGE: ['[0, 30)', '[30, 50)', '[50, +inf)'],
              VELOCITY: ['STATIONARY', 'SLOW', 'MEDIUM', 'FAST', 'VERY_FAST'],
              SIZE: ['small', 'large'],
              CAMERA: ['FRONT', 'FRONT-LEFT', 'FRONT-RIGHT', 'SIDE-LEFT', 'SIDE-RIGHT']}
GEN_NAMES = {ONE_SHARD: 'ONE_SHARD', OBJECT_TYPE: 'OBJECT_TYPE', RANGE: 'RANGE',
             VELOCITY: 'VELOCITY', ALL_BUT_SIGN: 'ALL_BUT_SIGN', SIZE: 'SIZE', CAMERA: 'CAMERA'}


def n_shards(gen):
  return 1 if gen == ONE_SHARD else 2 if gen == ALL_BUT_SIGN else 4 * PER_TYPE[gen]


def shard_name(gen, s):
  if gen == ONE_SHARD:
    return 'ONE_SHARD'
  if gen == ALL_BUT_SIGN:
    return ['ALL_BUT_SIGN', 'SIGN'][s]
  k = PER_TYPE[gen]
  part = PART_NAMES[gen][s % k]
  return '_'.join([GEN_NAMES[gen], TYPE_NAMES[s // k + 1]] + ([part] if part else []))


def bin_of(x, edges):
  """Index of the half-open bin."""
  return sum(x >= e for e in edges)


def fov_cameras(o):
  deg = math.degrees(math.atan2(o['b'][1], o['b'][0]))
  return [k for k, mid in enumerate([0, 45, -45, 90, -90]) if abs(deg - mid) < 25.2]


def edge_of(gen, o):
  """Too close to a boundary to tell from double rounding."""
  b = o['b']
  if gen == RANGE:
    r = math.sqrt(b[0] ** 2 + b[1] ** 2 + b[2] ** 2)
    return r not in (30.0, 50.0) and min(abs(r - 30), abs(r - 50)) < 1e-9
  if gen == CAMERA:
    deg = math.degrees(math.atan2(b[1], b[0]))
    return any(abs(abs(deg - m) - 25.2) < 1e-9 for m in (0, 45, -45, 90, -90))
  if gen == VELOCITY:
    v = math.hypot(*(o.get('v') or (0, 0)))
    return any(abs(v - x) < 1e-7 for x in (0.2, ))
  return False


def part(gen, o):
  """Which part of its type's shards the object is in (None: none)."""
  b = o['b']
  if gen == OBJECT_TYPE:
    return 0
  if gen == RANGE:
    return bin_of(math.sqrt(b[0] ** 2 + b[1] ** 2 + b[2] ** 2), (30, 50))
  if gen == SIZE:
    return bin_of(max(b[3:6]), (7, ))
  if gen == VELOCITY:
    return bin_of(math.hypot(*(o.get('v') or (0, 0))), (f32(0.2), 1, 3, 10))
  if o.get('cam') is not None:
    return o['cam'] - 1 if 1 <= o['cam'] <= 5 else None
  if o.get('vis') is not None:
    return VIS.index(o['vis']) if o['vis'] in VIS else None
  c = fov_cameras(o)
  return c[0] if c else None


def shard(gen, o):
  if gen == ONE_SHARD:
    return 0
  if gen == ALL_BUT_SIGN:
    return int(o['t'] == 3)
  if o['t'] == 0:
    return -1
  p = part(gen, o)
  return -1 if p is None else (o['t'] - 1) * PER_TYPE[gen] + p


def shards_for_matching(gen, o):
  """Shards in which the object takes part in the detection matching."""
  if gen not in GT_ONLY:
    s = shard(gen, o)
    return [s] if s >= 0 else []
  if o['t'] == 0:
    return []
  base = (o['t'] - 1) * 5
  if gen == VELOCITY:
    return [base + k for k in range(5)]
  if o.get('cam') is not None:
    return [s for s in [shard(gen, o)] if s >= 0]
  return [base + k for k in fov_cameras(o)]


def custom_iou(draw, c):
  """Now and then the IoU comes from a custom function, of the box type the
  case is about, and the configuration names another box type."""
  if not c.get('let') and draw(st.integers(0, 5)) == 0:
    c['via'] = draw(st.sampled_from([k for k in KINDS if k != c['kind']]))


def unknown_types(draw, gens, frames):
  """Now and then one type becomes unknown: such objects are in no shard (a
  breakdown that does have them refuses to match them)."""
  if any(g in (ONE_SHARD, ALL_BUT_SIGN) for g, _ in gens) or draw(st.integers(0, 5)):
    return
  t = draw(st.sampled_from([1, 2, 4, 3]))
  for f in frames:
    for o in f['p'] + f['g']:
      o['t'] = o['t'] if o['t'] != t else 0


def custom_args(case):
  from vlib.driver import i
  return [i(case['kind'])] if case.get('via') else []


def config_proto(case):
  """case: gens [(generator, [levels])], cut, thr, kind, type, and options."""
  c = wod.pb('protos.metrics_pb2').Config()
  for g, levels in case['gens']:
    c.breakdown_generator_ids.append(g)
    c.difficulties.add().levels.extend(levels)
  c.score_cutoffs.extend(case.get('cut', []))
  if case.get('ncut'):
    c.num_desired_score_cutoffs = case['ncut']
  c.iou_thresholds.extend(case['thr'])
  c.box_type = case.get('via') or case['kind']
  c.matcher_type = case['type']
  if case.get('minha') is not None:
    c.min_heading_accuracy = case['minha']
  if case.get('minp') is not None:
    c.min_precision = case['minp']
  if case.get('delta') is not None:
    c.desired_recall_delta = case['delta']
  if case.get('details'):
    c.include_details_in_measurements = True
  if case.get('let'):
    fill_let(c, case['let'])
  return c


def fill_let(c, L):
  l = c.let_metric_config
  l.enabled = True
  l.sensor_location.x, l.sensor_location.y, l.sensor_location.z = L['s']
  l.longitudinal_tolerance_percentage = L['pct']
  l.min_longitudinal_tolerance_meter = L['tol']
  l.align_type = L['align']


@st.composite
def configs(draw, gens=None, cutoffs=True, tracking=False):
  gs = draw(st.lists(st.sampled_from(gens or GENERATORS), min_size=1, max_size=2, unique=True))
  out = dict(gens=[(g, draw(st.sampled_from([[], [1], [2], [1, 2], [2, 1]]))) for g in gs],
             thr=thresholds(draw), kind=draw(st.sampled_from([1, 1, 2, 3])),
             type=draw(st.sampled_from([1, 1, 2])))
  if cutoffs:
    out['cut'] = sorted(draw(st.lists(st.sampled_from(SCORES), min_size=1, max_size=3)))
  out['details'] = draw(st.booleans())
  return out


def levels_of(levels):
  return levels or [2]
