"""Sim agents metric features: kinematics, nearest object, time to collision, road edge, red lights."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub
from vlib.tfu import corners2d, hull, signed_distance

BIG = 1e10
DT = 0.1
FIELDS = ('x', 'y', 'z', 'length', 'width', 'height', 'heading')
STATE = dict(x='center_x', y='center_y', z='center_z')
STOP, ARROW_STOP = 4, 1


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset.protos import map_pb2, scenario_pb2, sim_agents_submission_pb2
  from waymo_open_dataset.utils.sim_agents import converters, submission_specs
  from waymo_open_dataset.wdl_limited.sim_agents_metrics import interaction_features, map_metric_features, metric_features, traffic_light_features, trajectory_features
  return dict(tf=tf, mp=map_pb2, sc=scenario_pb2, pb=sim_agents_submission_pb2, sp=submission_specs, co=converters,
              it=interaction_features, ma=map_metric_features, mf=metric_features, tl=traffic_light_features, tr=trajectory_features)


# ------------------------------------------------------------- kinematics


@st.composite
def motions(draw):
  return dict(n=draw(st.integers(1, 4)), t=draw(st.integers(3, 12)), seed=draw(tfu.seeds()), dt=draw(st.sampled_from([0.1, 0.1, 0.5, 1.0])),
              spin=draw(st.sampled_from([0.05, 0.7, 3.0])), far=draw(st.sampled_from([1.0, 50.0])))


def mod_close(ctx, got, want, period, atol, what):
  """Equal up to whole periods, in [-period/2, period/2]."""
  nan = np.isnan(want)
  ctx.equal(np.isnan(got).tolist(), nan.tolist(), what + ': undefined steps')
  g, w = got[~nan], want[~nan]
  d = (g - w) / period
  ctx.require(np.all(np.abs(d - np.round(d)) * period <= atol), lambda: '%s: %s, expected %s' % (what, g, w))
  ctx.require(np.all(np.abs(g) <= period / 2 + atol), lambda: '%s beyond half a turn: %s' % (what, g))


def diff(a):
  out = np.full(a.shape, np.nan)
  out[..., 1:-1] = (a[..., 2:] - a[..., :-2]) / 2
  return out


def kinematics(x, y, z, h, dt):
  v = np.sqrt(diff(x)**2 + diff(y)**2 + diff(z)**2) / dt
  turn = diff(h)
  return v, diff(v) / dt, turn, diff(tfu.wrap(turn * 2) / 2)


def judge_kinematics(ctx, got, want, dt, scale=50.0):
  v, a, w, al = want
  e = 3e-6 * scale
  ctx.close(got[0], v, 'speed', atol=e / dt, rtol=1e-5)
  ctx.close(got[1], a, 'acceleration', atol=2 * e / dt**2, rtol=1e-5)
  mod_close(ctx, got[2] * dt, w, np.pi, 2e-5, 'turn per step')
  # The second difference is only defined up to the branch of the first.
  ok = np.isnan(al) | True
  near = np.abs(np.abs(tfu.wrap(2 * w)) - np.pi) < 1e-3
  ok[..., 1:-1] &= ~(near[..., 2:] | near[..., :-2])
  al, g = np.where(ok, al, np.nan), np.where(ok, got[3] * dt * dt, np.nan)
  mod_close(ctx, g, al, np.pi, 4e-5, 'change of turn per step')


def check_kinematics(case, ctx):
  tf, tr = ctx.env['tf'], ctx.env['tr']
  rng = np.random.RandomState(case['seed'])
  n, t, dt = case['n'], case['t'], case['dt']
  xyz = (rng.uniform(-case['far'], case['far'], (3, n, 1)) + np.cumsum(rng.uniform(-2, 2, (3, n, t)), -1)).astype(np.float32)
  h = tfu.wrap(rng.uniform(-4, 4, (n, 1)) + np.cumsum(rng.uniform(-case['spin'], case['spin'], (n, t)), -1)).astype(np.float32)
  T = [tf.constant(a) for a in (*xyz, h)]
  got = [o.numpy().astype(float) for o in ctx.call(tr.compute_kinematic_features, *T, dt)]
  judge_kinematics(ctx, got, kinematics(*xyz.astype(float), h.astype(float), dt), dt)
  ok = rng.rand(n, t) < 0.7
  sv, av = ctx.call(tr.compute_kinematic_validity, tf.constant(ok))
  want = np.zeros((n, t), bool)
  want[:, 1:-1] = ok[:, 2:] & ok[:, :-2]
  ctx.equal(sv.numpy().tolist(), want.tolist(), 'speed validity')
  wa = np.zeros((n, t), bool)
  wa[:, 1:-1] = want[:, 2:] & want[:, :-2]
  ctx.equal(av.numpy().tolist(), wa.tolist(), 'acceleration validity')
  ref = rng.uniform(-5, 5, (3, n, t)).astype(np.float32) + xyz
  d = ctx.call(tr.compute_displacement_error, *T[:3], *[tf.constant(a) for a in ref])
  ctx.close(d.numpy(), np.sqrt(((xyz.astype(float) - ref)**2).sum(0)), 'displacement', atol=1e-4)
  ctx.nontrivial(n > 1 and t > 4)


# ------------------------------------------------------------- other objects


@st.composite
def traffic(draw):
  n = draw(st.integers(1, 5))
  return dict(n=n, t=draw(st.integers(3, 5)), seed=draw(tfu.seeds()), base=draw(st.sampled_from([0.0, 0.4, 3.14, -3.14, 1.57, 7.0])),
              spread=draw(st.sampled_from([0.05, 0.3, 1.5])), gap=draw(st.sampled_from([3.0, 9.0, 20.0])), lat=draw(st.sampled_from([0.3, 1.5, 6.0])),
              turns=draw(st.booleans()), ev=draw(st.lists(st.booleans(), min_size=n, max_size=n)), corner=draw(st.sampled_from([0.7, 0.7, 0.0, 0.3, 0.95])),
              valid=draw(st.sampled_from([1.0, 0.8])))


def make_traffic(case, n, t, rng):
  """Objects in a queue along a base direction -> [n, t, 7], valid."""
  base = case['base']
  s = rng.permutation(n)[:, None] * case['gap'] * rng.uniform(0.5, 1.3, (n, 1)) + np.cumsum(rng.uniform(-0.5, 3, (n, 1)) * DT * 10 * rng.uniform(0.9, 1.1, (n, t)), 1)
  lat = rng.uniform(-case['lat'], case['lat'], (n, 1)) + np.cumsum(rng.uniform(-0.05, 0.05, (n, t)), 1)
  h = base + rng.uniform(-case['spread'], case['spread'], (n, 1)) + np.cumsum(rng.uniform(-0.03, 0.03, (n, t)), 1)
  h = tfu.wrap(h)
  if case['turns']:
    h = h + rng.choice([0, 0, 2 * np.pi, -2 * np.pi, np.pi], (n, 1))
  b = np.zeros((n, t, 7))
  b[..., 0] = 5 + s * np.cos(base) - lat * np.sin(base)
  b[..., 1] = -3 + s * np.sin(base) + lat * np.cos(base)
  b[..., 2] = rng.uniform(-1, 1, (n, 1))
  b[..., 3:6] = rng.uniform(0.5, 5, (n, 1, 3))
  b[..., 6] = h
  return b.astype(np.float32), rng.rand(n, t) < case['valid']


def kw(tf, b, names=FIELDS):
  names_all = dict(x='center_x', y='center_y', z='center_z')
  return {names_all.get(f, f): tf.constant(b[..., k]) for k, f in enumerate(FIELDS) if f in names}


def nearest_object(b, ok, e, t, corner):
  """-> signed distance (None: undecided), float64."""
  if not ok[e, t]:
    return BIG
  def core(k):
    c = b[k, t].astype(float)
    r = min(c[3], c[4]) * corner / 2
    c[3:5] -= 2 * r
    return corners2d(c), r
  pe, re = core(e)
  best = BIG
  for k in range(len(b)):
    if k == e or not ok[k, t]:
      continue
    pk, rk = core(k)
    d = hull((pe[:, None] - pk[None]).reshape(-1, 2))
    best = min(best, signed_distance([0, 0], d) - re - rk)
  return best


def judge_nearest(ctx, got, b, ok, ev, corner, steps, what='distance to nearest object'):
  ctx.equal(got.shape[0], len(ev), what + ': rows')
  for q, e in enumerate(ev):
    for t in steps:
      want = nearest_object(b, ok, e, t, corner)
      g = float(got[q, t])
      ctx.require((g > BIG / 2) if want > BIG / 2 else abs(g - want) < 3e-3, '%s of object %d at step %d: %r, expected %r', what, e, t, g, want)


def time_to_collision(b, ok, e, t):
  """-> seconds, or None when a criterion is too close to call."""
  T = b.shape[1]
  if t == 0 or t == T - 1:
    return 5.0
  f = b.astype(float)
  speed = lambda k: np.hypot(*(f[k, t + 1, :2] - f[k, t - 1, :2])) / (2 * DT)
  h = f[e, t, 6]
  best = []
  for k in range(len(b)):
    if not ok[k, t]:
      continue
    p = f[k, t, :2] - f[e, t, :2]
    yaw = abs(tfu.wrap(f[k, t, 6] - h))
    c, s = abs(math.cos(yaw)), abs(math.sin(yaw))
    lon = math.cos(h) * p[0] + math.sin(h) * p[1] - f[e, t, 3] / 2 - (f[k, t, 3] * c + f[k, t, 4] * s) / 2
    lat = abs(-math.sin(h) * p[0] + math.cos(h) * p[1]) - f[e, t, 4] / 2 - (f[k, t, 3] * s + f[k, t, 4] * c) / 2
    if lon < -0.01:
      continue
    if lon < 0.01 or abs(lat) < 1e-3 or abs(lat + 0.5) < 1e-3 or abs(yaw - math.radians(75)) < 1e-3 or abs(yaw - math.radians(10)) < 1e-3:
      return None
    if yaw < math.radians(75) and lat < 0 and (lat < -0.5 or yaw < math.radians(10)):
      best.append((lon, k))
  if not best:
    return 5.0
  best.sort()
  if len(best) > 1 and best[1][0] - best[0][0] < 1e-3:
    return None
  rel = speed(e) - speed(best[0][1])
  if abs(rel) < 2e-3 and best[0][0] < 0.05:
    return None
  if rel <= 0:
    return 5.0
  return min(5.0, best[0][0] / rel)


def judge_ttc(ctx, got, b, ok, ev, steps, only_valid=True):
  seen = 0
  for q, e in enumerate(ev):
    for t in steps:
      if only_valid and not ok[e, t]:
        continue
      want = time_to_collision(b, ok, e, t)
      if want is None:
        ctx.label('ttc too close to call')
        continue
      g = float(got[q, t])
      seen += want < 5
      ctx.require(abs(g - want) < 2e-3 + 0.01 * want, 'time to collision of object %d at step %d: %r, expected %r', e, t, g, want)
  return seen


def check_objects(case, ctx):
  tf, it = ctx.env['tf'], ctx.env['it']
  rng = np.random.RandomState(case['seed'])
  n, t = case['n'], case['t']
  b, ok = make_traffic(case, n, t, rng)
  ev = [k for k in range(n) if case['ev'][k]]
  if not ev:
    ev, case = [0], dict(case, ev=[True] + case['ev'][1:])
  mask = tf.constant(np.array(case['ev']))
  got = ctx.call(it.compute_distance_to_nearest_object, **kw(tf, b), valid=tf.constant(ok), evaluated_object_mask=mask, corner_rounding_factor=case['corner']).numpy()
  judge_nearest(ctx, got, b, ok, ev, case['corner'], range(t))
  d7 = ctx.call(it.compute_distance_to_nearest_object, **kw(tf, b), valid=tf.constant(ok), evaluated_object_mask=mask).numpy()
  judge_nearest(ctx, d7, b, ok, ev, 0.7, [t // 2], 'default distance')
  ttc = ctx.call(it.compute_time_to_collision_with_object_in_front, **kw(tf, b, ('x', 'y', 'length', 'width', 'heading')),
                 valid=tf.constant(ok), evaluated_object_mask=mask, seconds_per_step=DT).numpy()
  ctx.equal(ttc.shape, (len(ev), t), 'shape of time to collision')
  if judge_ttc(ctx, ttc, b, ok, ev, range(t)):
    ctx.label('a collision ahead')
  if np.any(got < 0):
    ctx.label('a collision')
  ctx.nontrivial(n > 1)


# ------------------------------------------------------------- road edges


@st.composite
def roads(draw):
  return dict(n=draw(st.integers(1, 3)), t=draw(st.integers(1, 2)), seed=draw(tfu.seeds()), ev=draw(st.booleans()),
              lines=draw(st.lists(st.tuples(st.sampled_from(['open', 'open', 'ring', 'hole', 'gap', 'point']), st.integers(2, 8)), min_size=1, max_size=4)),
              layers=draw(st.booleans()))


def make_line(kind, m, rng, layers):
  c = rng.uniform(-15, 15, 2)
  z = float(rng.choice([-1, 0, 6])) if layers else 0.0
  if kind == 'point':
    p = c[None]
  elif kind == 'open':
    a = rng.uniform(-np.pi, np.pi) + np.cumsum(rng.uniform(-1.2, 1.2, m))
    l = rng.uniform(2, 8, m)
    p = c + np.cumsum(np.stack([l * np.cos(a), l * np.sin(a)], -1), 0)
    if np.hypot(*(p[0] - p[-1])) < 1.5:
      p = p[:2]
  else:
    m = max(m, 4)
    a = np.sort(rng.uniform(0, 2 * np.pi / m * 0.6, m) + np.arange(m) * 2 * np.pi / m)
    r = rng.uniform(4, 14, m)
    if rng.rand() < 0.5:
      r[rng.randint(2)::2] *= 0.35  # star shaped
    p = c + np.stack([r * np.cos(a), r * np.sin(a)], -1)
    if kind == 'hole':
      p = p[::-1]
    p = np.concatenate([p, p[:1] + (0.4 / math.sqrt(2) if kind == 'gap' else 0)])
  return np.concatenate([p, z + rng.uniform(-0.2, 0.2, (len(p), 1))], 1) if kind == 'open' else np.concatenate([p, np.full((len(p), 1), z)], 1)


def polyline(mp, p):
  return [mp.MapPoint(x=float(a[0]), y=float(a[1]), z=float(a[2])) for a in p]


def corner_candidates(p, lines):
  """Signed distances that qualify for one 3D point."""
  out = []
  for pts in lines:
    m = len(pts) - 1
    if m < 1:
      continue
    cyc = ((pts[0] - pts[-1])**2).sum() < 1.0
    for k in range(m):
      a, b = pts[k], pts[k + 1]
      e = (b - a)[:2]
      t = ((p - a)[:2] @ e) / (e @ e)
      tc = min(1.0, max(0.0, t))
      w = (p - a) - tc * (b - a)
      d3 = math.sqrt(w[0]**2 + w[1]**2 + 9 * w[2]**2)
      d2 = math.hypot(w[0], w[1])
      side = (p - a)[0] * e[1] - (p - a)[1] * e[0]  # > 0: right of the segment
      signs = {1} if side > 0 else {-1}
      if abs(side) / math.hypot(*e) < 2e-3:
        signs = {-1, 0, 1}
      # Nearest to a corner of the line: inside is the sector on the left, from
      # the outgoing direction counter-clockwise to the incoming segment.
      j = None
      if t < 0 and (k > 0 or cyc):
        j, vin, vout = k, (pts[k] - pts[k - 1] if k else pts[m] - pts[m - 1])[:2], e
      elif t > 1 and (k < m - 1 or cyc):
        j, vin, vout = k + 1, e, (pts[k + 2] - pts[k + 1] if k < m - 1 else pts[1] - pts[0])[:2]
      if j is not None:
        gap = j in (0, m) and ((pts[0] - pts[-1])**2).sum() > 1e-6
        q = (p - pts[j])[:2]
        ang = lambda u, v: math.atan2(u[0] * v[1] - u[1] * v[0], u @ v) % (2 * math.pi)
        aq, ai = ang(vout, q), ang(vout, -vin)
        if gap or d2 < 5e-3 or min(abs(aq - ai), aq, 2 * math.pi - aq) < 2e-3 or min(ai, 2 * math.pi - ai) < 1e-2:
          signs = {-1, 0, 1}
        else:
          signs = {-1} if aq < ai else {1}
      elif abs(t) < 1e-4 or abs(t - 1) < 1e-4:
        signs = {-1, 0, 1} if d2 < 5e-3 else signs
      out.append((d3, {s * d2 for s in signs}))
  lo = min(o[0] for o in out)
  return set().union(*[o[1] for o in out if o[0] < lo + 2e-3])


def judge_road(ctx, got, b, ok, ev, lines, steps):
  for q, e in enumerate(ev):
    for t in steps:
      g = float(got[q, t])
      if not ok[e, t]:
        ctx.require(g < -BIG / 2, 'distance to road edge of an invalid box is %r', g)
        continue
      c = corners2d(b[e, t].astype(float))
      z = float(b[e, t, 2]) - float(b[e, t, 5]) / 2
      cand = [corner_candidates(np.array([*xy, z]), lines) for xy in c]
      good = any(abs(g - v) < 5e-3 and all(min(w) <= g + 5e-3 for w in cand) for s in cand for v in s)
      ctx.require(good, 'distance to road edge of object %d at step %d is %r; corners have %s', e, t, g, cand)


def check_road(case, ctx):
  tf, ma, mp = ctx.env['tf'], ctx.env['ma'], ctx.env['mp']
  rng = np.random.RandomState(case['seed'])
  n, t = case['n'], case['t']
  lines = [make_line(k, m, rng, case['layers']) for k, m in case['lines']]
  b = np.zeros((n, t, 7))
  b[..., :2] = rng.uniform(-18, 18, (n, t, 2))
  b[..., 3:6] = rng.uniform(0.5, 5, (n, t, 3))
  for k, j in np.ndindex(n, t):  # small boxes near a corner of a line
    if rng.rand() < 0.6:
      p = lines[rng.randint(len(lines))]
      b[k, j, :2] = p[rng.choice([0, rng.randint(len(p)), len(p) - 1]), :2] + rng.uniform(-2, 2, 2)
      b[k, j, 3:5] = rng.uniform(0.1, 0.6, 2)
  b[..., 2] = b[..., 5] / 2 + (rng.choice([-1, 0, 6], (n, t)) if case['layers'] else 0)
  b[..., 6] = rng.uniform(-7, 7, (n, t))
  b, ok = b.astype(np.float32), rng.rand(n, t) < 0.85
  ev = list(range(n)) if case['ev'] else [n - 1]
  mask = tf.constant(np.isin(np.arange(n), ev))
  polys = [polyline(mp, p) for p in lines]
  args = dict(**kw(tf, b), valid=tf.constant(ok), evaluated_object_mask=mask)
  if all(len(p) < 2 for p in lines):
    ctx.label('no usable line')
    return
  try:
    ma.compute_distance_to_road_edge(**args, road_edge_polylines=[])
    ctx.fail('a missing road edge was accepted')
  except ValueError:
    pass
  got = ctx.call(ma.compute_distance_to_road_edge, **args, road_edge_polylines=polys).numpy()
  ctx.equal(got.shape, (len(ev), t), 'shape')
  judge_road(ctx, got, b, ok, ev, lines, range(t))
  ctx.nontrivial(len([p for p in lines if len(p) > 1]) > 1 and bool(ok[ev].any()))


# ------------------------------------------------------------- red lights


@st.composite
def lights(draw):
  return dict(n=draw(st.integers(1, 3)), t=draw(st.integers(2, 8)), seed=draw(tfu.seeds()), lanes=draw(st.integers(1, 4)), flip=draw(st.booleans()),
              state=draw(st.sampled_from(['stop', 'stop', 'mixed'])), missing=draw(st.booleans()), stray=draw(st.booleans()), short=draw(st.booleans()))


def make_lanes(case, rng):
  """-> [points], ids, stop points (one per lane)"""
  base = rng.uniform(-np.pi, np.pi)
  off = rng.uniform(-40, 40, 2)
  lines, stops = [], []
  for k in range(case['lanes']):
    m = rng.randint(3, 7)
    if case['short'] and rng.rand() < 0.15:
      m = 1
    s = np.cumsum(rng.uniform(3, 9, m))
    a = np.cumsum(rng.uniform(-0.15, 0.15, m))
    p = np.stack([s, 4.0 * k + a], -1)
    rot = np.array([[np.cos(base), -np.sin(base)], [np.sin(base), np.cos(base)]])
    p = p @ rot.T + off
    lines.append(np.concatenate([p, np.zeros((m, 1))], 1))
    j, u = rng.randint(max(1, m - 1)), rng.choice([rng.rand(), rng.rand(), 0.0])
    stops.append(p[j] + u * (p[min(j + 1, m - 1)] - p[j]) + rng.uniform(-0.2, 0.2, 2) * (u > 0))
  return lines, (rng.permutation(5 * case['lanes'])[:case['lanes']] + 1).tolist(), stops, base, off


def seg_dist(p, a, b):
  e = b - a
  t = min(1.0, max(0.0, (p - a) @ e / (e @ e)))
  return np.hypot(*(p - a - t * e))


def red_light(xy, ok, t, lines, ids, signals):
  """-> bool, or None when undecided; xy: [T, 2], signals: per step {lane: (state, stop)}"""
  if not ok[t] or t == 0:
    return False
  per = {i: min(seg_dist(xy[t], p[k, :2], p[k + 1, :2]) for k in range(len(p) - 1)) for i, p in zip(ids, lines) if len(p) > 1}
  lo = min(per.values())
  res = set()
  for lane, d in per.items():
    if d > lo + 2e-3:
      continue
    if lane not in signals[t]:
      res.add(False)
      continue
    state, stop = signals[t][lane]
    if state not in (STOP, ARROW_STOP):
      res.add(False)
      continue
    if not ok[t - 1] or lane not in signals[t - 1]:
      return None
    p = lines[ids.index(lane)]
    ds = [seg_dist(stop, p[k, :2], p[k + 1, :2]) for k in range(len(p) - 1)]
    for k in range(len(ds)):
      if ds[k] > min(ds) + 2e-3:
        continue
      e = p[k + 1, :2] - p[k, :2]
      u = e / np.hypot(*e)
      s0, s1 = (xy[t - 1] - stop) @ u, (xy[t] - stop) @ u
      if min(abs(s0), abs(s1)) < 1e-3:
        return None
      res.add(bool(s0 < 0 < s1))
  return res.pop() if len(res) == 1 else None


def judge_red(ctx, got, xy, ok, ev, lines, ids, signals, steps):
  hits = 0
  for q, e in enumerate(ev):
    for t in steps:
      want = red_light(xy[e].astype(float), ok[e], t, lines, ids, signals)
      if want is None:
        ctx.label('red light too close to call')
        continue
      hits += want
      ctx.require(bool(got[q, t]) == want, 'red light violation of object %d at step %d: %s, expected %s', e, t, bool(got[q, t]), want)
  return hits


def signal_protos(mp, signals):
  out = []
  for step in signals:
    out.append([mp.TrafficSignalLaneState(lane=l, state=s, stop_point=mp.MapPoint(x=float(p[0]), y=float(p[1]))) for l, (s, p) in step.items()])
  return out


def make_signals(case, rng, t, ids, stops):
  signals = []
  lit = [i for i in ids if rng.rand() < 0.8] or ids[:1]
  for _ in range(t):
    step = {}
    for i in rng.permutation(lit):
      if case['missing'] and rng.rand() < 0.15:
        continue
      step[int(i)] = (int(rng.choice([STOP, ARROW_STOP])) if case['state'] == 'stop' else int(rng.randint(0, 9)), stops[ids.index(i)].astype(np.float32).astype(float))
    if case['stray']:
      step[1000] = (STOP, rng.uniform(-10, 10, 2))
    signals.append(step)
  return signals


def drive(case, rng, n, t, lines, stops, base):
  """Objects passing the stop points, mostly along the lanes."""
  d = np.array([np.cos(base), np.sin(base)])
  xy = np.zeros((n, t, 2))
  for k in range(n):
    w = rng.randint(len(lines))
    back = rng.rand() < 0.15
    s = np.cumsum(rng.uniform(0, 4, t))
    s -= rng.choice([s[t // 2], s[-1], 0]) + rng.uniform(-2, 1)
    xy[k] = stops[w] + (s[:, None] * (-1 if back else 1)) * d + rng.uniform(-1.6, 1.6) * np.array([-d[1], d[0]])
  return xy.astype(np.float32)


def check_lights(case, ctx):
  tf, tl, mp = ctx.env['tf'], ctx.env['tl'], ctx.env['mp']
  rng = np.random.RandomState(case['seed'])
  n, t = case['n'], case['t']
  lines, ids, stops, base, _ = make_lanes(case, rng)
  if all(len(p) < 2 for p in lines):
    return
  signals = make_signals(case, rng, t, ids, stops)
  xy = drive(case, rng, n, t, lines, stops, base)
  ok = rng.rand(n, t) < 0.92
  ev = [k for k in range(n) if rng.rand() < 0.8] or [0]
  polys = [polyline(mp, p) for p in lines]
  args = dict(center_x=tf.constant(xy[..., 0]), center_y=tf.constant(xy[..., 1]), valid=tf.constant(ok), evaluated_object_mask=tf.constant(np.isin(np.arange(n), ev)))
  got = ctx.call(tl.compute_red_light_violation, **args, lane_polylines=polys, lane_ids=ids, traffic_signals=signal_protos(mp, signals)).numpy()
  ctx.equal(got.shape, (len(ev), t), 'shape')
  if judge_red(ctx, got, xy, ok, ev, lines, ids, signals, range(t)):
    ctx.label('a violation')
    ctx.nontrivial(len(lines) > 1)
  for bad in (dict(lane_polylines=[], lane_ids=[]), dict(lane_ids=ids + [77]), dict(traffic_signals=[])):
    try:
      tl.compute_red_light_violation(**args, **dict(dict(lane_polylines=polys, lane_ids=ids, traffic_signals=signal_protos(mp, signals)), **bad))
      ctx.fail('accepted %s' % bad)
    except ValueError:
      pass


# ------------------------------------------------------------- whole scenes


@st.composite
def scenes(draw):
  n = draw(st.integers(1, 4))
  c = draw(traffic())
  c.update(n=n, gen=draw(st.booleans()), sdc=draw(st.integers(0, n - 1)), predict=draw(st.lists(st.integers(0, n - 1), max_size=3)),
           gone=draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), lanes=draw(st.integers(0, 3)), short=False, state=draw(st.sampled_from(['stop', 'mixed'])),
           missing=False, stray=draw(st.booleans()), lines=draw(roads())['lines'], layers=False, steps=draw(tfu.seeds()), signals=draw(st.sampled_from([True, True, False])))
  return c


def check_scene(case, ctx):
  env = ctx.env
  tf, mp, sp = env['tf'], env['mp'], env['sp']
  rng = np.random.RandomState(case['seed'])
  n, T, now = case['n'], 91, 10
  log, ok = make_traffic(case, n, T, rng)
  log[..., :2] += 0.0
  needed = {case['sdc'], *case['predict']}
  gone = [k for k in range(n) if case['gone'][k] == 0 and k not in needed]
  ok[:, now] = True
  ok[gone, now] = False
  lines = [make_line(k, m, rng, False) for k, m in case['lines']]
  if all(len(p) < 2 for p in lines):
    lines = [make_line('open', 3, rng, False)]
  ids = (rng.permutation(4 * n)[:n] + 1).tolist()
  s = env['sc'].Scenario(scenario_id='s', sdc_track_index=case['sdc'], current_time_index=now)
  for k in case['predict']:
    s.tracks_to_predict.add(track_index=k)
  types = rng.randint(1, 5, n)
  for k in range(n):
    tr = s.tracks.add(id=ids[k], object_type=int(types[k]))
    for t in range(T):
      tr.states.add(valid=bool(ok[k, t]), **{STATE.get(f, f): float(log[k, t, q]) for q, f in enumerate(FIELDS)})
  s.timestamps_seconds.extend(DT * t for t in range(T))
  lanes, lane_ids, stops, base = [], [], [], 0.0
  if case['lanes']:
    lanes, lane_ids, stops, base, _ = make_lanes(case, rng)
  signals = make_signals(case, rng, T, lane_ids, stops) if lanes and case['signals'] else []
  for p in lines:
    s.map_features.add(id=int(rng.randint(500, 600))).road_edge.polyline.extend(polyline(mp, p))
  for i, p in zip(lane_ids, lanes):
    f = s.map_features.add(id=int(i))
    f.lane.type = mp.LaneCenter.TYPE_SURFACE_STREET
    f.lane.polyline.extend(polyline(mp, p))
  if lanes:  # nearer to everything, but no street
    f = s.map_features.add(id=900)
    f.lane.type = mp.LaneCenter.TYPE_BIKE_LANE
    f.lane.polyline.extend(polyline(mp, lanes[0] + [0.5, 0.3, 0]))
  for step in signal_protos(mp, signals):
    s.dynamic_map_states.add().lane_states.extend(step)
  sim = [k for k in range(n) if k not in gone]
  order = [sim[k] for k in rng.permutation(len(sim))]
  kind = sp.ChallengeType.SCENARIO_GEN if case['gen'] else sp.ChallengeType.SIM_AGENTS
  ev_ids = [int(i) for i in sp.get_evaluation_sim_agent_ids(s, kind)]
  ev = [ids.index(i) for i in ev_ids]
  first = 0 if case['gen'] else now + 1
  scenes_, sims = [], []
  for _ in range(2):
    new, _ = make_traffic(dict(case, base=case['base'] + rng.choice([0, 0.2])), n, T, rng)
    if lanes:
      new[..., :2] = drive(case, rng, n, T, lanes, stops, base)
    if not case['gen']:
      new[:, :first] = log[:, :first]
      new[..., 3:6] = log[:, now, None, 3:6]
    js = env['pb'].JointScene()
    for k in order:
      t = js.simulated_trajectories.add(object_id=ids[k])
      if case['gen']:
        t.object_type = int(types[k])
        t.valid.extend([True] * T)
      for q, f in enumerate(FIELDS):
        if case['gen'] or f in ('x', 'y', 'z', 'heading'):
          getattr(t, STATE.get(f, f)).extend(new[k, first:, q].tolist())
    scenes_.append(js)
    sims.append(new)
  roll = env['pb'].ScenarioRollouts(scenario_id='s', joint_scenes=scenes_)
  lf, sf = ctx.call(env['mf'].compute_scenario_rollouts_features, s, roll, kind)
  pick = np.random.RandomState(case['steps'])
  hits = 0
  for feat, rows in ((lf, [(log, ok)]), (sf, [(x, None) for x in sims])):
    ctx.equal(feat.object_id.numpy().tolist(), ev_ids, 'evaluated objects')
    for r, (b, okl) in enumerate(rows):
      g = {f: getattr(feat, f).numpy() for f in feat.__dataclass_fields__ if f != 'object_id'}
      for f in g:
        ctx.equal(g[f].shape[0], len(rows), 'samples of ' + f)
      b = b.astype(np.float32).copy()
      if case['gen']:  # objects valid now count as valid throughout
        okv = np.ones((n, T), bool)
        okv[gone] = False
        show = okl if okl is not None else okv
      else:
        okv = ok.copy()
        if okl is None:
          okv[:, first:] = True
        show = okv
        # Boxes of the simulated steps have the size of the current step.
        b[:, first:, 3:6] = b[:, now, None, 3:6]
        okv = okv.copy()
        okv[gone] = False
      ctx.equal(g['valid'][r].tolist(), show[ev][:, first:].tolist(), 'validity')
      ctx.equal(g['object_type'][r].tolist(), types[ev].tolist(), 'types')
      f8 = b[ev].astype(float)
      kin = kinematics(f8[..., 0], f8[..., 1], f8[..., 2], f8[..., 6], DT)
      judge_kinematics(ctx, [g[q][r].astype(float) for q in ('linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration')],
                       [a[:, first:] for a in kin], DT, 200.0)
      if case['gen']:
        ctx.require(not g['average_displacement_error'][r].any(), 'displacement error without a logged counterpart')
      else:
        d = np.sqrt(((f8[..., :3] - log[ev][..., :3].astype(float))**2).sum(-1))
        ctx.close(g['average_displacement_error'][r], (d * ok[ev]).sum(1) / ok[ev].sum(1), 'average displacement error', atol=2e-3, rtol=1e-4)
      steps = sorted({first, T - 2, *(int(v) for v in pick.randint(first + 1, T - 1, 3))})
      pad = lambda a: np.concatenate([np.zeros((len(ev), first), a.dtype), a], 1)
      got = pad(g['distance_to_nearest_object'][r])
      judge_nearest(ctx, got, b, okv, ev, 0.7, steps)
      near = np.abs(got) < 1e-6
      ctx.require(np.all((pad(g['collision_per_step'][r]) == (got < 0))[:, first:]), 'collisions do not match distances')
      judge_ttc(ctx, pad(g['time_to_collision'][r]), b, okv, ev, steps)
      road = pad(g['distance_to_road_edge'][r])
      judge_road(ctx, road, b, okv, ev, lines, steps[:3])
      ctx.require(np.all((pad(g['offroad_per_step'][r]) == (road > 0))[:, first:]), 'off-road does not match distances')
      red = pad(g['traffic_light_violation_per_step'][r])
      if lanes and signals:
        hits += judge_red(ctx, red, b[..., :2], okv, ev, lanes, lane_ids, signals, range(first, T))
      else:
        ctx.require(not red.any(), 'red light violation without lights')
  if hits:
    ctx.label('a red light violation')
  ctx.nontrivial(len(sim) > 1)


SUBS = [
    Sub('kinematics', motions, check_kinematics, 1600, rule='two or more objects over five or more steps'),
    Sub('objects', traffic, check_objects, 1600, rule='two or more objects'),
    Sub('road_edge', roads, check_road, 1200, rule='two or more road edges and a valid box'),
    Sub('red_light', lights, check_lights, 2000, rule='a violation among several lanes'),
    Sub('scene', scenes, check_scene, 240, rule='two or more simulated objects'),
]
