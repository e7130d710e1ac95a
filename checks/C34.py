"""Occupancy and flow grids: rendering, waypoints, trails, metrics."""
import colorsys
import math

import numpy as np
from hypothesis import strategies as st

from vlib import tfu, wod
from vlib.core import Sub

TYPES = (1, 2, 3)
NAMES = {1: 'vehicles', 2: 'pedestrians', 3: 'cyclists'}
TIMES = (('past',), ('current',), ('future',), ('past', 'current'), ('current', 'future'), ('past', 'current', 'future'))


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from waymo_open_dataset.protos import occupancy_flow_metrics_pb2
  from waymo_open_dataset.utils import occupancy_flow_data, occupancy_flow_grids, occupancy_flow_metrics, occupancy_flow_renderer, occupancy_flow_vis
  return dict(tf=tf, pb=occupancy_flow_metrics_pb2, da=occupancy_flow_data, gr=occupancy_flow_grids, me=occupancy_flow_metrics,
              re=occupancy_flow_renderer, vi=occupancy_flow_vis)


# ------------------------------------------------------------- scenes


@st.composite
def scenes(draw, flow=False):
  way = draw(st.sampled_from([1, 2, 3]))
  k = draw(st.integers(1, 3))
  past = draw(st.integers(max(way - 1, 1), 4))
  return dict(
      b=draw(st.integers(1, 2)), n=draw(st.integers(1, 4)), past=past, future=way * k, k=k, seed=draw(tfu.seeds()),
      h=draw(st.integers(6, 30)), w=draw(st.integers(6, 30)), ppm=draw(st.sampled_from([0.5, 1.0, 3.2])),
      pl=draw(st.sampled_from([1, 2, 5, 9])), pw=draw(st.sampled_from([1, 2, 4])), turn=draw(st.booleans()), cumulative=draw(st.booleans()),
      far=draw(st.sampled_from([0.0, 1000.0])), gaps=draw(st.sampled_from([0.0, 0.3, 0.6])),
      times=draw(st.sampled_from(TIMES if not flow else TIMES[-1:])),
      seen=draw(st.sampled_from([(True, True), (True, False), (False, True), (True, False), (False, True), (False, False)])))


def make(case, ctx):
  """(config, inputs as float32 arrays)."""
  rng = np.random.RandomState(case['seed'])
  b, n = case['b'], case['n']
  steps = dict(past=case['past'], current=1, future=case['future'])
  t = sum(steps.values())
  cfg = ctx.env['pb'].OccupancyFlowTaskConfig(
      num_past_steps=case['past'], num_future_steps=case['future'], num_waypoints=case['k'], cumulative_waypoints=case['cumulative'],
      normalize_sdc_yaw=case['turn'], grid_height_cells=case['h'], grid_width_cells=case['w'], pixels_per_meter=case['ppm'],
      sdc_x_in_grid=int(rng.randint(0, case['w'])), sdc_y_in_grid=int(rng.randint(0, case['h'])),
      agent_points_per_side_length=case['pl'], agent_points_per_side_width=case['pw'])
  size = max(case['h'], case['w']) / case['ppm']
  origin = rng.uniform(-1, 1, (b, 1, 1)) * case['far']
  x0 = rng.uniform(-0.6, 0.6, (b, n, 1)) * size
  y0 = rng.uniform(-0.6, 0.6, (b, n, 1)) * size
  vx, vy = rng.uniform(-0.1, 0.1, (2, b, n, 1)) * size
  if rng.rand() < 0.3:
    vx[:, 0] = vy[:, 0] = 0
  s = np.arange(t)
  yaw = rng.uniform(-4, 4, (b, n, 1)) + rng.uniform(-0.3, 0.3, (b, n, 1)) * s
  full = dict(x=origin + x0 + vx * s, y=-origin + y0 + vy * s, z=rng.uniform(-2, 2, (b, n, t)), bbox_yaw=yaw,
              length=rng.uniform(0.1, 0.4, (b, n, 1)) * size * np.ones(t), width=rng.uniform(0.05, 0.2, (b, n, 1)) * size * np.ones(t))
  full = {k: v.astype(np.float32) for k, v in full.items()}
  valid = (rng.rand(b, n, t) >= case['gaps']).astype(np.int64)
  for i, j in np.ndindex(b, n):
    mode = rng.randint(5)
    if mode == 0:  # Appears after the current step.
      valid[i, j, :case['past'] + 1] = 0
    elif mode == 1:  # Seen in the past only, and again later.
      valid[i, j, case['past']] = 0
      valid[i, j, rng.randint(case['past'])] = 1
  full['valid'] = valid
  inputs = {}
  at = 0
  for name in ('past', 'current', 'future'):
    for k, v in full.items():
      inputs['state/%s/%s' % (name, k)] = v[:, :, at:at + steps[name]]
    at += steps[name]
  inputs['state/type'] = rng.choice([-1, 0, 1, 2, 3, 4, 1, 2, 3], (b, n)).astype(np.float32)
  sdc = np.zeros((b, n), np.int64)
  sdc[np.arange(b), rng.randint(0, n, b)] = 1
  inputs['state/is_sdc'] = sdc
  r = rng.randint(1, 30)
  inputs['roadgraph_samples/xyz'] = (rng.uniform(-0.7, 0.7, (b, r, 3)) * size + np.concatenate([origin, -origin, 0 * origin], -1)).astype(np.float32)
  inputs['roadgraph_samples/valid'] = (rng.rand(b, r, 1) < 0.8).astype(np.int64)
  return cfg, inputs, sdc


def tensors(case, ctx, inputs, sdc):
  tf = ctx.env['tf']
  got = ctx.call(ctx.env['da'].add_sdc_fields, {k: tf.constant(v) for k, v in inputs.items()})
  rows = np.arange(len(sdc)), sdc.argmax(1)
  out = {}
  for f in ('x', 'y', 'z', 'bbox_yaw'):
    out[f] = inputs['state/current/' + f][rows]
    ctx.equal(got['sdc/current/' + f].numpy().tolist(), out[f].tolist(), 'current %s of the autonomous vehicle' % f)
  return got, out


def pixels(cfg, x, y, sdc):
  """float64 pixel coordinates before rounding; x, y: [b, ...]."""
  x, y = np.asarray(x, float), np.asarray(y, float)
  s = (slice(None),) + (None,) * (x.ndim - 1)
  x, y = x - sdc['x'].astype(float)[:, 0][s], y - sdc['y'].astype(float)[:, 0][s]
  if cfg.normalize_sdc_yaw:
    a = (math.pi / 2 - sdc['bbox_yaw'].astype(float)[:, 0])[s]
    x, y = np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y
  return x * cfg.pixels_per_meter, -y * cfg.pixels_per_meter


def agent_points(cfg, inputs, times, sdc):
  """Pixel coordinates [b, n, t, points] (float64) of the points of every box, and validity."""
  f = {k: np.concatenate([inputs['state/%s/%s' % (t, k)] for t in times], -1).astype(float)[..., None] for k in ('x', 'y', 'bbox_yaw', 'length', 'width', 'valid')}
  side = lambda m: np.linspace(-0.5, 0.5, m) if m > 1 else np.zeros(1)
  u, v = [g.ravel() for g in np.meshgrid(side(cfg.agent_points_per_side_length), side(cfg.agent_points_per_side_width), indexing='ij')]
  c, s = np.cos(f['bbox_yaw']), np.sin(f['bbox_yaw'])
  x = f['x'] + c * f['length'] * u - s * f['width'] * v
  y = f['y'] + s * f['length'] * u + c * f['width'] * v
  px, py = pixels(cfg, x, y, sdc)
  return px, py, f['valid'][..., 0] > 0


def rounded(p, tol):
  """(rounded, clear): clear where rounding does not depend on tiny errors."""
  return np.rint(p), np.abs(p - np.floor(p) - 0.5) > tol


def tolerance(case, cfg):
  return (2e-4 if case['far'] else 1e-5) * max(1.0, cfg.pixels_per_meter) * 4


def observed(inputs):
  return (inputs['state/past/valid'].max(-1) > 0) | (inputs['state/current/valid'].max(-1) > 0)


def keep(inputs, times, seen):
  """[b, n] which agents are rendered."""
  ob = observed(inputs)
  if seen == (True, True) or 'future' not in times:
    return np.ones_like(ob)
  return ob if seen[0] else ~ob


def occupancy(case, cfg, inputs, times, seen, sdc):
  """{type: (must, may)} boolean grids [b, h, w, t]."""
  px, py, valid = agent_points(cfg, inputs, times, sdc)
  tol = tolerance(case, cfg)
  out = {}
  k = keep(inputs, times, seen)
  shape = (case['b'], cfg.grid_height_cells, cfg.grid_width_cells, px.shape[2])
  for ty in TYPES:
    must, may = np.zeros(shape, bool), np.zeros(shape, bool)
    use = valid & k[..., None] & (inputs['state/type'] == ty)[..., None]
    for b, a, t in np.argwhere(use):
      x, y = px[b, a, t], py[b, a, t]
      (rx, cx), (ry, cy) = rounded(x, tol), rounded(y, tol)
      for i in range(len(x)):
        xs = {int(np.rint(x[i] + e)) for e in ((0,) if cx[i] else (-tol, tol))}
        ys = {int(np.rint(y[i] + e)) for e in ((0,) if cy[i] else (-tol, tol))}
        for gx in xs:
          for gy in ys:
            col, row = gx + cfg.sdc_x_in_grid, gy + cfg.sdc_y_in_grid
            if 0 <= col < shape[2] and 0 <= row < shape[1]:
              may[b, row, col, t] = True
              must[b, row, col, t] |= len(xs) * len(ys) == 1
    out[ty] = must, may
  return out


def judge_occupancy(ctx, got, want, what):
  must, may = want
  ctx.equal(list(got.shape), list(may.shape), what + ': shape')
  ctx.require(got.dtype == np.float32 and np.all((got == 0) | (got == 1)), '%s: cells other than 0 and 1', what)
  for name, bad in (('empty', must & (got == 0)), ('occupied', ~may & (got == 1))):
    if bad.any():
      ctx.fail('%s: cell %s is %s' % (what, np.argwhere(bad)[0].tolist(), name))


def check_occupancy(case, ctx):
  cfg, inputs, sdc = make(case, ctx)
  t, s = tensors(case, ctx, inputs, sdc)
  seen, times = case['seen'], list(case['times'])
  if seen == (False, False) and 'future' in times:
    try:
      ctx.env['re'].render_occupancy_from_inputs(t, times, cfg, *seen)
    except ValueError:
      return
    ctx.fail('rendering neither observed nor occluded agents is accepted')
  got = ctx.call(ctx.env['re'].render_occupancy_from_inputs, t, times, cfg, include_observed=seen[0], include_occluded=seen[1])
  want = occupancy(case, cfg, inputs, times, seen, s)
  for ty in TYPES:
    g = got.view(ty)
    ctx.require(g is getattr(got, NAMES[ty]), 'view of type %s', ty)
    judge_occupancy(ctx, g.numpy(), want[ty], NAMES[ty])
  ctx.nontrivial(any(w[0].any() for w in want.values()))


# ------------------------------------------------------------- flow


def flows(case, cfg, inputs, seen, sdc):
  """{type: (flow [b, h, w, t, 2], decided [b, h, w, t])} over all steps but the first waypoint's."""
  times = ['past', 'current', 'future']
  px, py, valid = agent_points(cfg, inputs, times, sdc)
  tol = tolerance(case, cfg)
  size = cfg.num_future_steps // cfg.num_waypoints
  k = keep(inputs, times, seen)
  t = px.shape[2] - size
  (rx, cx), (ry, cy) = rounded(px, tol), rounded(py, tol)
  out = {}
  for ty in TYPES:
    shape = (case['b'], cfg.grid_height_cells, cfg.grid_width_cells, t)
    total, count, clear = np.zeros(shape + (2,)), np.zeros(shape), np.ones(shape, bool)
    use = valid[..., size:] & valid[..., :-size] & k[..., None] & (inputs['state/type'] == ty)[..., None]
    for b, a, i in np.argwhere(use):
      j = i + size
      for q in range(px.shape[-1]):
        ok = cx[b, a, i, q] and cx[b, a, j, q] and cy[b, a, i, q] and cy[b, a, j, q]
        x, y = px[b, a, j, q], py[b, a, j, q]
        for gx in {int(np.rint(x - tol)), int(np.rint(x + tol))}:
          for gy in {int(np.rint(y - tol)), int(np.rint(y + tol))}:
            col, row = gx + cfg.sdc_x_in_grid, gy + cfg.sdc_y_in_grid
            if not (0 <= col < shape[2] and 0 <= row < shape[1]):
              continue
            clear[b, row, col, i] &= ok
            total[b, row, col, i] += rx[b, a, i, q] - rx[b, a, j, q], ry[b, a, i, q] - ry[b, a, j, q]
            count[b, row, col, i] += 1
    out[ty] = total / np.maximum(count, 1)[..., None], clear
  return out


def judge_flow(ctx, got, want, what):
  flow, clear = want
  ctx.equal(list(got.shape), list(flow.shape), what + ': shape')
  bad = (np.abs(got - flow) > 1e-4).any(-1) & clear
  if bad.any():
    i = tuple(np.argwhere(bad)[0])
    ctx.fail('%s at %s is %s, expected %s' % (what, list(map(int, i)), got[i].tolist(), flow[i].tolist()))


def check_flow(case, ctx):
  cfg, inputs, sdc = make(case, ctx)
  t, s = tensors(case, ctx, inputs, sdc)
  seen = case['seen'] if any(case['seen']) else (True, True)
  got = ctx.call(ctx.env['re'].render_flow_from_inputs, t, ['past', 'current', 'future'], cfg, include_observed=seen[0], include_occluded=seen[1])
  want = flows(case, cfg, inputs, seen, s)
  for ty in TYPES:
    judge_flow(ctx, got.view(ty).numpy(), want[ty], 'flow of ' + NAMES[ty])
  ctx.nontrivial(any(w[0].any() for w in want.values()))


# ------------------------------------------------------------- grids over time


def check_timesteps(case, ctx):
  """All grids of a scene, its road graph and trails."""
  gr = ctx.env['gr']
  cfg, inputs, sdc = make(case, ctx)
  t, s = tensors(case, ctx, inputs, sdc)
  g = ctx.call(gr.create_ground_truth_timestep_grids, t, cfg)
  every = (True, True)
  plan = (('current_occupancy', ['current'], every), ('past_occupancy', ['past'], every), ('future_observed_occupancy', ['future'], (True, False)),
          ('future_occluded_occupancy', ['future'], (False, True)), ('all_occupancy', ['past', 'current', 'future'], every))
  busy = False
  for field, times, seen in plan:
    want = occupancy(case, cfg, inputs, times, seen, s)
    for ty in TYPES:
      judge_occupancy(ctx, getattr(g.view(ty), field).numpy(), want[ty], '%s of %s' % (field, NAMES[ty]))
      busy = busy or want[ty][0].any()
  want = flows(case, cfg, inputs, every, s)
  for ty in TYPES:
    judge_flow(ctx, g.view(ty).all_flow.numpy(), want[ty], 'all_flow of ' + NAMES[ty])
  # Road points.
  vis = ctx.call(gr.create_ground_truth_vis_grids, t, g, cfg)
  xyz = inputs['roadgraph_samples/xyz']
  px, py = pixels(cfg, xyz[..., 0], xyz[..., 1], s)
  tol = tolerance(case, cfg)
  must, may = np.zeros((2, case['b'], case['h'], case['w'], 1), bool)
  for b, i in np.argwhere(inputs['roadgraph_samples/valid'][..., 0] > 0):
    cells = {(int(np.rint(py[b, i] + e)) + cfg.sdc_y_in_grid, int(np.rint(px[b, i] + d)) + cfg.sdc_x_in_grid) for e in (-tol, tol) for d in (-tol, tol)}
    for row, col in cells:
      if 0 <= row < case['h'] and 0 <= col < case['w']:
        may[b, row, col] = True
        must[b, row, col] |= len(cells) == 1
  judge_occupancy(ctx, vis.roadgraph.numpy(), (must, may), 'road points')
  # Trails: every agent type, each step weighs less the older it is.
  trail = np.zeros((case['b'], case['h'], case['w'], 1))
  for i in range(case['past']):
    trail = np.clip(trail * 0.8 + sum(g.view(ty).past_occupancy.numpy()[..., i:i + 1] for ty in TYPES), 0, 1)
  trail = np.clip(trail * 0.64 + sum(g.view(ty).current_occupancy.numpy() for ty in TYPES), 0, 1)
  ctx.close(vis.agent_trails.numpy(), trail, 'trails', atol=1e-5)
  ctx.nontrivial(busy)


# ------------------------------------------------------------- waypoints


@st.composite
def stacks(draw):
  way, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 5)), w=draw(st.integers(1, 5)), k=k, future=way * k + draw(st.sampled_from([0, 0, 0, 0, 1])),
              past=draw(st.integers(0, 5)), cumulative=draw(st.booleans()), dense=draw(st.sampled_from([0.2, 0.6, 0.95])), seed=draw(tfu.seeds()))


def check_waypoints(case, ctx):
  """Waypoints sample or aggregate the future steps."""
  tf, gr = ctx.env['tf'], ctx.env['gr']
  rng = np.random.RandomState(case['seed'])
  b, h, w, k, fut, past = [case[x] for x in ('b', 'h', 'w', 'k', 'future', 'past')]
  size = fut // k
  cfg = ctx.env['pb'].OccupancyFlowTaskConfig(num_past_steps=past, num_future_steps=fut, num_waypoints=k, cumulative_waypoints=case['cumulative'],
                                              grid_height_cells=h, grid_width_cells=w)
  grid = lambda *t: (rng.rand(b, h, w, *t) < case['dense']).astype(np.float32)
  data = {}
  ts = gr.TimestepGrids()
  for ty in TYPES:
    flow_steps = max(past + 1 + fut - size, 0)
    d = dict(current_occupancy=grid(1), past_occupancy=grid(past), future_observed_occupancy=grid(fut), future_occluded_occupancy=grid(fut),
             all_occupancy=grid(past + 1 + fut), all_flow=(rng.uniform(-5, 5, (b, h, w, flow_steps, 2)) * (rng.rand(b, h, w, flow_steps, 2) < 0.6)).astype(np.float32))
    data[ty] = d
    for f, v in d.items():
      setattr(ts.view(ty), f, tf.constant(v))
  if fut % k or size > past + 1:
    try:
      gr.create_ground_truth_waypoint_grids(ts, cfg)
    except ValueError:
      return
    ctx.fail('%d future steps in %d waypoints after %d past steps are accepted' % (fut, k, past))
  got = ctx.call(gr.create_ground_truth_waypoint_grids, ts, cfg)
  for ty in TYPES:
    d, g = data[ty], got.view(ty)
    origin = d['all_occupancy'][..., past + 1 - size:past + 1 - size + fut]
    flow = d['all_flow'][..., past + 1 - size:past + 1 - size + fut, :].astype(float)
    for f in ('observed_occupancy', 'occluded_occupancy', 'flow_origin_occupancy', 'flow'):
      ctx.equal(len(getattr(g, f)), k, 'waypoints of %s' % f)
    for i in range(k):
      sl = slice(i * size, (i + 1) * size)
      for f, src in (('observed_occupancy', d['future_observed_occupancy']), ('occluded_occupancy', d['future_occluded_occupancy']), ('flow_origin_occupancy', origin)):
        want = src[..., sl].max(-1) if case['cumulative'] else src[..., sl][..., -1]
        ctx.equal(getattr(g, f)[i].numpy().tolist(), want[..., None].tolist(), lambda: '%s of %s at waypoint %d' % (f, NAMES[ty], i))
      seg = flow[..., sl, :]
      want = seg.sum(-2) / np.maximum((seg != 0).sum(-2), 1) if case['cumulative'] else seg[..., -1, :]
      ctx.close(g.flow[i].numpy(), want, 'flow of %s at waypoint %d' % (NAMES[ty], i), atol=1e-5)
  for i in range(k):
    for f, call in (('observed_occupancy', got.get_observed_occupancy_at_waypoint), ('occluded_occupancy', got.get_occluded_occupancy_at_waypoint), ('flow', got.get_flow_at_waypoint)):
      a = ctx.call(call, i)
      for ty in TYPES:
        ctx.require(a.view(ty) is getattr(got.view(ty), f)[i], '%s of %s at waypoint %d', f, NAMES[ty], i)
  for x in (got, ts, a):
    for ty in (0, 4):
      try:
        x.view(ty)
      except ValueError:
        continue
      ctx.fail('a view of type %d is returned' % ty)
  # A model may leave a type out.
  drop = TYPES[rng.randint(3)]
  for f in ('observed_occupancy', 'occluded_occupancy', 'flow'):
    setattr(got.view(drop), f, [])
  for call in (got.get_observed_occupancy_at_waypoint, got.get_occluded_occupancy_at_waypoint, got.get_flow_at_waypoint):
    a = ctx.call(call, 0)
    for ty in TYPES:
      ctx.require((a.view(ty) is None) == (ty == drop), 'a type that was left out at a waypoint')
  ctx.nontrivial(k > 1 and size > 1)


# ------------------------------------------------------------- metrics


@st.composite
def scores(draw):
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 6)), w=draw(st.integers(1, 6)), k=draw(st.integers(1, 4)), seed=draw(tfu.seeds()),
              dense=draw(st.sampled_from([0.0, 0.1, 0.5])))


def iou(t, p):
  t, p = t.astype(float), p.astype(float)
  i = (t * p).mean()
  u = t.mean() + p.mean() - i
  return i / u if u else 0.0


def epe(t, p):
  on = (t != 0).any(-1)
  return float(np.sqrt(((t - p).astype(float)**2).sum(-1))[on].mean()) if on.any() else 0.0


def check_metrics(case, ctx):
  """Overlap and end point error of waypoints; the means leave out waypoints without ground truth."""
  tf, me, gr = ctx.env['tf'], ctx.env['me'], ctx.env['gr']
  rng = np.random.RandomState(case['seed'])
  b, h, w, k = case['b'], case['h'], case['w'], case['k']
  cfg = ctx.env['pb'].OccupancyFlowTaskConfig(num_waypoints=k, grid_height_cells=h, grid_width_cells=w)
  true, pred = gr.WaypointGrids(), gr.WaypointGrids()
  warped, aucs = [], []
  for i in range(k):
    empty = rng.rand(2) < 0.35
    for j, f in enumerate(('observed_occupancy', 'occluded_occupancy')):
      getattr(true.vehicles, f).append(((rng.rand(b, h, w, 1) < case['dense']) & ~empty[j]).astype(np.float32))
      getattr(pred.vehicles, f).append((rng.rand(b, h, w, 1) * (rng.rand(b, h, w, 1) < 0.7)).astype(np.float32))
    true.vehicles.flow.append((rng.uniform(-5, 5, (b, h, w, 2)) * (rng.rand(b, h, w, 2) < 0.5)).astype(np.float32))
    pred.vehicles.flow.append(rng.uniform(-5, 5, (b, h, w, 2)).astype(np.float32))
    warped.append(rng.rand(b, h, w, 1).astype(np.float32))
  T, P = true.vehicles, pred.vehicles
  for i in range(k):
    for f in ('observed_occupancy', 'occluded_occupancy'):
      if hasattr(me, '_compute_occupancy_soft_iou'):
        t, p = getattr(T, f)[i], getattr(P, f)[i]
        ctx.close(float(ctx.call(me._compute_occupancy_soft_iou, tf.constant(t), tf.constant(p))), iou(t, p), 'overlap', atol=1e-5)
        ctx.close(float(ctx.call(me._compute_occupancy_soft_iou, tf.constant(t), tf.constant(t))), float(t.any()), 'overlap with itself', atol=1e-5)
    if hasattr(me, '_compute_flow_epe'):
      t, p = T.flow[i], P.flow[i]
      ctx.close(float(ctx.call(me._compute_flow_epe, tf.constant(t), tf.constant(p))), epe(t, p), 'end point error', atol=1e-4)
      ctx.equal(float(ctx.call(me._compute_flow_epe, tf.constant(t), tf.constant(t))), 0.0, 'end point error of the truth')
  # The warp is switched off in this release: a stand-in for it shows the rest.
  if not (hasattr(me, '_flow_warp') and hasattr(me, '_compute_occupancy_auc')):
    ctx.label('undecided')
    return
  seen = []

  def auc(true_occupancy, pred_occupancy):
    t, p = np.asarray(true_occupancy.numpy(), float), np.asarray(pred_occupancy.numpy(), float)
    seen.append((t, p))
    return tf.constant(np.float32((t * 2 + p).sum()))
  old = me._flow_warp, me._compute_occupancy_auc
  tensor = lambda g: setattr_all(tf, g)
  try:
    me._flow_warp = lambda **kw: [tf.constant(x) for x in warped]
    me._compute_occupancy_auc = auc
    got = ctx.call(me.compute_occupancy_flow_metrics, cfg, tensor(true), tensor(pred))
  finally:
    me._flow_warp, me._compute_occupancy_auc = old
  fake = lambda t, p: float((t.astype(float) * 2 + p).sum())
  obs, occ, flo = [], [], []
  for i in range(k):
    a, c = T.observed_occupancy[i].numpy(), T.occluded_occupancy[i].numpy()
    pa, pc = P.observed_occupancy[i].numpy(), P.occluded_occupancy[i].numpy()
    if a.any():
      obs.append((fake(a, pa), iou(a, pa)))
    if c.any():
      occ.append((fake(c, pc), iou(c, pc)))
    was = (True, True) if i == 0 else (T.observed_occupancy[i - 1].numpy().any(), T.occluded_occupancy[i - 1].numpy().any())
    if (a.any() and was[0]) or (c.any() and was[1]):
      both, pb = np.clip(a + c, 0, 1), np.clip(pa + pc, 0, 1) * warped[i]
      flo.append((epe(T.flow[i].numpy(), P.flow[i].numpy()), fake(both, pb), iou(both, pb)))
  ctx.equal([got.num_waypoints_with_observed_occupancy, got.num_waypoints_with_occluded_occupancy, got.num_waypoints_with_flow], [len(obs), len(occ), len(flo)],
            'waypoints with ground truth')
  mean = lambda rows, j: sum(r[j] for r in rows) / len(rows) if rows else 0.0
  for f, want in (('vehicles_observed_auc', mean(obs, 0)), ('vehicles_observed_iou', mean(obs, 1)), ('vehicles_occluded_auc', mean(occ, 0)), ('vehicles_occluded_iou', mean(occ, 1)),
                  ('vehicles_flow_epe', mean(flo, 0)), ('vehicles_flow_warped_occupancy_auc', mean(flo, 1)), ('vehicles_flow_warped_occupancy_iou', mean(flo, 2))):
    ctx.close(getattr(got, f), want, f, atol=1e-4, rtol=1e-5)
  ctx.nontrivial(bool(obs) and len(flo) < k)


def setattr_all(tf, g):
  for f in ('observed_occupancy', 'occluded_occupancy', 'flow'):
    setattr(g.vehicles, f, [tf.constant(x) for x in getattr(g.vehicles, f)])
  return g


# ------------------------------------------------------------- pictures


@st.composite
def pictures(draw):
  return dict(b=draw(st.integers(1, 2)), h=draw(st.integers(1, 5)), w=draw(st.integers(1, 5)), seed=draw(tfu.seeds()), gamma=draw(st.sampled_from([1.0, 1.6])),
              types=draw(st.sets(st.sampled_from(TYPES))), still=draw(st.booleans()))


def check_pictures(case, ctx):
  tf, vi, da = ctx.env['tf'], ctx.env['vi'], ctx.env['da']
  rng = np.random.RandomState(case['seed'])
  shape = case['b'], case['h'], case['w'], 1
  grid = lambda: (rng.rand(*shape) * (rng.rand(*shape) < 0.7)).astype(np.float32)
  road, trail = np.round(grid()), grid()
  agents = da.AgentGrids()
  data = {}
  for ty in case['types']:
    data[ty] = grid()
    setattr(agents, NAMES[ty], tf.constant(data[ty]))
  got = ctx.call(vi.occupancy_rgb_image, agents, tf.constant(road), case['gamma']).numpy()
  img = np.ones(shape[:-1] + (3,))
  img *= 1 - road
  for ty, colour in ((1, (1, 0, 0)), (2, (0, 0.67, 0)), (3, (0, 0, 1))):
    if ty in data:
      a = data[ty].astype(float)**(1 / case['gamma'])
      # The colour itself fades with the probability, and so does its layer.
      img = a * (a * np.array(colour)) + (1 - a) * img
  ctx.close(got, img, 'occupancy picture', atol=2e-5)
  flow = rng.uniform(-3, 3, shape[:-1] + (2,)).astype(np.float32)
  flow[rng.rand(*shape[:-1]) < 0.3] = 0
  if case['still']:
    flow[0] = 0
  got = ctx.call(vi.flow_rgb_image, tf.constant(flow), tf.constant(road), tf.constant(trail)).numpy()
  want = np.zeros(shape[:-1] + (3,))
  for i in np.ndindex(*shape[:-1]):
    top = np.sqrt((flow[i[0]].astype(float)**2).sum(-1)).max()
    dy, dx = flow[i].astype(float)
    want[i] = colorsys.hsv_to_rgb((math.atan2(dy, dx) % (2 * math.pi)) / (2 * math.pi), math.hypot(dx, dy) / top if top else 0.0, 1.0)
  want = want * (1 - road) * (1 - 0.2 * trail)
  ctx.close(got, want, 'flow picture', atol=3e-5)
  ctx.nontrivial(len(data) > 1)


# --------------------------------------------------- motion examples


def layout():
  """The documented layout of a motion tf.Example: name -> (kind, shape)."""
  out = {'scenario/id': ('bytes', ())}
  for name, width in (('dir', 3), ('id', 1), ('type', 1), ('valid', 1), ('xyz', 3)):
    out['roadgraph_samples/' + name] = ('float' if width == 3 else 'int64', (20000, width))
  for name in ('id', 'type'):
    out['state/' + name] = ('float', (128,))
  for name in ('is_sdc', 'tracks_to_predict'):
    out['state/' + name] = ('int64', (128,))
  for when, steps in (('past', 10), ('current', 1), ('future', 80)):
    for name in ('bbox_yaw', 'height', 'length', 'timestamp_micros', 'valid', 'vel_yaw', 'velocity_x', 'velocity_y', 'width', 'x', 'y', 'z'):
      out['state/%s/%s' % (when, name)] = ('int64' if name in ('timestamp_micros', 'valid') else 'float', (128, steps))
    if when != 'future':
      for name in ('state', 'valid', 'x', 'y', 'z'):
        out['traffic_light_state/%s/%s' % (when, name)] = ('int64' if name in ('state', 'valid') else 'float', (steps, 16))
  return out


LAYOUT = layout()


@st.composite
def examples(draw):
  return dict(seed=draw(tfu.seeds()), extra=draw(st.booleans()), flaw=draw(st.sampled_from(['none', 'none', 'missing', 'short', 'kind'])),
              at=draw(st.sampled_from(sorted(LAYOUT))), sdc=draw(st.integers(0, 127)))


def check_parse(case, ctx):
  from waymo_open_dataset_standin import example_pb2
  tf, da = ctx.env['tf'], ctx.env['da']
  rng = np.random.RandomState(case['seed'])
  ex = example_pb2.Example()
  want = {}
  for name, (kind, shape) in LAYOUT.items():
    n = int(np.prod(shape))
    if kind == 'bytes':
      v = b'scenario %d' % case['seed']
      vals = [v]
    elif kind == 'int64':
      v = rng.randint(-1, 1000, shape).astype(np.int64)
      if name == 'state/is_sdc':
        v = (np.arange(128) == case['sdc']).astype(np.int64)
      vals = v.ravel().tolist()
    else:
      v = rng.uniform(-1000, 1000, shape).astype(np.float32)
      vals = v.ravel().tolist()
    want[name] = v
    if name == case['at'] and case['flaw'] != 'none':
      if case['flaw'] == 'missing':
        continue
      if case['flaw'] == 'short':
        vals = vals[:-1] if n > 1 else vals * 2
      else:
        kind, vals = ('int64', [1] * n) if kind != 'int64' else ('float', [1.0] * n)
    getattr(ex.features.feature[name], kind + '_list').value.extend(vals)
  if case['extra']:
    ex.features.feature['other/feature'].int64_list.value.append(1)
  data = tf.constant(ex.SerializeToString())
  if case['flaw'] != 'none':
    ctx.nontrivial()
    ctx.label(case['flaw'])
    try:
      da.parse_tf_example(data)
    except tf.errors.InvalidArgumentError:
      return
    ctx.fail('an example whose feature %s is %s was parsed' % (case['at'], case['flaw']))
  got = ctx.call(da.parse_tf_example, data)
  ctx.equal(sorted(got), sorted(LAYOUT), 'features')
  for name, v in want.items():
    g = got[name].numpy()
    if name == 'scenario/id':
      ctx.equal(g, v, name)
      continue
    ctx.equal((g.shape, g.dtype), (v.shape, v.dtype), name)
    ctx.require(np.array_equal(g, v), '%s differs', name)
  batch = {k: tf.constant(np.stack([v.numpy()] * 2)) for k, v in got.items() if k != 'scenario/id'}
  out = ctx.call(da.add_sdc_fields, batch)
  for f in ('x', 'y', 'z', 'bbox_yaw'):
    ctx.close(out['sdc/current/' + f].numpy(), np.full((2, 1), want['state/current/' + f][case['sdc'], 0]), 'sdc ' + f, 0, 0)


SUBS = [
    Sub('occupancy', scenes, check_occupancy, 1500, rule='some cell is occupied'),
    Sub('flow', lambda: scenes(flow=True), check_flow, 600, rule='some cell moves'),
    Sub('timesteps', lambda: scenes(flow=True), check_timesteps, 250, rule='some cell is occupied'),
    Sub('waypoints', stacks, check_waypoints, 2000, rule='several waypoints of several steps'),
    Sub('metrics', scores, check_metrics, 1000, rule='ground truth at some waypoints only'),
    Sub('pictures', pictures, check_pictures, 600, rule='several agent types'),
    Sub('parse', examples, check_parse, 48, 400, rule='an example with one flawed feature'),
]
