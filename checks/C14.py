"""mAP and soft mAP: samples, trajectory shapes, curves and their areas."""
import math

from hypothesis import strategies as st

from vlib import drv, geo, motion, wod
from vlib.core import Sub
from vlib.driver import d, i, pack, ud, ui, unpack
from vlib.motion import f32

prepare = drv.prepare('motion_driver')
close_env = drv.close_env
NAMES = ('map', 'soft')


def open_env(env):
  wod.setup()
  return drv.open_env(env)


def check(case, ctx):
  cfg, sc = case['cfg'], case['sc']
  want = motion.reference(cfg, [sc])
  motion.compare(ctx, motion.run(ctx, cfg, sc), want, NAMES)
  for w in want.values():
    if w.bad & {'match', 'shape'}:
      continue
    ctx.label(*['shape %d' % b for b in w.map])
    for b in w.map:
      if len(w.map[b][1]) != len(w.soft[b][1]):
        ctx.label('several matches')
        ctx.nontrivial()


def joint3():
  return motion.cases(min_tracks=2, joint=3)


def check_moved(case, ctx):
  motion.check_moved(case, ctx, NAMES)


# ---- shapes ---------------------------------------------------------------
@st.composite
def shape_cases(draw):
  n = draw(st.integers(1, 8))
  now = draw(st.integers(0, n - 1))
  end_h = draw(st.sampled_from([0.0, 0.5, 0.55, -0.5, -0.55, 1.5, -1.5, 3.0, -3.0]))
  lon = draw(st.sampled_from([0.0, 1.0, 2.9, 3.1, 20.0, -0.2, -5.0]))
  lat = draw(st.sampled_from([0.0, 0.1, 1.0, 2.4, 2.6, 9.0])) * draw(st.sampled_from([1, -1]))
  h = draw(st.one_of(st.sampled_from([0.0, math.pi - 0.1, -math.pi + 0.1]), geo.f(-7, 7)))
  x, y = draw(geo.f(-50, 50)), draw(geo.f(-50, 50))
  vs = draw(st.sampled_from([0.0, 1.9, 2.1, 8.0])), draw(st.sampled_from([0.0, 1.9, 2.1, 8.0]))
  last = draw(st.integers(now, n - 1))
  states, valid = [], []
  for t in range(n):
    k = 0.0 if t <= now else 1.0 if t >= last else 0.5
    c, s = math.cos(h), math.sin(h)
    hh = h + k * end_h + draw(st.sampled_from([0.0, 0.0, 2 * math.pi]))
    v = vs[0] if t <= now else vs[1]
    states.append([x + k * (lon * c - lat * s), y + k * (lon * s + lat * c), f32(hh), f32(v * math.cos(hh)),
                   f32(v * math.sin(hh)), 4.0, 2.0])
    valid.append(t <= last if draw(st.integers(0, 9)) else False)
  return dict(now=now, tr=dict(id=1, t=1, s=states, v=valid))


def check_shape(case, ctx):
  got = ui(ctx.env['drv'].call('classify', i(case['now']), motion.track_proto(case['tr']).SerializeToString())[0])[0]
  want, bad = motion.classify(case['tr'], case['now'])
  if bad:
    ctx.label('skipped: on a threshold')
    return
  ctx.equal(got, -1 if want is None else want, 'shape of the track')
  ctx.label('shape %s' % want)
  ctx.nontrivial(want is not None and want != motion.STATIONARY)


# ---- curves ---------------------------------------------------------------
@st.composite
def samples(draw, max_size=12):
  s = draw(st.lists(st.tuples(st.one_of(st.integers(0, 8).map(lambda k: k / 8), geo.f(0, 1)), st.booleans()),
                    max_size=max_size))
  return s, max(1, sum(t for _, t in s) + draw(st.sampled_from([0, 0, 1, 3])))


def check_curve(case, ctx):
  s, n = case
  out = ctx.env['drv'].call('prcurve', d(*[c for c, _ in s]), i(*[int(t) for _, t in s]), i(n))
  rec, pre, conf, tp = [list(ud(x)) for x in out[:4]]
  o = sorted(s, key=lambda x: (-x[0], x[1]))
  ctx.equal(list(zip(conf, map(bool, tp))), [(f32(c), t) for c, t in o], 'sorted samples')
  run, r, p = 0, [], []
  for k, (_, t) in enumerate(o):
    run += t
    r.append(run / n)
    p.append(run / (k + 1))
  ctx.close(rec, r, 'recall', 1e-6, 1e-6)
  ctx.close(pre, p, 'precision', 1e-6, 1e-6)
  a = ud(out[4])[0]
  ctx.close(a, motion.area(s, n), 'area under the curve', 1e-5, 1e-5)
  ctx.require(-1e-6 <= a <= 1 + 1e-6, 'area %r outside [0, 1]', a)
  if s and all(t for _, t in s) and len(s) == n:
    ctx.close(a, 1.0, 'area when everything matches', 1e-6, 0)
    ctx.label('perfect')
  if not any(t for _, t in s):
    ctx.close(a, 0.0, 'area when nothing matches', 1e-9, 0)
  ctx.nontrivial(0 < sum(t for _, t in s) < len(s))


def map_cases():
  return st.lists(samples(6), max_size=8)


def check_map(case, ctx):
  out = ctx.env['drv'].call('mapmetric', pack([d(*[c for c, _ in s]) for s, _ in case]),
                            pack([i(*[int(t) for _, t in s]) for s, _ in case]), i(*[n for _, n in case]))
  ctx.close(ud(out[0])[0], motion.map_metric({k: (n, s) for k, (s, n) in enumerate(case)}), 'mAP', 1e-5, 1e-5)
  ctx.nontrivial(sum(bool(s) for s, _ in case) > 1)


# ---- end to end -----------------------------------------------------------
@st.composite
def sets(draw):
  cfg = draw(motion.configs(max_future=8))
  return dict(cfg=cfg, scs=[draw(motion.scenario(cfg, 's%d' % k, max_tracks=3))
                            for k in range(draw(st.integers(1, 4)))])


def check_sets(case, ctx):
  cfg, scs = case['cfg'], case['scs']
  M = wod.pb('protos.motion_metrics_pb2').MotionMetrics
  out = ctx.env['drv'].call('bundle', motion.config_proto(cfg).SerializeToString(),
                            pack([motion.predictions_proto(s).SerializeToString() for s in scs]),
                            pack([motion.scenario_proto(s).SerializeToString() for s in scs]),
                            i(*[0] * len(scs)), i(0))
  ctx.equal(ui(out[0])[0], 1, 'accepted')
  want = motion.reference(cfg, scs)
  bundles = M.FromString(out[1]).metrics_bundles
  ctx.equal(len(bundles), len(want), 'bundles')
  for b in bundles:
    w = want[(b.object_filter, b.measurement_step)]
    for v in (b.mean_average_precision, b.soft_mean_average_precision):
      ctx.require(-1e-6 <= v <= 1 + 1e-6, 'mAP %r outside [0, 1]', v)
    if w.bad & {'match', 'shape'}:
      ctx.label('skipped: on a threshold')
      continue
    m, s = motion.map_metric(w.map), motion.map_metric(w.soft)
    ctx.close(b.mean_average_precision, m, 'mAP', 1e-5, 1e-5)
    ctx.close(b.soft_mean_average_precision, s, 'soft mAP', 1e-5, 1e-5)
    if 0 < m < s:
      ctx.label('soft mAP differs')
    ctx.nontrivial(0 < m < 1)


SUBS = [
    Sub('scene', motion.cases, check, 4000, rule='several trajectories match'),
    Sub('joint', joint3, check, 3000, rule='several trajectories match'),
    Sub('moved', motion.moved_cases, check_moved, 1500, rule='two tracks, no comparison on a threshold'),
    Sub('shape', shape_cases, check_shape, 5000, rule='a moving track'),
    Sub('curve', samples, check_curve, 4000, rule='both matches and false positives'),
    Sub('map', map_cases, check_map, 1500, rule='two buckets with samples'),
    Sub('sets', sets, check_sets, 1500, rule='mAP strictly between 0 and 1'),
]
