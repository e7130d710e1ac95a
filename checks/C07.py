"""Breakdown shards, their names, and the results they label."""
import math

from hypothesis import strategies as st

from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import i, pack, ui, unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  from waymo_open_dataset.metrics.python import config_util_py
  return dict(drv.open_env(env), py=config_util_py)


# Exact boundary positions as well as random ones.
EXACT_RANGE = [(18.0, 24.0, 0.0), (30.0, 0.0, 0.0), (0.0, -50.0, 0.0), (30.0, 40.0, 0.0), (24.0, 32.0, 30.0),
               (10.0, 20.0, 20.0), (14.0, -48.0, 0.0), (29.999999, 0, 0), (50.000001, 0, 0)]
EXACT_SPEED = [(0.0, 0.0), (0.1875, 0.0), (0.25, 0.0), (1.0, 0.0), (0.0, -1.0), (3.0, 0.0), (-1.8, 2.4), (6.0, -8.0),
               (10.0, 0.0), (2.9999999, 0.0), (9.99999999, 0.0), (0.125, 0.125)]


@st.composite
def objects(draw):
  b = draw(st.one_of(st.sampled_from(EXACT_RANGE), st.tuples(geo.f(-60, 60), geo.f(-60, 60), geo.f(-20, 20)),
                     st.tuples(geo.f(-40, 40), geo.f(-40, 40), geo.f(-1, 1))))
  dims = [draw(st.one_of(st.sampled_from([7.0, 6.9999, 7.0001, 1.0, 2.0, 14.0]), geo.f(0.25, 9))) for _ in range(3)]
  o = dict(b=list(b) + dims + [draw(geo.heading)], t=draw(st.integers(0, 4)))
  if draw(st.integers(0, 3)):
    o['v'] = list(draw(st.one_of(st.sampled_from(EXACT_SPEED), st.tuples(geo.f(-12, 12), geo.f(-12, 12)),
                                 st.tuples(geo.f(-2, 2), geo.f(-2, 2)))))
  how = draw(st.integers(0, 3))
  if how == 0:
    o['cam'] = draw(st.integers(0, 8))
  elif how == 1:
    o['vis'] = draw(st.sampled_from(det.VIS + det.VIS + det.NOT_VIS))
  return o


@st.composite
def object_cases(draw):
  return dict(objs=draw(st.lists(objects(), min_size=1, max_size=8)))


def check_objects(case, ctx):
  dv = ctx.env['drv']
  objs = case['objs']
  for gen in det.GENERATORS:
    out = dv.call('shards', i(gen), det.packed(objs))
    got = [int(x) for x in ui(out[0])]
    multi = [[int(y) for y in ui(x)] for x in unpack(out[1])]
    for o, s, m in zip(objs, got, multi):
      m = [x for x in m if x >= 0]
      if det.edge_of(gen, o):
        continue
      ctx.require(s == det.shard(gen, o), 'generator %d: shard %d, expected %d for %s', gen, s, det.shard(gen, o), o)
      ctx.require(-1 <= s < det.n_shards(gen), 'shard out of range')
      ctx.require(sorted(m) == sorted(det.shards_for_matching(gen, o)) and len(set(m)) == len(m),
                  'generator %d: matching shards %s, expected %s for %s', gen, m, det.shards_for_matching(gen, o), o)
      if gen not in (det.CAMERA, det.ONE_SHARD, det.ALL_BUT_SIGN):
        ctx.require((s >= 0) == (o['t'] != 0), 'object of type %d in shard %d', o['t'], s)
  ctx.nontrivial(any(tuple(o['b'][:3]) in EXACT_RANGE or 7.0 in o['b'][3:6] or tuple(o.get('v', ())) in EXACT_SPEED
                     for o in objs if o['t']))
  for o in objs:
    ctx.label('camera' if o.get('cam') else 'most visible' if o.get('vis') else 'field of view')


@st.composite
def config_cases(draw):
  gens = draw(st.lists(st.sampled_from(det.GENERATORS), max_size=6))
  c = dict(gens=[(g, draw(st.lists(st.sampled_from([1, 2]), unique=True, max_size=2))) for g in gens],
           steps=draw(st.lists(st.integers(0, 90), max_size=5)),
           thr=[0.0, .5, .5, .5, .5], kind=1, type=1, cut=[0.5])
  return c


def check_config(case, ctx):
  dv = ctx.env['drv']
  M = wod.pb('protos.metrics_pb2')
  cfg = det.config_proto(case)
  raw = cfg.SerializeToString()
  names = [x.decode() for x in unpack(dv.call('names', raw)[0])]
  want, keys = [], []
  for gen, levels in case['gens']:
    info = dv.call('breakdown_info', i(gen))
    ctx.equal([int(ui(x)[0]) for x in info[:3]], [det.n_shards(gen), gen, int(gen in det.GT_ONLY)],
              'shards, id, ground-truth-only of generator %d' % gen)
    ctx.equal([x.decode() for x in unpack(info[3])], [det.shard_name(gen, s) for s in range(det.n_shards(gen))],
              'shard names of generator %d' % gen)
    for s in range(det.n_shards(gen)):
      for l in det.levels_of(levels):
        want.append('%s_LEVEL_%d' % (det.shard_name(gen, s), l))
        keys.append((gen, s, l))
  ctx.equal(names, want, 'breakdown names')
  ctx.equal(ctx.call(ctx.env['py'].get_breakdown_names_from_config, cfg), want, 'Python breakdown names')
  if len(set(g for g, _ in case['gens'])) == len(case['gens']):
    ctx.require(len(set(names)) == len(names), 'names are not distinct')
  # The results come in the same order, with no objects at all and with one.
  one = det.packed([dict(b=[5, 0, 0, 4, 2, 1.5, 0], t=1, s=0.75, dd=1, td=1, id='a', v=[0.5, 0])])
  for objs in (pack([]), one):
    D = [M.DetectionMetrics.FromString(x) for x in unpack(dv.call('det_metrics', raw, pack([objs]), pack([objs]))[0])]
    T = [M.TrackingMetrics.FromString(x) for x in
         unpack(dv.call('trk_metrics', raw, pack([pack([objs])]), pack([pack([objs])]))[0])]
    for ms in (D, T):
      ctx.equal([(m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level) for m in ms], keys,
                'breakdowns of the metrics')
    if objs is one:
      for k, (gen, s, l) in enumerate(keys):
        o = dict(b=[5, 0, 0, 4, 2, 1.5, 0], t=1, v=[0.5, 0])
        ctx.equal(D[k].measurements.measurements[0].num_tps, int(det.shard(gen, o) == s), 'true positives of %s' % names[k])
        ctx.equal(T[k].measurements.measurements[0].num_matches, int(det.shard(gen, o) == s), 'matches of %s' % names[k])
  ctx.nontrivial(len(case['gens']) > 1)
  # Motion names.
  mc = wod.pb('protos.motion_metrics_pb2').MotionMetricsConfig()
  for s in case['steps']:
    mc.step_configurations.add().measurement_step = s
  want = ['%s_%d' % (t, s) for t in ('TYPE_VEHICLE', 'TYPE_PEDESTRIAN', 'TYPE_CYCLIST') for s in case['steps']]
  ctx.equal([x.decode() for x in unpack(dv.call('motion_names', mc.SerializeToString())[0])], want, 'motion names')
  ctx.equal(ctx.call(ctx.env['py'].get_breakdown_names_from_motion_config, mc), want, 'Python motion names')


SUBS = [
    Sub('objects', object_cases, check_objects, 2500, rule='an object sits exactly on a boundary'),
    Sub('names', config_cases, check_config, 1200, rule='several generators'),
]
