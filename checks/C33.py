"""Sim agents likelihoods, scenario metrics and their aggregation."""
import glob
import math

import numpy as np
from hypothesis import strategies as st

from vlib import build, tfu, wod
from vlib.core import Sub

SERIES = ['linear_speed', 'linear_acceleration', 'angular_speed', 'angular_acceleration', 'distance_to_nearest_object', 'time_to_collision', 'distance_to_road_edge']
EVENTS = ['collision_indication', 'offroad_indication', 'traffic_light_violation']
PER_STEP = dict(collision_indication='collision_per_step', offroad_indication='offroad_per_step', traffic_light_violation='traffic_light_violation_per_step')
BUCKETS = dict(kinematic=SERIES[:4], interactive=['distance_to_nearest_object', 'collision_indication', 'time_to_collision'],
               map_based=['distance_to_road_edge', 'offroad_indication', 'traffic_light_violation'])
VEHICLE = 1


def prepare(tier):
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup(shim=True)
  import tensorflow as tf
  from google.protobuf import text_format
  from waymo_open_dataset.protos import sim_agents_metrics_pb2
  from waymo_open_dataset.wdl_limited.sim_agents_metrics import estimators, metric_features, metrics
  return dict(tf=tf, pb=sim_agents_metrics_pb2, es=estimators, mf=metric_features, me=metrics, text=text_format)


# ------------------------------------------------------------- oracle


def log_prob(kind, cfg, log, sim):
  """Log-likelihood of each of the 1D `log` under the 1D samples `sim`."""
  if kind == 'kernel_density':
    bw = cfg['bandwidth']
    z = -0.5 * ((log[:, None] - sim[None]) / bw)**2
    m = z.max(1)
    return m + np.log(np.exp(z - m[:, None]).mean(1))
  if kind == 'bernoulli':
    p = np.array([(~sim).sum(), sim.sum()], float) + cfg['smooth']
    return np.log(p / p.sum())[log.astype(int)]
  lo, hi, k = cfg['lo'], cfg['hi'], cfg['bins']
  b = lambda v: np.clip(np.floor((np.clip(v, lo, hi) - lo) / (hi - lo) * k), 0, k - 1).astype(int)
  p = np.bincount(b(sim), minlength=k) + cfg['smooth']
  return np.log(p / p.sum())[b(log)]


def likelihood(kind, cfg, log, sim, independent, together):
  """log: [objects, steps], sim: [rollouts, objects, steps]"""
  o, t = log.shape
  out = np.zeros((o, t))
  for i in range(o):
    for j in range(t):
      s = sim if together else sim[:, i:i + 1]
      s = s if independent else s[:, :, j:j + 1]
      out[i, j] = log_prob(kind, cfg, log[i:i + 1, j], s.reshape(-1))[0]
  return out


def feature_config(msg, kind, cfg, independent, together, weight=None):
  if kind == 'histogram':
    msg.histogram.min_val, msg.histogram.max_val, msg.histogram.num_bins = cfg['lo'], cfg['hi'], cfg['bins']
    if not cfg['default']:
      msg.histogram.additive_smoothing_pseudocount = cfg['smooth']
  elif kind == 'kernel_density':
    msg.kernel_density.bandwidth = cfg['bandwidth']
  else:
    msg.bernoulli.SetInParent()
    if not cfg['default']:
      msg.bernoulli.additive_smoothing_pseudocount = cfg['smooth']
  if independent is not None:
    msg.independent_timesteps = independent
  if together is not None:
    msg.aggregate_objects = together
  if weight is not None:
    msg.metametric_weight = weight
  return msg


@st.composite
def configs(draw, kinds=('histogram', 'histogram', 'kernel_density', 'bernoulli')):
  lo = draw(st.sampled_from([-5.0, 0.0, -0.5, -20.0]))
  default = draw(st.booleans())
  return (draw(st.sampled_from(kinds)), dict(lo=lo, hi=lo + draw(st.sampled_from([1.0, 4.0, 25.0, 60.0])), bins=draw(st.integers(1, 12)),
                                              smooth=0.001 if default else draw(st.sampled_from([0.001, 0.1, 1.0])), default=default,
                                              bandwidth=draw(st.sampled_from([0.25, 1.0, 5.0]))))


def samples(rng, shape, kind, cfg):
  """Values clear of bin edges; some at or beyond the ends."""
  if kind == 'bernoulli':
    return rng.rand(*shape) < rng.choice([0.0, 0.3, 0.5, 1.0])
  lo, hi, k = cfg['lo'], cfg['hi'], cfg['bins']
  w = (hi - lo) / k
  u = lo + w * (rng.randint(0, k, shape) + rng.uniform(0.02, 0.98, shape))
  if rng.rand() < 0.3:
    u = lo + w * (rng.randint(0, min(k, 2), shape) + rng.uniform(0.02, 0.98, shape))
  e = rng.rand(*shape)
  u = np.where(e < 0.05, lo, np.where(e < 0.1, hi, np.where(e < 0.14, lo - 1 - rng.rand(*shape) * 100, np.where(e < 0.18, hi + 1 + rng.rand(*shape) * 1e4, u))))
  if kind == 'kernel_density':
    u = np.clip(u, lo, hi)
  return u.astype(np.float32)


# ------------------------------------------------------------- estimators


@st.composite
def series(draw):
  return dict(cfg=draw(configs()), o=draw(st.integers(1, 4)), t=draw(st.integers(1, 5)), r=draw(st.integers(1, 5)), seed=draw(tfu.seeds()),
              ind=draw(st.sampled_from([True, False, None])), tog=draw(st.sampled_from([True, False, None])), one=draw(st.booleans()))


def check_series(case, ctx):
  tf, es, pb = ctx.env['tf'], ctx.env['es'], ctx.env['pb']
  rng = np.random.RandomState(case['seed'])
  (kind, cfg), o, t, r = case['cfg'], case['o'], case['t'], case['r']
  m = feature_config(pb.SimAgentMetricsConfig.FeatureConfig(), kind, cfg, case['ind'], case['tog'])
  log, sim = samples(rng, (o, t), kind, cfg), samples(rng, (r, o, t), kind, cfg)
  f8 = (lambda a: a) if kind == 'bernoulli' else (lambda a: a.astype(float))
  got = ctx.call(es.log_likelihood_estimate_timeseries, m, tf.constant(log), tf.constant(sim)).numpy()
  want = likelihood(kind, cfg, f8(log), f8(sim), bool(case['ind']), bool(case['tog']))
  ctx.close(got, want, '%s log-likelihood' % kind, atol=2e-4, rtol=2e-4)
  got = ctx.call(es.log_likelihood_estimate_scenario_level, m, tf.constant(log[:, 0]), tf.constant(sim[..., 0])).numpy()
  ctx.close(got, likelihood(kind, cfg, f8(log)[:, :1], f8(sim)[..., :1], True, bool(case['tog']))[:, 0], 'scenario level log-likelihood', atol=2e-4, rtol=2e-4)
  for bad in ((log[:, :1].repeat(t + 1, 1), sim), (np.concatenate([log, log[:1]]), sim)):
    try:
      es.log_likelihood_estimate_timeseries(m, tf.constant(bad[0]), tf.constant(bad[1]))
      ctx.fail('shapes %s and %s accepted' % (bad[0].shape, bad[1].shape))
    except ValueError:
      pass
  if kind == 'kernel_density':
    m.kernel_density.bandwidth *= -1 if case['seed'] % 2 else 0
    try:
      es.log_likelihood_estimate_timeseries(m, tf.constant(log), tf.constant(sim))
      ctx.fail('bandwidth %r accepted' % m.kernel_density.bandwidth)
    except ValueError:
      pass
  ctx.label(kind)
  ctx.nontrivial(o > 1 and t > 1 and r > 1)


# ------------------------------------------------------------- metrics


@st.composite
def bundles(draw):
  return dict(cfgs=[draw(configs(('histogram', 'histogram', 'kernel_density'))) for _ in SERIES], ev=[draw(configs(('bernoulli',))) for _ in EVENTS],
              ind=draw(st.lists(st.booleans(), min_size=7, max_size=7)), tog=draw(st.booleans()), o=draw(st.sampled_from([1, 2, 2, 3])), t=draw(st.integers(5, 7)),
              r=draw(st.sampled_from([1, 2, 2, 3])), seed=draw(tfu.seeds()), valid=draw(st.sampled_from([1.0, 0.85])), rate=draw(st.sampled_from([0.02, 0.2])),
              types=draw(st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=3, max_size=3)))


def check_bundle(case, ctx):
  env = ctx.env
  tf, pb, me = env['tf'], env['pb'], env['me']
  rng = np.random.RandomState(case['seed'])
  o, t, r = case['o'], case['t'], case['r']
  c = pb.SimAgentMetricsConfig()
  w = {f: float(np.float32(rng.choice([0.0, 0.05, 0.25, 1.0]))) for f in SERIES + EVENTS}
  for f, (kind, cfg), ind in zip(SERIES, case['cfgs'], case['ind']):
    feature_config(getattr(c, f), kind, cfg, ind, case['tog'], w[f])
  for f, (kind, cfg) in zip(EVENTS, case['ev']):
    feature_config(getattr(c, f), kind, cfg, None, case['tog'], w[f])
  types = np.array(case['types'][:o])
  ok = rng.rand(o, t) < case['valid']
  log = {f: samples(rng, (1, o, t), *k) for f, k in zip(SERIES, case['cfgs'])}
  sim = {f: samples(rng, (r, o, t), *k) for f, k in zip(SERIES, case['cfgs'])}
  for f in EVENTS:
    log[f], sim[f] = rng.rand(1, o, t) < case['rate'], rng.rand(r, o, t) < case['rate']
  ade = rng.uniform(0, 10, (r, o)).astype(np.float32)

  def pack(v, n, ade, valid):
    return env['mf'].MetricFeatures(
        object_id=tf.constant(np.arange(o, dtype=np.int32)), object_type=tf.constant(np.tile(types.astype(np.int32), (n, 1))), valid=tf.constant(valid),
        average_displacement_error=tf.constant(ade), **{PER_STEP.get(f, f): tf.constant(a) for f, a in v.items()})
  lf = pack(log, 1, np.zeros((1, o), np.float32), ok[None])
  sf = pack(sim, r, ade, np.ones((r, o, t), bool))
  got = ctx.call(me.compute_scenario_metrics_for_features_bundle, c, 'abc', lf, sf)
  ctx.equal(got.scenario_id, 'abc', 'scenario id')
  sv = np.zeros((o, t), bool)
  sv[:, 1:-1] = ok[:, 2:] & ok[:, :-2]
  av = np.zeros((o, t), bool)
  av[:, 1:-1] = sv[:, 2:] & sv[:, :-2]
  veh = (types == VEHICLE)[:, None]
  scored = dict(linear_speed=sv, angular_speed=sv, linear_acceleration=av, angular_acceleration=av, distance_to_nearest_object=ok, time_to_collision=ok & veh, distance_to_road_edge=ok)
  want, defined = {}, True
  for f, (kind, cfg), ind in zip(SERIES, case['cfgs'], case['ind']):
    m = scored[f]
    if not m.any():
      defined = False
      continue
    ll = likelihood(kind, cfg, log[f][0].astype(float), sim[f].astype(float), ind, case['tog'])
    want[f] = math.exp(ll[m].mean())
  for f, (kind, cfg) in zip(EVENTS, case['ev']):
    m = ok & veh if f == 'traffic_light_violation' else ok
    l, s = (log[f] & m).any(2), (sim[f] & m).any(2)
    want[f] = math.exp(likelihood(kind, cfg, l[0][:, None], s[..., None], True, case['tog']).mean())
  for f, v in want.items():
    ctx.close(getattr(got, f + '_likelihood'), v, 'likelihood of ' + f, atol=1e-5, rtol=1e-3)
  if defined:
    ctx.close(got.metametric, sum(w[f] * want[f] for f in want), 'meta metric', atol=1e-5, rtol=1e-3)
  ctx.close(got.average_displacement_error, ade.mean(), 'average displacement error', rtol=1e-5)
  ctx.close(got.min_average_displacement_error, ade.mean(1).min(), 'least average displacement error', rtol=1e-5)
  for f, k in (('simulated_collision_rate', 'collision_indication'), ('simulated_offroad_rate', 'offroad_indication'), ('simulated_traffic_light_violation_rate', 'traffic_light_violation')):
    ctx.close(getattr(got, f), (sim[k] & ok).any(2).mean(), f, atol=1e-6)
  ctx.nontrivial(defined and o > 1 and r > 1)


# ------------------------------------------------------------- aggregation


@st.composite
def reports(draw):
  return dict(n=draw(st.integers(1, 5)), seed=draw(tfu.seeds()), zero=draw(st.sampled_from([None, None, None, 'kinematic', 'interactive', 'map_based'])), drop=draw(st.booleans()))


def check_aggregate(case, ctx):
  env = ctx.env
  pb, me = env['pb'], env['me']
  rng = np.random.RandomState(case['seed'])
  names = [f.name for f in pb.SimAgentMetrics.DESCRIPTOR.fields if f.name != 'scenario_id']
  if case['drop']:  # not every metric is reported
    names = [f for f in names if rng.rand() < 0.8]
  rows = []
  for k in range(case['n']):
    rows.append(pb.SimAgentMetrics(scenario_id='s%d' % k, **{f: float(rng.rand() * rng.choice([0, 1, 5])) for f in names}))
  copy = [pb.SimAgentMetrics.FromString(m.SerializeToString()) for m in rows]
  got = ctx.call(me.aggregate_scenario_metrics, rows)
  ctx.equal(rows, copy, 'inputs after aggregation')
  ctx.require(not got.HasField('scenario_id'), 'aggregate has a scenario id')
  for f in (f.name for f in pb.SimAgentMetrics.DESCRIPTOR.fields if f.name != 'scenario_id'):
    if f in names:
      ctx.close(getattr(got, f), np.mean([getattr(m, f) for m in rows]), 'mean of ' + f, atol=1e-7, rtol=1e-6)
    else:
      ctx.require(not got.HasField(f), '%s was never reported', f)
  c = pb.SimAgentMetricsConfig()
  for b, fs in BUCKETS.items():
    ws = [float(v) for v in rng.choice([0.0, 0.05, 0.1, 0.25, 2.0], len(fs))]
    if case['zero'] == b:
      ws = [0.0] * len(fs)
    elif not any(ws):
      ws[0] = 0.5
    for f, v in zip(fs, ws):
      getattr(c, f).metametric_weight = v
  if case['zero']:
    try:
      me.aggregate_metrics_to_buckets(c, got)
      ctx.fail('a bucket without weight was accepted')
    except ValueError:
      return
  m = ctx.call(me.aggregate_metrics_to_buckets, c, got)
  for b, fs in BUCKETS.items():
    ws = [getattr(c, f).metametric_weight for f in fs]
    ctx.close(getattr(m, b + '_metrics'), sum(v * getattr(got, f + '_likelihood') for v, f in zip(ws, fs)) / sum(ws), b + ' bucket', atol=1e-7, rtol=1e-5)
  for a, b in (('realism_meta_metric', 'metametric'), ('min_ade', 'min_average_displacement_error'), ('simulated_collision_rate',) * 2, ('simulated_offroad_rate',) * 2,
               ('simulated_traffic_light_violation_rate',) * 2):
    ctx.equal(getattr(m, a), getattr(got, b), a)
  for path in sorted(glob.glob(build.SRC + '/waymo_open_dataset/wdl_limited/sim_agents_metrics/challenge_*.textproto'))[case['seed'] % 3:][:1]:
    cfg = env['text'].Parse(open(path).read(), pb.SimAgentMetricsConfig())
    ctx.close(sum(getattr(cfg, f.name).metametric_weight for f in cfg.DESCRIPTOR.fields), 1.0, 'weights of a challenge configuration', atol=1e-5)
  ctx.nontrivial(case['n'] > 1)


SUBS = [
    Sub('series', series, check_series, 2000, rule='several objects, steps and rollouts'),
    Sub('bundle', bundles, check_bundle, 800, rule='every metric defined, several objects and rollouts'),
    Sub('aggregate', reports, check_aggregate, 800, rule='two or more scenarios and complete buckets'),
]
