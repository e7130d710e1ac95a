"""Tracking metrics: scenes merged, ratios, the best cutoff."""
import random

from hypothesis import strategies as st

from checks import C09
from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import pack, unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


NAMES = ('num_misses', 'num_fps', 'num_mismatches', 'num_matches', 'num_objects_gt', 'matching_cost')


def judge_metrics(ctx, m, sums, cuts, where):
  """sums: per cutoff dict over NAMES."""
  best, alts = None, []
  objects = 0
  for c, s in zip(cuts, sums):
    n = s['num_objects_gt']
    if n == 0:
      continue
    objects = n
    e = (s['num_misses'] + s['num_fps'] + s['num_mismatches']) / n
    if 1 - e > -1e-6:
      alts.append((1 - e, c, s))
  got = (m.mota, m.motp, m.miss, m.mismatch, m.fp)
  top = max([a[0] for a in alts], default=-1)
  if top < 1e-6 and got == (0, 0, 0, 0, 0):
    alts = []  # nothing is reported without a positive MOTA
  elif not alts:
    ctx.close(got, [0] * 5, where + 'metrics without a positive MOTA', 1e-6)
  else:
    # Ties (also within float rounding) may go to any of the tied cutoffs;
    # exact ties to the first.
    cand = [a for a in alts if a[0] > top - 1e-6]
    same = [(a[2]['num_misses'], a[2]['num_fps'], a[2]['num_mismatches'], a[2]['num_objects_gt']) for a in cand]
    if len(set(same)) == 1:
      cand = cand[:1]
    ok = []
    for mota, c, s in cand:
      n = s['num_objects_gt']
      motp = s['matching_cost'] / s['num_matches'] if s['num_matches'] else 0.0
      want = (mota, motp, s['num_misses'] / n, s['num_mismatches'] / n, s['num_fps'] / n)
      ok.append(abs(m.score_cutoff - c) < 1e-6 and all(abs(a - b) <= 2e-6 + 2e-6 * abs(b) for a, b in zip(got, want)))
    ctx.require(any(ok), '%sMOTA, MOTP, miss, mismatch, FP at cutoff: got %s at %s, expected %s at %s (best of %d)', where, got,
                m.score_cutoff, want, cand[-1][1], len(alts))
  ctx.equal(m.num_objects_gt, objects, where + 'objects')
  return len(alts)


def judge_sums(ctx, got, sums, cuts, where):
  ctx.equal([x.score_cutoff for x in got.measurements], [det.f32(c) for c in cuts], where + 'cutoffs')
  for x, s in zip(got.measurements, sums):
    ctx.equal({k: getattr(x, k) for k in NAMES[:5]}, {k: s[k] for k in NAMES[:5]}, where + 'summed counts')
    ctx.close(x.matching_cost, s['matching_cost'], where + 'matching cost', 1e-3)


# ---- from measurements ----------------------------------------------------
@st.composite
def measurement_sets(draw):
  keys = draw(st.lists(st.tuples(st.sampled_from([1, 2, 3]), st.integers(0, 3), st.sampled_from([1, 2])),
                       min_size=1, max_size=3))
  cuts = sorted(draw(st.lists(st.sampled_from(det.SCORES), min_size=1, max_size=4, unique=True)))
  scenes = []
  big = draw(st.sampled_from([2, 10, 10, 5000]))
  for _ in range(draw(st.integers(1, 4))):
    if draw(st.integers(0, 7)) == 0 and scenes:
      scenes.append(None)  # a sequence without frames has no measurements
      continue
    rows = []
    for _ in keys:
      row = []
      for _ in cuts:
        n = draw(st.integers(0, 4 * big))
        miss = draw(st.integers(0, n))
        ma = n - miss
        row.append(dict(num_objects_gt=n, num_misses=miss, num_matches=ma, num_fps=draw(st.integers(0, big)),
                        num_mismatches=draw(st.integers(0, ma)) // 4, matching_cost=ma * draw(st.sampled_from([0.0, 0.25, 0.5]))))
      rows.append(row)
    scenes.append(rows)
  return dict(keys=keys, cuts=cuts, scenes=scenes, seed=draw(st.integers(0, 99)),
              details=[draw(st.integers(0, 3)) for _ in scenes] if draw(st.booleans()) else None)


def build(case, rows, tag=None):
  M = wod.pb('protos.metrics_pb2')
  out = []
  for (g, s, l), row in zip(case['keys'], rows or []):
    m = M.TrackingMeasurements()
    m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level = g, s, l
    for c, x in zip(case['cuts'], row):
      x = m.measurements.add(score_cutoff=c, **x)
      for f in range(case['details'][tag] if case['details'] else 0):
        x.details.add().fn_gt_ids.append('%d-%d-%s' % (tag, f, c))
    out.append(m.SerializeToString())
  return pack(out)


def check_measurements(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  dv = ctx.env['drv']
  fs = [build(case, r, k) for k, r in enumerate(case['scenes'])]
  run = lambda order: [M.TrackingMetrics.FromString(x) for x in unpack(dv.call(
      'trk_metrics_from', M.Config().SerializeToString(), pack([fs[k] for k in order]))[0])]
  order = list(range(len(fs)))
  ms = run(order)
  real = [r for r in case['scenes'] if r is not None]
  ctx.require(len(ms) == len(case['keys']), '%d results for %d breakdowns', len(ms), len(case['keys']))
  for k, m in enumerate(ms):
    where = 'result %d: ' % k
    b = m.breakdown
    ctx.equal((b.generator_id, b.shard, b.difficulty_level), tuple(case['keys'][k]), where + 'breakdown')
    sums = [{n: sum(r[k][c][n] for r in real) for n in NAMES} for c in range(len(case['cuts']))]
    judge_sums(ctx, m.measurements, sums, case['cuts'], where)
    for c, x in zip(case['cuts'], m.measurements.measurements):
      want = ['%d-%d-%s' % (t, f, c) for t, r in enumerate(case['scenes']) if r is not None
              for f in range(case['details'][t] if case['details'] else 0)]
      ctx.equal([y for z in x.details for y in z.fn_gt_ids], want, where + 'details, one per frame')
    n = judge_metrics(ctx, m, sums, case['cuts'], where)
    ctx.nontrivial(n > 1 and len(real) > 1)
  random.Random(case['seed']).shuffle(order)
  for a, b in zip(ms, run(order)):
    for n in ('mota', 'motp', 'miss', 'mismatch', 'fp', 'score_cutoff', 'num_objects_gt'):
      ctx.close(getattr(b, n), getattr(a, n), n + ' in another scene order', 1e-6, 1e-6)


# ---- whole path -----------------------------------------------------------
@st.composite
def datasets(draw):
  c = draw(det.configs())
  if draw(st.booleans()):
    c['cut'] = []
    c['ncut'] = draw(st.integers(1, 5))
  speeds = draw(st.booleans())
  c['scenes'] = [draw(C09.scene(max_frames=4, speeds=speeds)) for _ in range(draw(st.integers(1, 3)))]
  c['seed'] = draw(st.integers(0, 99))
  c['details'] = draw(st.booleans())
  return c


def check_dataset(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  dv = ctx.env['drv']
  cfg = det.config_proto(case)
  P = [pack([det.packed(f['p']) for f in s]) for s in case['scenes']]
  G = [pack([det.packed(f['g']) for f in s]) for s in case['scenes']]
  run = lambda order: [M.TrackingMetrics.FromString(x) for x in unpack(dv.call(
      'trk_metrics', cfg.SerializeToString(), pack([P[k] for k in order]), pack([G[k] for k in order]))[0])]
  order = list(range(len(P)))
  ms = run(order)
  if not case['cut']:
    cfg = M.Config.FromString(dv.call('trk_cutoffs', cfg.SerializeToString(), pack(P), pack(G))[0])
  cuts = list(cfg.score_cutoffs)
  raw = [dv.call('trk_measure', cfg.SerializeToString(), p, g)[0] for p, g in zip(P, G)]
  per = [[M.TrackingMeasurements.FromString(x) for x in unpack(r)] for r in raw]
  ctx.require(len(ms) == len(per[0]), 'result count')
  for k, m in enumerate(ms):
    where = 'result %d: ' % k
    ctx.equal(m.breakdown, per[0][k].breakdown, where + 'breakdown')
    sums = [{n: sum(getattr(s[k].measurements[c], n) for s in per) for n in NAMES} for c in range(len(cuts))]
    judge_sums(ctx, m.measurements, sums, cuts, where)
    for c, x in enumerate(m.measurements.measurements):
      pairs = lambda ds: [sorted(zip(y.tp_gt_ids, y.tp_pred_ids)) + sorted(y.fp_pred_ids) + sorted(y.fn_gt_ids) for y in ds]
      ctx.equal(pairs(x.details), [y for s in per for y in pairs(s[k].measurements[c].details)], where + 'details of all frames')
      ctx.equal(len(x.details), sum(map(len, case['scenes'])) if case['details'] else 0, where + 'frames with details')
    judge_metrics(ctx, m, sums, cuts, where)
    ctx.nontrivial(len(P) > 1 and m.mota > 0 and sums[0]['num_matches'] > 1)
  direct = unpack(dv.call('trk_metrics_from', cfg.SerializeToString(), pack(raw))[0])
  ctx.require(len(direct) == len(ms), 'results from measurements')
  random.Random(case['seed']).shuffle(order)
  for a, b, d in zip(ms, run(order), direct):
    d = M.TrackingMetrics.FromString(d)
    for n in ('mota', 'motp', 'miss', 'mismatch', 'fp', 'score_cutoff', 'num_objects_gt'):
      ctx.close(getattr(b, n), getattr(a, n), n + ' in another scene order', 1e-5, 1e-5)
      ctx.close(getattr(d, n), getattr(a, n), n + ' from per-sequence measurements', 1e-6, 1e-6)


SUBS = [
    Sub('measurements', measurement_sets, check_measurements, 3000,
        rule='several scenes and several cutoffs with a positive MOTA'),
    Sub('scenes', datasets, check_dataset, 2000, rule='several scenes with matches and a positive MOTA'),
]
