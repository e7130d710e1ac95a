"""Detection metrics from measurements: PR points, average precision, merging."""
import random

from hypothesis import strategies as st

from checks import C05
from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import d, pack, ud, unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


def f32(x):
  return det.f32(x)


def areas(precisions, recalls, delta):
  """Acceptable areas under the max-interpolated PR curve.

  Several when a recall gap is within rounding of a whole number of steps."""
  best = {}
  for p, r in zip(precisions, recalls):
    best[r] = max(best.get(r, 0.0), p)
  rs = sorted(set(best) | {0.0}, reverse=True)
  if not precisions:
    return [0.0]
  outs = [0.0]
  env, prev = 0.0, None
  for r in rs:
    last = r == 0.0
    new = max(env, best.get(r, 0.0))
    if prev is not None:
      gap = prev - r
      # Steps of delta stay at the higher recall's precision; the rest of the
      # gap is interpolated linearly; the fake point at recall 0 repeats it.
      ns = set()
      n = 0
      while True:
        rest = gap - n * delta
        band = 1.5e-7 * (n + 2)
        if rest <= delta + 1e-6 + band:
          ns.add(n)
          if rest <= delta + 1e-6 - band:
            break
        n += 1
        if gap - n * delta < -delta:
          break
      lo = env if last else new
      outs = [o + env * n * delta + (gap - n * delta) * (env + lo) / 2 for o in outs for n in ns]
    env, prev = new, r
  return outs[:64]


def one_of(ctx, got, wants, msg, tol=2e-5):
  ctx.require(any(abs(got - w) <= tol for w in wants), '%s: got %r, expected %s', msg, got, wants[:3])


# ---- the integral itself --------------------------------------------------
@st.composite
def curves(draw):
  n = draw(st.integers(0, 9))
  grid = draw(st.sampled_from([20, 7, 64, 1000]))
  pts = [(draw(st.integers(0, grid)) / grid, draw(st.integers(0, grid)) / grid) for _ in range(n)]
  return dict(pts=pts, delta=draw(st.sampled_from([0.05, 0.05, 0.1, 0.25, 1.0, 0.03])))


def mean_ap(ctx, pts, delta):
  return float(ud(ctx.env['drv'].call('mean_ap', d([p for p, _ in pts]), d([r for _, r in pts]), d(f32(delta)))[0])[0])


def check_ap(case, ctx):
  pts, delta = case['pts'], f32(case['delta'])
  ps, rs = [f32(p) for p, _ in pts], [f32(r) for _, r in pts]
  want = areas(ps, rs, delta)
  got = mean_ap(ctx, pts, delta)
  one_of(ctx, got, want, 'average precision')
  ctx.require(-1e-6 <= got <= 1 + 1e-5, 'average precision %r', got)
  ctx.nontrivial(len(set(rs)) > 2 and len(set(ps)) > 2)
  if len(want) > 1:
    ctx.label('gap near a whole step')
  # Order of the points does not matter, nor do points under the curve.
  ctx.equal(mean_ap(ctx, pts[::-1], delta), got, 'average precision of the reversed points')
  if pts:
    p, r = pts[len(pts) // 2]
    ctx.equal(mean_ap(ctx, pts + [(p / 2, r)], delta), got, 'average precision with a dominated point')
    if max(rs) == 1 and all(p == 1 for p in ps):
      ctx.close(got, 1, 'average precision of a perfect curve', 1e-5)


# ---- metrics from measurements --------------------------------------------
@st.composite
def measurement_sets(draw):
  n_frames = draw(st.integers(1, 5))
  keys = draw(st.lists(st.tuples(st.sampled_from([1, 2, 3]), st.integers(0, 3), st.sampled_from([1, 2])),
                       min_size=1, max_size=3))
  cuts = sorted(draw(st.lists(st.sampled_from(det.SCORES), min_size=1, max_size=5, unique=True)))
  frames = []
  big = draw(st.sampled_from([3, 3, 10, 100000]))
  for _ in range(n_frames):
    fr = []
    for _ in keys:
      row = []
      for _ in cuts:
        tp, fp, fn = [draw(st.integers(0, big)) for _ in range(3)]
        row.append((tp, fp, fn, tp * draw(st.sampled_from([1.0, 0.5, 0.75])), tp * draw(st.sampled_from([1.0, 0.5, 0.25]))))
      fr.append(row)
    frames.append(fr)
  return dict(keys=keys, cuts=cuts, frames=frames, delta=draw(st.sampled_from([0.05, 0.1, 1.0])),
              minp=draw(st.sampled_from([None, 0.3, 0.05, 0.5])), details=draw(st.booleans()),
              seed=draw(st.integers(0, 99)))


def build(case, fr, tag):
  M = wod.pb('protos.metrics_pb2')
  out = []
  for (g, s, l), row in zip(case['keys'], fr):
    m = M.DetectionMeasurements()
    m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level = g, s, l
    for c, (tp, fp, fn, ha, la) in zip(case['cuts'], row):
      x = m.measurements.add(num_tps=tp, num_fps=fp, num_fns=fn, sum_ha=ha, sum_longitudinal_affinity=la, score_cutoff=c)
      if case['details']:
        x.details.add().fp_ids.append('%s-%s' % (tag, c))
    out.append(m.SerializeToString())
  return pack(out)


def judge_metrics(ctx, m, sums, cuts, minp, delta, where):
  """sums: per cutoff (tp, fp, fn, ha, la)."""
  ctx.close(m.score_cutoffs, [f32(c) for c in cuts], where + 'score cutoffs', 0, 0)
  flip = False
  minp = f32(minp or 0.0)
  lists = [[], [], []]
  rec = []
  for tp, fp, fn, ha, la in sums:
    r = f32(tp / (tp + fn)) if tp + fn else 0.0
    rec.append(r)
    for k, v in enumerate((tp, ha, la)):
      p = v / (tp + fp) if tp + fp else 0.0
      if k == 0:
        p = f32(f32(v) / (tp + fp)) if tp + fp else 0.0
      flip |= k > 0 and abs(p - minp) < 1e-5 and minp > 0
      lists[k].append(1.0 if r == 0 else 0.0 if p < minp else p)
  if flip:
    ctx.label('skipped: precision at its minimum')
    return
  for k, n in enumerate(('', '_ha_weighted', '_longitudinal_affinity_weighted')):
    gp, gr = getattr(m, 'precisions' + n), getattr(m, 'recalls' + n)
    ctx.close(gr, rec, where + 'recalls' + n, 1e-6)
    ctx.close(gp, lists[k], where + 'precisions' + n, 2e-6, 2e-6)
    ap = getattr(m, 'mean_average_precision' + n)
    one_of(ctx, ap, areas(list(gp), list(gr), f32(delta)), where + 'average precision' + n)
    ctx.require(-1e-6 <= ap <= 1 + 1e-5, where + 'average precision %r', ap)


def config(case):
  c = wod.pb('protos.metrics_pb2').Config()
  c.desired_recall_delta = case['delta']
  if case['minp'] is not None:
    c.min_precision = case['minp']
  return c.SerializeToString()


def check_measurements(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  dv = ctx.env['drv']
  fs = [build(case, fr, 'f%d' % k) for k, fr in enumerate(case['frames'])]
  call = lambda h, order: [
      (M.DetectionMetrics if h == 'det_metrics_from' else M.DetectionMeasurements).FromString(x)
      for x in unpack(dv.call(h, config(case), pack([fs[k] for k in order]))[0])]
  order = list(range(len(fs)))
  ms = call('det_metrics_from', order)
  ctx.require(len(ms) == len(case['keys']), '%d results for %d breakdowns', len(ms), len(case['keys']))
  merged = call('det_merge', order)
  ctx.require(len(merged) == len(ms), 'merged results')
  for k, m in enumerate(ms):
    where = 'result %d: ' % k
    ctx.equal((m.breakdown.generator_id, m.breakdown.shard, m.breakdown.difficulty_level), tuple(case['keys'][k]),
              where + 'breakdown')
    sums = [tuple(sum(fr[k][c][x] for fr in case['frames']) for x in range(5)) for c in range(len(case['cuts']))]
    for got in (m.measurements, merged[k]):
      ctx.require(len(got.measurements) == len(sums), where + 'measurement count')
      for x, s, c in zip(got.measurements, sums, case['cuts']):
        ctx.equal((x.num_tps, x.num_fps, x.num_fns), s[:3], where + 'merged counts at %s' % c)
        ctx.close((x.sum_ha, x.sum_longitudinal_affinity), s[3:], where + 'merged sums', 1e-4, 1e-6)
        ctx.equal(x.score_cutoff, c, where + 'cutoff')
        want = ['f%d-%s' % (j, c) for j in range(len(fs))] if case['details'] else []
        ctx.equal([i for y in x.details for i in y.fp_ids], want, where + 'details, one per frame')
    judge_metrics(ctx, m, sums, case['cuts'], case['minp'], case['delta'], where)
    ctx.nontrivial(len(fs) > 1 and 0 < m.mean_average_precision < 1)
  # Frame order and grouping do not matter.
  random.Random(case['seed']).shuffle(order)
  other = call('det_metrics_from', order)
  cut = case['seed'] % len(fs) + 1
  part = pack([x.SerializeToString() for x in call('det_merge', list(range(cut)))])
  if not case['details']:
    out = dv.call('det_metrics_from', config(case), pack([part] + fs[cut:]))
    grouped = [M.DetectionMetrics.FromString(x) for x in unpack(out[0])]
  else:
    grouped = other
  for a, b, c in zip(ms, other, grouped):
    for x, w in ((b, 'in another order'), (c, 'merged in two stages')):
      for n in ('', '_ha_weighted', '_longitudinal_affinity_weighted'):
        ctx.close(getattr(x, 'mean_average_precision' + n), getattr(a, 'mean_average_precision' + n),
                  'average precision ' + w, 1e-4 if n else 0, 0)
      ctx.close(x.precisions, a.precisions, 'precisions ' + w, 0, 0)
      ctx.close(x.recalls, a.recalls, 'recalls ' + w, 0, 0)


# ---- whole path -----------------------------------------------------------
@st.composite
def datasets(draw):
  c = draw(det.configs())
  n = draw(st.integers(1, 4))
  if draw(st.booleans()):
    c['cut'] = []
    c['ncut'] = draw(st.integers(1, 6))
  c['minp'] = draw(st.sampled_from([None, 0.3]))
  c['delta'] = draw(st.sampled_from([None, 0.2, 0.05]))
  det.custom_iou(draw, c)
  perfect = draw(st.integers(0, 4)) == 0
  frames = []
  for _ in range(n):
    f = draw(det.frame(npd=4, ngt=4))
    if perfect:
      f['p'] = [dict(g, s=0.5 + k / 64, id='p' + g['id'], nlz=False) for k, g in enumerate(f['g'])]
    frames.append(f)
  return dict(c, frames=frames, perfect=perfect, seed=draw(st.integers(0, 99)))


def check_dataset(case, ctx):
  M = wod.pb('protos.metrics_pb2')
  dv = ctx.env['drv']
  cfg = det.config_proto(case)
  P = [det.packed(f['p']) for f in case['frames']]
  G = [det.packed(f['g']) for f in case['frames']]
  run = lambda order: [M.DetectionMetrics.FromString(x) for x in unpack(dv.call(
      'det_metrics', cfg.SerializeToString(), pack([P[k] for k in order]), pack([G[k] for k in order]), *det.custom_args(case))[0])]
  order = list(range(len(P)))
  ms = run(order)
  if not case['cut']:
    cfg = M.Config.FromString(dv.call('det_cutoffs', cfg.SerializeToString(), pack(P), pack(G))[0])
  frames = [dv.call('det_measure', cfg.SerializeToString(), p, g, *det.custom_args(case))[0] for p, g in zip(P, G)]
  per = [[M.DetectionMeasurements.FromString(x) for x in unpack(f)] for f in frames]
  cuts = list(cfg.score_cutoffs)
  ctx.require(len(ms) == len(per[0]), 'result count')
  for k, m in enumerate(ms):
    sums = [tuple(sum(getattr(f[k].measurements[c], n) for f in per)
                  for n in ('num_tps', 'num_fps', 'num_fns', 'sum_ha', 'sum_longitudinal_affinity'))
            for c in range(len(cuts))]
    ctx.equal(m.breakdown, per[0][k].breakdown, 'breakdown of result %d' % k)
    judge_metrics(ctx, m, sums, cuts, case['minp'], 0.05 if case['delta'] is None else case['delta'],
                  'result %d: ' % k)
    ctx.nontrivial(0 < m.mean_average_precision < 1)
    if case['perfect'] and cuts[0] <= 0.5 and case['gens'][0][0] not in det.GT_ONLY and sums[0][0] and \
        sums[0][1] == sums[0][2] == 0:
      ctx.close(m.mean_average_precision, 1, 'average precision of a perfect detector', 1e-5)
      ctx.label('perfect')
  random.Random(case['seed']).shuffle(order)
  for a, b in zip(ms, run(order)):
    ctx.close(b.mean_average_precision, a.mean_average_precision, 'average precision in another frame order', 0, 0)
    ctx.close(list(b.precisions) + list(b.recalls), list(a.precisions) + list(a.recalls), 'curve in another frame order', 0, 0)
  direct = unpack(dv.call('det_metrics_from', det.config_proto(case).SerializeToString(), pack(frames))[0])
  ctx.require(len(direct) == len(ms), 'result count from measurements')
  for a, b in zip(ms, direct):
    b = M.DetectionMetrics.FromString(b)
    ctx.close(b.mean_average_precision, a.mean_average_precision, 'average precision from measurements', 0, 0)


SUBS = [
    Sub('curve', curves, check_ap, 4000, rule='three recalls and precisions'),
    Sub('measurements', measurement_sets, check_measurements, 2000,
        rule='several frames, average precision strictly between 0 and 1'),
    Sub('frames', datasets, check_dataset, 1500, rule='average precision strictly between 0 and 1'),
]
