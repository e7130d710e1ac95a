"""Point segmentation IoU: histories of update, reset, compute and merge."""
import random

from hypothesis import strategies as st

from vlib import drv, wod
from vlib.core import Sub
from vlib.driver import i, pack

prepare = drv.prepare('det_driver')
close_env = drv.close_env
N = 23  # label types


def open_env(env):
  wod.setup()
  return drv.open_env(env)


@st.composite
def histories(draw):
  cl = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=6, unique=True))
  if draw(st.integers(0, 5)) == 0:
    cl = draw(st.permutations(range(1, N)))
  lab = st.one_of(st.sampled_from(cl), st.sampled_from(cl), st.integers(0, N - 1))
  ops = []
  for _ in range(draw(st.integers(1, 7))):
    k = draw(st.sampled_from('uuuuucrm'))
    if k == 'u':
      n = draw(st.integers(0, 12))
      p = draw(st.lists(lab, min_size=n, max_size=n))
      g = [x if draw(st.booleans()) else draw(lab) for x in p]
      if draw(st.integers(0, 5)) == 0:  # must be rejected without a trace
        if draw(st.booleans()) or not g:
          g = g + [draw(lab)]
        else:
          g = g[:-1]
      ops.append(('u', p, g))
    else:
      ops.append((k,))
  ops.append(('c',))
  return dict(cl=cl, ops=ops, seed=draw(st.integers(0, 99)))


def counts(cl, pts):
  out = []
  for c in cl:
    inter = sum(p == c and g == c for p, g in pts)
    # A point counts when its ground truth is configured; a prediction outside
    # the classes is then a missed point.
    union = sum((p == c or g == c) and g in cl for p, g in pts)
    out.append((inter, union))
  return out


def judge(ctx, raw, cl, cs, what):
  M = wod.pb('protos.segmentation_metrics_pb2').SegmentationMetrics.FromString(raw)
  sm = M.segmentation_measurements
  ctx.equal(list(zip(sm.intersections, sm.unions)), cs, what + ': intersections and unions')
  ious = [a / b if b > 0 else 1.0 for a, b in cs]
  ctx.equal(sorted(M.per_class_iou), sorted(cl), what + ': classes')
  ctx.close([M.per_class_iou[c] for c in cl], ious, what + ': IoU per class', 1e-6)
  ctx.close(M.miou, sum(ious) / len(ious), what + ': mean IoU', 1e-5)
  return sm


def config(cl):
  c = wod.pb('protos.segmentation_metrics_pb2').SegmentationMetricsConfig()
  c.segmentation_types.extend(cl)
  return c.SerializeToString()


def run(dv, cl, ops):
  """ops: updates, reset, compute; 'm' takes serialized measurements."""
  f = [config(cl)]
  for o in ops:
    f.append(o[0])
    if o[0] == 'u':
      f += [i(o[1]), i(o[2])]
    elif o[0] == 'm':
      f.append(pack(o[1]))
  return dv.call('seg', *f)


def check(case, ctx):
  dv, cl = ctx.env['drv'], case['cl']
  # "m" merges the measurements of the updates made so far, one by one.
  pts, upd, real, expect = [], [], [], []
  for o in case['ops']:
    if o[0] == 'u':
      real.append(o)
      if len(o[1]) == len(o[2]):
        expect.append(('ok',))
        pts = pts + list(zip(o[1], o[2]))
        upd.append(o)
      else:
        expect.append(('rejected',))
        ctx.label('rejected update')
    elif o[0] == 'r':
      real.append(o)
      expect.append(('none',))
      if pts:
        ctx.label('reset')
      pts, upd = [], []
    elif o[0] == 'c':
      real.append(o)
      expect.append(('res', counts(cl, pts), 'computed'))
    else:
      parts = []
      for u in upd:
        r = run(dv, cl, [u, ('c',)])[-1]
        parts.append(judge(ctx, r, cl, counts(cl, list(zip(u[1], u[2]))), 'one update').SerializeToString())
      random.Random(case['seed']).shuffle(parts)
      real.append(('m', parts))
      expect.append(('res', counts(cl, pts), 'merged'))
      ctx.label('merge')
  out = run(dv, cl, real)
  ctx.require(len(out) == len(expect), 'answers')
  for k, (r, e) in enumerate(zip(out, expect)):
    if e[0] == 'res':
      judge(ctx, r, cl, e[1], '%s after step %d' % (e[2], k))
    elif e[0] != 'none':
      ctx.equal(r.decode(), e[0], 'update at step %d' % k)
  # All points in one update, in another order.
  rnd = random.Random(case['seed'])
  rnd.shuffle(pts)
  judge(ctx, run(dv, cl, [('u', [p for p, _ in pts], [g for _, g in pts]), ('c',)])[-1], cl, counts(cl, pts),
        'all points at once')
  cs = counts(cl, pts)
  ctx.nontrivial(len(upd) > 1 and any(0 < a < b for a, b in cs) and any(g not in cl or p not in cl for p, g in pts))


@st.composite
def merges(draw):
  cl = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=4, unique=True))
  size = draw(st.sampled_from([10, 1 << 20, 1 << 31, 1 << 33, 1 << 40]))
  rows = []
  for _ in range(draw(st.integers(0, 5))):
    row = []
    for _ in cl:
      u = draw(st.integers(0, size))
      row.append((draw(st.integers(0, u)), u))
    rows.append(row)
  return dict(cl=cl, rows=rows, seed=draw(st.integers(0, 99)))


def check_merge(case, ctx):
  M = wod.pb('protos.segmentation_metrics_pb2').SegmentationMeasurements
  parts = []
  for r in case['rows']:
    m = M()
    m.intersections.extend([a for a, _ in r])
    m.unions.extend([b for _, b in r])
    parts.append(m.SerializeToString())
  cs = [(sum(r[k][0] for r in case['rows']), sum(r[k][1] for r in case['rows'])) for k in range(len(case['cl']))]
  dv = ctx.env['drv']
  judge(ctx, run(dv, case['cl'], [('m', parts)])[-1], case['cl'], cs, 'merged')
  cut = case['seed'] % (len(parts) + 1)
  halves = []
  for ps in (parts[:cut], parts[cut:]):
    r = run(dv, case['cl'], [('m', ps)])[-1]
    halves.append(wod.pb('protos.segmentation_metrics_pb2').SegmentationMetrics.FromString(
        r).segmentation_measurements.SerializeToString())
  judge(ctx, run(dv, case['cl'], [('m', halves[::-1])])[-1], case['cl'], cs, 'merged in two stages')
  big = max(b for _, b in cs)
  ctx.nontrivial(len(parts) > 1 and any(0 < a < b for a, b in cs))
  ctx.label('beyond 32 bits' if big > 2**31 - 1 else 'within 32 bits')


SUBS = [
    Sub('history', histories, check, 4000,
        rule='several updates, a partial IoU and points outside the classes'),
    Sub('merge', merges, check_merge, 3000, rule='several parts, a partial IoU'),
]
