"""Rater feedback score against a scalar transcription of the rule."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import wod
from vlib.core import Sub

f = lambda a, b: st.floats(a, b, allow_nan=False, width=32).map(lambda x: x + 0.0)


def prepare(tier):
  from vlib import build
  build.gen_protos()
  return {}


def open_env(env):
  wod.setup()
  from waymo_open_dataset.metrics.python import rater_feedback_utils
  return dict(m=rater_feedback_utils)


@st.composite
def path(draw, n):
  """A trajectory of n waypoints: pieces of straight driving, stops, jumps."""
  pts, x, y = [], 0.0, 0.0
  h = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0, math.pi / 2, math.pi]))
  while len(pts) < n:
    k = draw(st.integers(1, n))
    v = draw(st.sampled_from([0.0, 0.0, 0.25, 1.0, 2.5, 3.0]))
    h += draw(st.sampled_from([0.0, 0.0, 0.3, -0.7, math.pi]))
    w = draw(st.sampled_from([0.0, 0.0, 0.05, -0.1]))
    for _ in range(min(k, n - len(pts))):
      x += v * math.cos(h)
      y += v * math.sin(h)
      h += w
      pts.append([x, y])
  return pts


@st.composite
def cases(draw):
  freq = draw(st.sampled_from([4, 4, 4, 1, 2, 10]))
  secs = draw(st.sampled_from([5, 5, 5, 6, 8]))
  n = freq * secs
  nb = draw(st.integers(1, 3))
  ni = draw(st.integers(1, 4))
  np_ = draw(st.integers(1, 4))
  mult = draw(st.sampled_from([(1.0, 4.0), (1.0, 4.0), (2.0, 1.0), (0.5, 0.5)]))
  batch = []
  for _ in range(nb):
    raters = []
    for _ in range(draw(st.integers(1, 5))):
      m = draw(st.sampled_from([n, n, n, n + 3, max(1, n - 2), 1, 3 * freq, 5 * freq]))
      raters.append((draw(path(m)), draw(st.one_of(st.sampled_from([0.0, 4.0, 10.0, 7.0, 1.0]), f(0, 10)))))
    preds = []
    for _ in range(ni):
      if draw(st.integers(0, 4)) == 0:
        p = draw(path(n))
      else:
        r = draw(st.sampled_from(raters))[0]
        p = [list(v) for v in (r + [r[-1]] * n)[:n]]
        # An error along the way that ends up near the region's border.
        for sec in (3, 5):
          j = sec * freq - 1
          p[j] = [p[j][0] + draw(st.one_of(st.just(0.0), f(-9, 9), st.sampled_from([0.5, 4.0, 7.2, -3.6]))),
                  p[j][1] + draw(st.one_of(st.just(0.0), f(-3, 3), st.sampled_from([0.5, 1.0, 1.8, -0.9])))]
      preds.append(p)
    w = draw(st.lists(st.integers(0, 4), min_size=ni, max_size=ni))
    s = sum(w) or 1
    batch.append(dict(raters=raters, preds=preds, probs=[x / s for x in w],
                      v=draw(st.one_of(st.sampled_from([0.0, 1.4, 11.0, 30.0, 6.2]), f(0, 20)))))
  return dict(freq=freq, secs=secs, np=np_, mult=mult, batch=batch,
              decay=draw(st.sampled_from([0.1, 0.1, 0.5, 0.9])),
              floor=draw(st.sampled_from([4.0, 4.0, 0.0, 2.0])), array=draw(st.booleans()))


def border(case):
  """Distance of the nearest comparison to a region's border.

  Exact borders (axis-aligned driving on coordinates without rounding) do not
  count: there the point is inside.
  """
  m = 1.0
  for b in case['batch']:
    for q in b['preds']:
      for r, _ in targets(case, b):
        for sec, d in zip((3, 5), norms(case, b, r, q)):
          j = sec * case['freq'] - 1
          exact = d == 1.0 and (b['v'] == 0 or b['v'] >= 11) and all(
              x * 64 == int(x * 64) for p in r[:j + 1] + [q[j]] for x in p) and all(p[1] == 0 for p in r[:j + 1])
          if not exact:
            m = min(m, abs(d - 1.0))
  return m


def targets(case, b):
  n = case['freq'] * case['secs']
  rs = b['raters'][:case['np']]
  rs = rs + [rs[-1]] * (case['np'] - len(rs))
  return [((r + [r[-1]] * n)[:n], s) for r, s in rs]


def norms(case, b, r, q):
  """The normalised distances of prediction q from r's regions at 3 s and 5 s."""
  out = []
  scale = min(1.0, max(0.5, 0.5 + 0.5 * (b['v'] - 1.4) / (11 - 1.4)))
  for sec, base in ((3, 1.0), (5, 1.8)):
    j = sec * case['freq'] - 1
    # The direction of travel: the last step that moved, ahead at first.
    d = (1.0, 0.0)
    for k in range(j, -1, -1):
      a = r[k - 1] if k else (0.0, 0.0)
      e = (r[k][0] - a[0], r[k][1] - a[1])
      if math.hypot(*e) != 0:
        d = (e[0] / math.hypot(*e), e[1] / math.hypot(*e))
        break
    dx, dy = q[j][0] - r[j][0], q[j][1] - r[j][1]
    lng = abs(dx * d[0] + dy * d[1]) / (base * case['mult'][1] * scale)
    lat = abs(-dx * d[1] + dy * d[0]) / (base * case['mult'][0] * scale)
    out.append(max(lng, lat))
  return out


def reference(case):
  scores, inside = [], []
  for b in case['batch']:
    total, ins = 0.0, []
    for q, w in zip(b['preds'], b['probs']):
      ds = [(norms(case, b, r, q), s) for r, s in targets(case, b)]
      ok = any(max(d) <= 1.0 for d, _ in ds)
      sc = sum(max(s * case['decay']**max(d[k] - 1.0, 0.0) for d, s in ds) for k in (0, 1)) / 2
      if not ok:
        sc = max(sc, case['floor'])
      ins.append(ok)
      total += sc * w
    scores.append(total)
    inside.append(ins)
  return scores, inside


DEFAULTS = dict(lat_lng_threshold_multipliers=(1.0, 4.0), decay_factor=0.1, frequency=4, length_seconds=5, default_num_of_rater_specified_trajectories=3,
                minimum_score_outside_trust_region=4.0)


def run(ctx, case, **kw):
  m = ctx.env['m']
  bs = case['batch']
  same = case['array'] and len({len(r) for b in bs for r, _ in b['raters']}) == 1
  raters = []
  for b in bs:
    rs = [np.array(r, dtype=np.float64) for r, _ in b['raters']]
    raters.append(np.stack(rs) if same else rs)
  args = (np.array([b['preds'] for b in bs]), np.array([b['probs'] for b in bs]), raters,
          [np.array([s for _, s in b['raters']]) for b in bs], np.array([b['v'] for b in bs]))
  keep = [np.array(args[0]), [[np.array(r) for r in x] for x in raters]]
  options = dict(lat_lng_threshold_multipliers=case['mult'], decay_factor=case['decay'], frequency=case['freq'], length_seconds=case['secs'],
                 default_num_of_rater_specified_trajectories=case['np'], minimum_score_outside_trust_region=case['floor'])
  # Half of the time the documented defaults are left out.
  if len(bs[0]['preds']) % 2:
    options = {k: v for k, v in options.items() if (tuple(v) if k in ('lat_lng_threshold_multipliers',) else v) != DEFAULTS[k]}
  out = ctx.call(m.get_rater_feedback_score, *args, **options, **kw)
  ctx.require(np.array_equal(keep[0], args[0]) and all(
      np.array_equal(u, v) for x, y in zip(keep[1], raters) for u, v in zip(x, y)), 'scoring changed its inputs')
  return out


def check_score(case, ctx):
  if border(case) < 1e-9:
    # An exact border counts as inside; rounding decides which side it is.
    ctx.label('on the border')
    return
  want, inside = reference(case)
  out = run(ctx, case)
  ctx.close(out['rater_feedback_score'], want, 'score', 1e-9, 1e-9)
  ctx.equal(np.asarray(out['is_fully_within_trust_region']).tolist(), inside, 'within trust region')
  ctx.close(out['rater_specified_trajectories'], [[r for r, _ in targets(case, b)] for b in case['batch']], 'raters', 0, 0)
  ctx.close(out['rater_feedback_labels'], [[s for _, s in targets(case, b)] for b in case['batch']], 'labels', 0, 0)
  for b, s, ins in zip(case['batch'], out['rater_feedback_score'], inside):
    top = max([s for _, s in targets(case, b)] + [case['floor']])
    ctx.require(-1e-9 <= s <= top * sum(b['probs']) + 1e-9, 'score %r out of range', float(s))
  if any(d == 1.0 for b in case['batch'] for q in b['preds'] for r, _ in targets(case, b) for d in norms(case, b, r, q)):
    ctx.label('exact border')
  flat = [x for ins in inside for x in ins]
  ctx.nontrivial(True in flat and False in flat)
  ctx.label('%d batches' % len(case['batch']), 'array' if case['array'] else 'list')


def rotate(p, t):
  c, s = math.cos(t), math.sin(t)
  return [[c * x - s * y, s * x + c * y] for x, y in p]


@st.composite
def relation_cases(draw):
  c = draw(cases())
  k = max(len(b['raters']) for b in c['batch'])
  c['np'] = max(c['np'], k)
  return dict(c=c, seed=draw(st.permutations(range(5))), t=draw(f(-3, 3)), pad=draw(st.integers(0, 2)),
              ints=draw(st.booleans()))


def check_relations(case, ctx):
  c = case['c']
  if border(c) < 1e-6:
    return
  base = run(ctx, c)
  s0 = np.asarray(base['rater_feedback_score'])
  # The order of raters, of predictions and of the batch.
  order = case['seed']
  def perm(x):
    return [x[i % len(x)] for i in order if i < len(x)]
  m = dict(c, batch=perm([dict(b, raters=perm(b['raters']), preds=perm(b['preds']), probs=perm(b['probs']))
                          for b in c['batch']]))
  ctx.close(run(ctx, m)['rater_feedback_score'], perm(list(s0)), 'permuted score', 1e-9, 1e-9)
  # Writing out the padding, or asking for more of it.
  n = c['freq'] * c['secs']
  m = dict(c, np=c['np'] + case['pad'], batch=[dict(b, raters=[((r + [r[-1]] * n)[:n + case['pad']], s) for r, s in b['raters']])
                                               for b in c['batch']])
  ctx.close(run(ctx, m)['rater_feedback_score'], s0, 'padded score', 1e-9, 1e-9)
  # Turning everything about the vehicle.
  if all(p != [0.0, 0.0] for b in c['batch'] for r, _ in b['raters'] for p in (r + r[-1:] * n)[3 * c['freq'] - 1:]):
    m = dict(c, batch=[dict(b, raters=[(rotate(r, case['t']), s) for r, s in b['raters']],
                            preds=[rotate(p, case['t']) for p in b['preds']]) for b in c['batch']])
    # Rotating turns an exact stop into an exact stop: equal points stay equal.
    ctx.close(run(ctx, m)['rater_feedback_score'], s0, 'rotated score', 1e-6, 1e-6)
    ctx.label('rotated')
  # Batches are independent.
  one = [float(run(ctx, dict(c, batch=[b]))['rater_feedback_score'][0]) for b in c['batch']]
  ctx.close(one, s0, 'score of a batch of one', 1e-12, 1e-12)
  # Asking for the visualisation adds the regions and changes nothing else.
  out = run(ctx, c, output_trust_region_visualization=True)
  ctx.close(out['rater_feedback_score'], s0, 'score with visualisation', 0, 0)
  for k in ('center_x', 'center_y', 'angle'):
    v = np.asarray(out['trust_region_' + k])
    ctx.equal(v.shape, (len(c['batch']), c['np'], 2), 'shape of ' + k)
    for bi, b in enumerate(c['batch']):
      for ri, (r, _) in enumerate(targets(c, b)):
        for ti, sec in enumerate((3, 5)):
          p = r[sec * c['freq'] - 1]
          if k != 'angle':
            ctx.close(v[bi, ri, ti], p[0 if k == 'center_x' else 1], k, 0, 0)
          else:
            # A point moved along the drawn axis stays on the lateral centre.
            a = math.radians(v[bi, ri, ti])
            scale = np.asarray(out['trust_region_width'])[bi, ti] / 2
            q = [list(x) for x in r]
            q[sec * c['freq'] - 1] = [p[0] + scale * math.cos(a), p[1] + scale * math.sin(a)]
            ctx.close(norms(c, b, r, q)[ti], 1.0, 'end of the drawn region', 1e-6, 0)
  # Coming closer never lowers a score when all labels reach the floor.
  m = dict(c, batch=[dict(b, raters=[(r, max(s, c['floor'])) for r, s in b['raters'][:1]]) for b in c['batch']])
  far = run(ctx, m)['rater_feedback_score']
  mm = dict(m, batch=[dict(b, preds=[[[(x[0] + y[0]) / 2, (x[1] + y[1]) / 2] for x, y in zip(p, targets(m, b)[0][0])]
                                     for p in b['preds']]) for b in m['batch']])
  near = run(ctx, mm)['rater_feedback_score']
  ctx.require(np.all(near >= far - 1e-9), 'score fell from %r to %r on coming closer', far, near)
  ctx.nontrivial(bool(np.any(near > far + 1e-6)))


def check_refusals(case, ctx):
  c = case['c']
  m = ctx.env['m']
  b = c['batch'][0]
  good = [np.array([b['preds']]), np.array([b['probs']]), [[np.array(r) for r, _ in b['raters']]],
          [np.array([s for _, s in b['raters']])], np.array([b['v']])]
  how = case['how']
  secs = c['secs']
  if how == 'labels':
    good[3] = [np.append(good[3][0], 1.0)]
  elif how == 'batches':
    good[2] = good[2] * 2
  elif how == 'short prediction':
    good[0] = good[0][:, :, :-1]
  elif how == 'long prediction':
    good[0] = np.concatenate([good[0], good[0][:, :, -1:]], axis=2)
  else:
    secs = 4
    good[0] = good[0][:, :, :4 * c['freq']]
  try:
    m.get_rater_feedback_score(*good, frequency=c['freq'], length_seconds=secs,
                               default_num_of_rater_specified_trajectories=c['np'])
  except ValueError:
    ctx.nontrivial()
    ctx.label(how)
    return
  ctx.require(False, 'accepted: %s', how)


def refusals():
  return st.fixed_dictionaries(dict(c=cases(), how=st.sampled_from(
      ['labels', 'batches', 'short prediction', 'long prediction', 'short horizon'])))


SUBS = [
    Sub('score', cases, check_score, 3000, rule='predictions inside and outside the trust regions'),
    Sub('relations', relation_cases, check_relations, 1500, rule='a score that rises when coming closer'),
    Sub('refusals', refusals, check_refusals, 400, rule='refused with ValueError'),
]
