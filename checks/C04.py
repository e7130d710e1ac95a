"""Matchers: validity, optimality (Hungarian), greedy order (score first)."""
import math

from hypothesis import strategies as st

from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import d, i, pack, ud, ui

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


# ---- the assignment solver itself -----------------------------------------
@st.composite
def mats(draw, big=12):
  n = draw(st.integers(1, big))
  vals = draw(st.sampled_from([
      st.integers(0, 3), st.integers(0, 1000000), st.sampled_from([0, 0, 0, 1, 999999]),
      st.integers(-50, 50), st.integers(0, 10)]))
  rows = [draw(st.lists(vals, min_size=n, max_size=n)) for _ in range(n)]
  if n > 2 and draw(st.booleans()):
    rows[1] = list(rows[0])  # equal rows compete for the same columns
  return dict(w=rows)


def check_hungarian(case, ctx):
  w = case['w']
  n = len(w)
  out = ctx.env['drv'].call('hungarian', i(n), i(sum(w, [])))
  perm, perm2, lx, ly = [[int(v) for v in ui(x)] for x in out]
  lo = min(0, min(map(min, w)))
  _, best = det.solve([[x - lo + 1 for x in r] for r in w], n, n)
  best += n * (lo - 1)
  for p in (perm, perm2):
    ctx.require(sorted(p) == list(range(n)), 'not a permutation: %s', p)
    got = sum(w[k][p[k]] for k in range(n))
    ctx.require(got == best, 'total weight %d, the best assignment has %d', got, best)
  # The returned labels certify optimality.
  for r in range(n):
    for c in range(n):
      ctx.require(lx[r] + ly[c] >= w[r][c], 'label below the weight at %d, %d', r, c)
    ctx.require(lx[r] + ly[perm2[r]] == w[r][perm2[r]], 'loose label at row %d', r)
  greedy = sum(max(r) for r in w)
  ctx.nontrivial(n > 1 and best < greedy)


# ---- matchers with arbitrary weights --------------------------------------
@st.composite
def subset(draw, n):
  return draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)) if n else []


@st.composite
def weight_cases(draw):
  n, m = draw(st.integers(1, 8)), draw(st.integers(1, 8))
  vals = draw(st.sampled_from([st.integers(0, 1000000), st.integers(0, 4),
                               st.sampled_from([0, 1, 2, 1000000])]))
  w = [draw(st.lists(vals, min_size=m, max_size=m)) for _ in range(n)]
  can = [[int(draw(st.integers(0, 3)) > 0) for _ in range(m)] for _ in range(n)]
  scores = draw(st.lists(st.sampled_from(det.SCORES), min_size=n, max_size=n,
                         unique=draw(st.integers(0, 3)) > 0))
  typ = draw(st.sampled_from([1, 2]))
  calls = [dict(p=draw(subset(n)), g=draw(subset(m)),
                mode=draw(st.sampled_from([0, 1, 1, 2, 3])))
           for _ in range(draw(st.integers(1, 4)))]
  if draw(st.booleans()):
    calls[0].update(p=list(range(n)), g=list(range(m)))
  return dict(w=w, can=can, scores=scores, type=typ, calls=calls)


def box_obj(t=1, s=1.0):
  return dict(b=[0, 0, 0, 1, 1, 1, 0], t=t, s=s)


def judge(ctx, c, pm, gm, weights, can, scores, typ, what=''):
  """One Match() result against validity and the matcher's own rule."""
  ps, gs = c['p'], c['g']
  n, m = len(ps), len(gs)
  mode = c.get('mode', 0)
  if mode == 2:
    gm = None
  if mode == 3:
    pm = None
  if pm is not None:
    ctx.require(len(pm) == n, '%s%d prediction entries for a subset of %d', what, len(pm), n)
  if gm is not None:
    ctx.require(len(gm) == m, '%s%d ground-truth entries for a subset of %d', what, len(gm), m)
  for vals, lim in ((pm, m), (gm, n)):
    if vals is not None:
      used = [v for v in vals if v != -1]
      ctx.require(all(0 <= v < lim for v in used), '%sindex outside the subset: %s', what, vals)
      ctx.require(len(set(used)) == len(used), '%sused twice: %s', what, vals)
  if pm is None:
    pm = det.inverse(gm, n)
  if gm is None:
    gm = det.inverse(pm, m)
  ctx.require(det.inverse(pm, m) == gm, '%slists are not inverse: %s / %s', what, pm, gm)
  for a, b in enumerate(pm):
    if b >= 0:
      ctx.require(can[ps[a]][gs[b]], '%sprediction %d is matched to ground truth %d, which is not allowed',
                  what, ps[a], gs[b])
  w = [[weights[a][b] if can[a][b] else 0 for b in gs] for a in ps]
  total = sum(w[a][b] for a, b in enumerate(pm) if b >= 0)
  if typ == det.HUNGARIAN:
    _, best = det.solve(w, n, m)
    ctx.require(total == best, '%stotal weight %d, the best matching has %d', what, total, best)
  elif len(set(scores[a] for a in ps)) == n:
    free = set(range(m))
    for a in sorted(range(n), key=lambda k: -scores[ps[k]]):
      ok = [b for b in free if can[ps[a]][gs[b]]]
      if not ok:
        ctx.require(pm[a] == -1, '%sprediction %d had nothing to match', what, ps[a])
        continue
      ctx.require(pm[a] in ok, '%sprediction %d is matched to %d, free and allowed: %s', what, ps[a], pm[a], ok)
      ctx.require(w[a][pm[a]] == max(w[a][b] for b in ok),
                  '%sprediction %d took weight %d although %d was free', what, ps[a],
                  w[a][pm[a]], max(w[a][b] for b in ok))
      free.discard(pm[a])
  return total


def check_weights(case, ctx):
  n, m = len(case['w']), len(case['w'][0])
  fields = []
  for c in case['calls']:
    fields += [i(c['p']), i(c['g']), i(c['mode'])]
  out = ctx.env['drv'].call(
      'match_weights', i(case['type']), d([0.5] * 5), i(sum(case['w'], [])),
      det.packed([box_obj(s=s) for s in case['scores']]),
      det.packed([box_obj() for _ in range(m)]), i(sum(case['can'], [])), *fields)
  for k, c in enumerate(case['calls']):
    pm, gm = [[int(v) for v in ui(x)] for x in out[2 * k:2 * k + 2]]
    t = judge(ctx, c, pm, gm, case['w'], case['can'], case['scores'], case['type'],
              'call %d: ' % k)
    if t > 0 and (len(c['p']) < n or c['p'] != sorted(c['p'])):
      ctx.nontrivial()
      ctx.label('score first' if case['type'] == 2 else 'hungarian')


# ---- matchers on boxes ----------------------------------------------------
@st.composite
def box_cases(draw):
  fr = draw(det.frame(distinct=draw(st.integers(0, 3)) > 0, extras=False))
  n, m = len(fr['p']), len(fr['g'])
  calls = [dict(p=list(range(n)), g=list(range(m)), mode=0)]
  for _ in range(draw(st.integers(0, 2))):
    calls.append(dict(p=draw(subset(n)), g=draw(subset(m)), mode=draw(st.sampled_from([0, 1]))))
  return dict(fr, thr=det.thresholds(draw), kind=draw(st.sampled_from([1, 2, 3])),
              type=draw(st.sampled_from([1, 2])), calls=calls)


def config(case):
  c = wod.pb('protos.metrics_pb2').Config()
  c.iou_thresholds.extend(case['thr'])
  c.box_type = case['kind']
  c.matcher_type = case['type']
  if case.get('let'):
    det.fill_let(c, case['let'])
  return c


def check_boxes(case, ctx):
  pds, gts = case['p'], case['g']
  n, m = len(pds), len(gts)
  fields = []
  for c in case['calls']:
    fields += [i(c['p']), i(c['g']), i(c['mode'])]
  out = ctx.env['drv'].call('match', config(case).SerializeToString(), det.packed(pds),
                            det.packed(gts), *fields)
  iou = ud(out[0]).reshape(n, m)
  can = ui(out[1]).reshape(n, m)
  w = ui(out[2]).reshape(n, m)
  ref = det.iou_matrix(pds, gts, det.KINDS[case['kind']])
  if n and m:
    ctx.close(iou, ref, 'IoU', 2e-5, 0)
    for a in range(n):
      for b in range(m):
        t = det.f32(case['thr'][pds[a]['t']])
        if pds[a]['t'] != gts[b]['t']:
          ctx.require(not can[a][b], 'objects of different type %d, %d can match', a, b)
        elif abs(ref[a][b] - t) > 1e-4:
          ctx.require(bool(can[a][b]) == (ref[a][b] > t),
                      'pair %d, %d: can match %s with IoU %.5f and threshold %s', a, b, can[a][b], ref[a][b], t)
        ctx.require(abs(int(w[a][b]) - ref[a][b] * 1e6) <= 25, 'pair %d, %d: weight %d for IoU %r', a, b,
                    w[a][b], ref[a][b])
        if 0.01 < ref[a][b] < t:
          ctx.label('below threshold')
  for k, c in enumerate(case['calls']):
    pm, gm = [[int(v) for v in ui(x)] for x in out[4 + 2 * k:6 + 2 * k]]
    t = judge(ctx, c, pm, gm, w.tolist(), can.tolist(), [p['s'] for p in pds], case['type'],
              'call %d: ' % k)
    ctx.nontrivial(t > 0 and (can.sum(0) > 1).any())


# ---- exactly at the threshold ---------------------------------------------
@st.composite
def exact_cases(draw):
  """Axis-aligned boxes whose IoU is a power of two, 1 or 0, computed exactly."""
  thr = [0.0] + [draw(st.sampled_from([0.5, 0.25, 0.125, 1.0, 0.0])) for _ in range(4)]
  x, y = draw(st.sampled_from([0.0, 16.0, -40.0])), draw(st.sampled_from([0.0, -8.0, 24.0]))
  ps = [dict(b=[x, y, 0, 4, 2, 1, 0], t=draw(st.sampled_from([1, 2])), id='p%d' % k, s=(k + 1) / 4)
        for k in range(draw(st.integers(1, 2)))]
  gs = []
  for k in range(draw(st.integers(1, 3))):
    how = draw(st.sampled_from(['same', 'half', 'quarter', 'eighth', 'apart', 'inside']))
    b = [x, y, 0, 4, 2, 1, 0]
    if how == 'half':
      b[3] = 2.0
    elif how == 'quarter':
      b[3:5] = [2.0, 1.0]
    elif how == 'eighth':
      b[3:5] = [8.0, 8.0]
    elif how == 'inside':
      b[0] += 1.0
      b[3] = 2.0
    elif how == 'apart':
      b[0] += 64.0
    gs.append(dict(b=b, t=draw(st.sampled_from([1, 1, 2])), id='g%d' % k))
  let = None
  if draw(st.integers(0, 4)) == 0:
    let = dict(s=[9.5, 3.25, 0.5], pct=0.3, tol=2.0, align=draw(st.sampled_from([1, 2, 3, 4])))
  return dict(p=ps, g=gs, thr=thr, let=let, kind=draw(st.sampled_from([1, 2] if let else [3, 3, 3, 1, 2])), type=draw(st.sampled_from([1, 2])),
              calls=[dict(p=list(range(len(ps))), g=list(range(len(gs))), mode=draw(st.sampled_from([0, 1])))])


def check_exact(case, ctx):
  pds, gts = case['p'], case['g']
  n, m = len(pds), len(gts)
  c = case['calls'][0]
  out = ctx.env['drv'].call('match', config(case).SerializeToString(), det.packed(pds), det.packed(gts),
                            i(c['p']), i(c['g']), i(c['mode']))
  can = ui(out[1]).reshape(n, m)
  w = ui(out[2]).reshape(n, m)
  exact = case['kind'] == 3
  for a in range(n):
    t = case['thr'][pds[a]['t']]
    for b in range(m):
      A, B = pds[a]['b'], gts[b]['b']
      small, large = sorted([A[3] * A[4], B[3] * B[4]])
      x = 0.0 if B[0] > A[0] + 60 else small / large  # one lies within the other
      same = pds[a]['t'] == gts[b]['t']
      if not same:
        ctx.require(not can[a][b], 'objects of different type %d, %d can match at threshold %s', a, b, t)
      elif not case['let'] and (exact or t == 0):
        ctx.require(bool(can[a][b]) == (x >= t), 'pair %d, %d: can match %s with IoU %s and threshold %s', a, b,
                    can[a][b], x, t)
        ctx.nontrivial(x == t)
  pm, gm = [[int(v) for v in ui(x)] for x in out[4:6]]
  judge(ctx, c, pm, gm, w.tolist(), can.tolist(), [p['s'] for p in pds], case['type'])


# The configuration is gone when these matchers are used.
LETS = st.sampled_from([None, None, dict(s=[-9.5, 0.25, 0.5], pct=0.3, tol=2.0, align=2),
                        dict(s=[3.0, -31.0, 0.0], pct=0.125, tol=1.0, align=4)])


# ---- one matcher, replaced contents ---------------------------------------
@st.composite
def rematch_cases(draw):
  an = draw(det.anchors([1, 1, 2]))
  rounds = []
  for k in range(draw(st.integers(2, 4))):
    fr = draw(det.frame(npd=4, ngt=4, types=(1, 1, 2), anchor=an, extras=False))
    what = 3 if k == 0 else draw(st.sampled_from([1, 2, 3]))
    rounds.append(dict(fr, what=what, ps=draw(st.permutations(range(4))), gs=draw(st.permutations(range(4))),
                       drop=draw(st.integers(0, 2))))
  let = draw(LETS)
  return dict(rounds=rounds, thr=det.thresholds(draw), kind=draw(st.sampled_from([1, 2] if let else [1, 2, 3])), let=let,
              type=draw(st.sampled_from([1, 2])))


def check_rematch(case, ctx):
  cfg = config(case).SerializeToString()
  fields, states = [], []
  P = G = None
  for r in case['rounds']:
    P = r['p'] if r['what'] & 1 else P
    G = r['g'] if r['what'] & 2 else G
    ps = [x for x in r['ps'] if x < len(P)][:4 - r['drop']]
    gs = [x for x in r['gs'] if x < len(G)]
    states.append((P, G, ps, gs))
    fields += [det.packed(r['p']), det.packed(r['g']), i(r['what']), i(ps), i(gs)]
  dv = ctx.env['drv']
  out = dv.call('rematch', cfg, *fields)
  for k, (P, G, ps, gs) in enumerate(states):
    fresh = dv.call('match', cfg, det.packed(P), det.packed(G), i(ps), i(gs), i(0))[4:6]
    got = [[int(v) for v in ui(x)] for x in out[2 * k:2 * k + 2]]
    want = [[int(v) for v in ui(x)] for x in fresh]
    ctx.require(got == want, 'round %d: reused matcher gives %s, a new one %s', k, got, want)
    ctx.nontrivial(k > 0 and any(v >= 0 for v in want[0]))
    if case['let']:
      ctx.label('longitudinal error tolerance')


SUBS = [
    Sub('hungarian', mats, check_hungarian, 3000, rule='the row maxima conflict'),
    Sub('hungarian_large', lambda: mats(26), check_hungarian, 600, rule='the row maxima conflict'),
    Sub('weights', weight_cases, check_weights, 5000,
        rule='a strict or reordered subset gets a match'),
    Sub('boxes', box_cases, check_boxes, 4000,
        rule='a ground truth has more than one allowed prediction'),
    Sub('exact', exact_cases, check_exact, 1500, rule='an IoU equal to its threshold'),
    Sub('reuse', rematch_cases, check_rematch, 1500, rule='a later round has a match'),
]
