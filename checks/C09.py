"""Tracking measurements of one sequence against a reference CLEAR-MOT model."""
import math

from hypothesis import strategies as st

from vlib import det, drv, geo, wod
from vlib.core import Sub
from vlib.driver import i, pack, unpack

prepare = drv.prepare('det_driver')
close_env = drv.close_env


def open_env(env):
  wod.setup()
  return drv.open_env(env)


# ---- histories ------------------------------------------------------------
@st.composite
def scene(draw, max_frames=6, types=(1, 1, 2, 4, 3), speeds=None, dup=True):
  """Ground-truth tracks that move; predicted tracks that follow one of them,
  maybe switching to another on the way."""
  types = list(types)
  swap = draw(st.booleans())  # tracks that exchange identities
  nf = draw(st.integers(3 if swap else 1, max_frames))
  ng = draw(st.integers(1, 4))
  same = draw(st.booleans())  # all close together
  t0 = draw(st.sampled_from(types))
  tracks = []
  c = (draw(geo.f(-40, 40)), draw(geo.f(-40, 40)))
  for k in range(ng):
    lim = 2.5 if same else 25
    dims = draw(st.sampled_from(det.DIMS[:3])) if not same else (4.0, 2.0, 1.5)
    tracks.append(dict(x=c[0] + draw(geo.f(-lim, lim)) + 0.013 * k, y=c[1] + draw(geo.f(-lim, lim)) - 0.017 * k,
                       vx=draw(st.sampled_from([0.0, 0.0, 0.5, -1.0])), vy=draw(st.sampled_from([0.0, 0.25])),
                       dims=dims, t=t0 if same else draw(st.sampled_from(types)),
                       td=draw(st.sampled_from([1, 1, 2, 0])), dd=draw(st.integers(0, 2)), h=draw(st.sampled_from([0.0, 0.3])),
                       z=draw(st.sampled_from([0.5, 0.5, 0.5, 0.75, 2.0, 6.0])), v=draw(st.sampled_from([[0.0, 0.0], [0.5, 0.0], [5.0, 0.0], [0.0, 2.0], [0.1, -12.0]]))))
  preds = []
  for k in range(draw(st.integers(1 if swap else 0, 4))):
    a = draw(st.integers(0, ng - 1))
    preds.append(dict(a=a, b=(a + 1) % ng if swap else draw(st.one_of(st.just(a), st.integers(0, ng - 1))),
                      at=draw(st.integers(1, nf - 1) if swap else st.integers(0, nf)),
                      dx=draw(st.sampled_from([0.0, 0.1, 0.4, -0.9])) * (0.2 if swap else 1) + 0.011 * k,
                      dy=draw(st.sampled_from([0.0, 0.1] if swap else [0.0, 0.2, 3.0])),
                      dz=draw(st.sampled_from([0.0, 0.0, 0.0, 0.125, -0.5, 1.25])), s=draw(st.integers(1, 15)), nlz=draw(st.integers(0, 6)) == 0))
  with_speed = draw(st.booleans()) if speeds is None else speeds
  vary_td = draw(st.integers(0, 3)) == 0
  frames = []
  for f in range(nf):
    gts, pds = [], []
    for k, t in enumerate(tracks):
      if draw(st.integers(0, 6)) == 0:
        continue
      gts.append(dict(b=[t['x'] + f * t['vx'], t['y'] + f * t['vy'], t['z']] + list(t['dims']) + [t['h']], t=t['t'],
                      id='g%d' % k, **(dict(s=0.25) if t['td'] == 2 and k % 2 else {}), td=draw(st.integers(0, 2)) if vary_td else t['td'], v=t['v'], dd=t['dd']))
    for k, p in enumerate(preds):
      if draw(st.integers(0, 6)) == 0:
        continue
      t = tracks[p['a'] if f < p['at'] else p['b']]
      # Scores in a frame are distinct: the low bits tell the track.
      o = dict(b=[t['x'] + f * t['vx'] + p['dx'], t['y'] + f * t['vy'] + p['dy'], t['z'] + p['dz']] + list(t['dims']) + [t['h']],
               t=t['t'], id='p%d' % k, s=(p['s'] * 8 + k) / 128, nlz=p['nlz'])
      if p['s'] % 4 == 0:
        o['td'] = p['s'] % 3  # predictions have no difficulty
      if with_speed:
        o['v'] = draw(st.sampled_from([[0.0, 0.0], [0.5, 0.0], [5.0, 0.0], [0.0, 2.0]]))
      pds.append(o)
    if pds and dup and draw(st.integers(0, 11)) == 0:  # a repeated id: the first one counts
      o = dict(pds[0], s=(pds[0]['s'] * 128 + 0.5) / 128)
      o['b'] = [o['b'][0] + 0.3] + o['b'][1:]
      pds.append(o)
    frames.append(dict(p=pds, g=gts))
  return frames


# ---- the model ------------------------------------------------------------
class Mot:

  def __init__(self, case, level):
    self.case, self.level = case, level
    self.M = {}
    self.c = dict(misses=0, fps=0, mismatches=0, cost=0.0, matches=0, objects=0)
    self.details = []
    self.bad = False

  def step(self, pds, gts):
    """The objects of the shard (and above the cutoff) in one frame."""
    case, c = self.case, self.c
    first = {}
    for k, p in enumerate(pds):
      first.setdefault(p['id'], k)
    gt = {g['id']: j for j, g in enumerate(gts)}
    iou = det.iou_matrix(pds, gts, det.KINDS[case['kind']])
    can, near = det.allowed(iou, pds, gts, case['thr'])
    self.bad |= near
    new = {}
    for g, p in self.M.items():
      if g in gt and p in first and can[first[p]][gt[g]]:
        new[g] = p
        c['cost'] += 1 - iou[first[p]][gt[g]]
    ps = [k for i_, k in first.items() if i_ not in new.values()]
    gs = [j for i_, j in gt.items() if i_ not in new]
    w = [[round(x * 1e6) for x in row] for row in iou]
    m, unique = det.match(w, can, [p['s'] for p in pds], ps, gs, case['type'])
    self.bad |= not unique
    for a, b in enumerate(m):
      if b >= 0:
        new[gts[gs[b]]['id']] = pds[ps[a]]['id']
        c['cost'] += 1 - iou[ps[a]][gs[b]]
      elif not pds[ps[a]].get('nlz'):
        c['fps'] += 1
    for b, j in enumerate(gs):
      if b not in m:
        if gts[j]['td'] <= self.level:
          c['misses'] += 1
          c['objects'] += 1
    c['objects'] += len(new)
    c['matches'] += len(new)
    owner = {p: g for g, p in self.M.items()}
    for g, p in new.items():
      if self.M.get(g, p) != p:
        c['mismatches'] += 1
      if p in owner and owner[p] not in gt:
        c['mismatches'] += 1
    for g, p in new.items():
      if p in owner and owner[p] not in new:
        self.M.pop(owner[p], None)
    self.M.update(new)
    self.details.append((sorted(new.items()), sorted(g for g in gt if g not in new),
                         sorted(p for p in first if p not in new.values())))


def estimated(frames, gens):
  """Predictions without a speed take that of the nearest ground truth."""
  if not any(g == det.VELOCITY for g, _ in gens):
    return frames, False
  first = [p for f in frames for p in f['p']][:1]
  if not first or first[0].get('v') is not None:
    return frames, False
  out, bad = [], False
  for f in frames:
    ps = []
    for p in f['p']:
      v = [0.0, 0.0]
      if f['g']:
        ds = sorted((math.dist(p['b'][:3], g['b'][:3]), k) for k, g in enumerate(f['g']))
        v = f['g'][ds[0][1]].get('v') or v
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-4:
          bad = True
      ps.append(dict(p, v=v))
    out.append(dict(p=ps, g=f['g']))
  return out, bad


def reference(case, frames):
  """-> list of (gen, shard, level, cutoff, Mot)."""
  frames, bad = estimated(frames, case['gens'])
  out = []
  for gen, levels in case['gens']:
    edge = any(det.edge_of(gen, o) for f in frames for o in f['p'] + f['g'])
    sp = [[det.shard(gen, o) for o in f['p']] for f in frames]
    sg = [[det.shard(gen, o) for o in f['g']] for f in frames]
    for s in range(det.n_shards(gen)):
      for level in det.levels_of(levels):
        for cut in case['cut']:
          m = Mot(case, level)
          for f, a, b in zip(frames, sp, sg):
            m.step([p for p, x in zip(f['p'], a) if x == s and p['s'] >= cut],
                   [g for g, x in zip(f['g'], b) if x == s])
          m.bad |= edge or (bad and gen == det.VELOCITY)
          out.append((gen, s, level, cut, m))
  return out


def judge_one(ctx, m, ref, details, where):
  c = ref.c
  ctx.equal(dict(misses=m.num_misses, fps=m.num_fps, mismatches=m.num_mismatches, matches=m.num_matches,
                 objects=m.num_objects_gt),
            {k: v for k, v in c.items() if k != 'cost'}, 'counts of ' + where)
  ctx.close(m.matching_cost, c['cost'], 'matching cost of ' + where, 1e-3, 0)
  ctx.require(len(m.details) == (len(ref.details) if details else 0), 'details of %s: %d frames', where, len(m.details))
  for k, (d, (tp, fn, fp)) in enumerate(zip(m.details, ref.details)):
    w = '%s in frame %d' % (where, k)
    ctx.equal(sorted(zip(d.tp_gt_ids, d.tp_pred_ids)), tp, 'matched pairs of ' + w)
    ctx.equal(len(d.tp_gt_ids), len(d.tp_pred_ids), 'pairs')
    ctx.equal(sorted(d.fn_gt_ids), fn, 'unmatched ground truths of ' + w)
    ctx.equal(sorted(d.fp_pred_ids), fp, 'unmatched predictions of ' + w)


@st.composite
def cases(draw):
  c = draw(det.configs())
  c['frames'] = draw(scene())
  if c['gens'][0][0] != det.ONE_SHARD and draw(st.integers(0, 2)) == 0:
    c['gens'][0] = (det.ONE_SHARD, c['gens'][0][1])
    c['gens'] = c['gens'][:1]
  c['cut'] = draw(st.sampled_from([[0.0], [0.0, 0.5], [0.0, 0.25, 0.25], c['cut']]))
  det.unknown_types(draw, c['gens'], c['frames'])
  return c


def note(ctx, ref):
  if ref.c['mismatches']:
    ctx.label('mismatch')
    ctx.nontrivial()
  if ref.c['fps'] and ref.c['misses'] and ref.c['matches']:
    ctx.label('matches, misses and false positives')


def check(case, ctx):
  T = wod.pb('protos.metrics_pb2').TrackingMeasurements
  fr = case['frames']
  out = ctx.env['drv'].call('trk_measure', det.config_proto(case).SerializeToString(),
                            pack([det.packed(f['p']) for f in fr]), pack([det.packed(f['g']) for f in fr]))
  ms = [T.FromString(x) for x in unpack(out[0])]
  ref = reference(case, fr)
  nc = len(case['cut'])
  ctx.require(len(ms) * nc == len(ref), '%d results, expected %d', len(ms), len(ref) // nc)
  for k, (gen, s, level, cut, m) in enumerate(ref):
    got = ms[k // nc]
    b = got.breakdown
    ctx.equal((b.generator_id, b.shard, b.difficulty_level), (gen, s, level), 'breakdown of result %d' % (k // nc))
    ctx.equal(len(got.measurements), nc, 'cutoffs per result')
    ctx.equal(got.measurements[k % nc].score_cutoff, cut, 'score cutoff')
    if m.bad:
      ctx.label('skipped: ties')
      continue
    judge_one(ctx, got.measurements[k % nc], m, case['details'],
              'generator %d shard %d level %d cutoff %s' % (gen, s, level, cut))
    note(ctx, m)
  for g, _ in case['gens']:
    ctx.label(det.GEN_NAMES[g])


# ---- the accumulator, frame by frame --------------------------------------
@st.composite
def mot_cases(draw):
  return dict(frames=draw(scene(max_frames=9, types=(1, 1, 2))), thr=det.thresholds(draw),
              kind=draw(st.sampled_from([1, 2, 3])), type=draw(st.sampled_from([1, 1, 2])), gens=[], cut=[],
              level=draw(st.sampled_from([1, 2])), details=draw(st.booleans()))


def check_mot(case, ctx):
  T = wod.pb('protos.metrics_pb2').TrackingMeasurement
  fields = []
  for f in case['frames']:
    fields += [det.packed(f['p']), det.packed(f['g'])]
  out = ctx.env['drv'].call('mot', det.config_proto(case).SerializeToString(), i(case['level']),
                            i(int(case['details'])), *fields)
  m = Mot(case, case['level'])
  for k, f in enumerate(case['frames']):
    m.step(f['p'], f['g'])
    if m.bad:
      ctx.label('skipped: ties')
      break
    judge_one(ctx, T.FromString(out[k]), m, case['details'], 'frames up to %d' % k)
  else:
    note(ctx, m)


# ---- ties: any of the best matchings may be taken, but always the same one --
@st.composite
def tie_cases(draw):
  c = draw(mot_cases())
  fr = c['frames']
  for f in fr:
    for o in f['p']:
      if draw(st.integers(0, 2)):
        o['s'] = draw(st.sampled_from([0.5, 0.5, 0.25]))
    for side in 'pg':  # objects in the same place
      if len(f[side]) > 1 and draw(st.booleans()):
        k = draw(st.integers(1, len(f[side]) - 1))
        f[side][k] = dict(f[side][k], b=list(f[side][0]['b']), t=f[side][0]['t'])
  c['details'] = True
  return c


def check_ties(case, ctx):
  T = wod.pb('protos.metrics_pb2').TrackingMeasurement
  fields = []
  for f in case['frames']:
    fields += [det.packed(f['p']), det.packed(f['g'])]
  args = [det.config_proto(case).SerializeToString(), i(case['level']), i(1)] + fields
  run = lambda: [T.FromString(x) for x in ctx.env['drv'].call('mot', *args)]
  out = run()
  kept, tied = {}, False
  c = dict(misses=0, fps=0, mismatches=0, matches=0, objects=0)
  cost = 0.0
  for k, f in enumerate(case['frames']):
    first = {}
    for j, p in enumerate(f['p']):
      first.setdefault(p['id'], j)
    gt = {g['id']: j for j, g in enumerate(f['g'])}
    iou = det.iou_matrix(f['p'], f['g'], det.KINDS[case['kind']])
    can = []
    for j, p in enumerate(f['p']):
      t = det.f32(case['thr'][p['t']])
      if t and any(p['t'] == g['t'] and abs(x - t) < det.NEAR for x, g in zip(iou[j], f['g'])):
        ctx.label('skipped: near a threshold')
        return
      can.append([p['t'] == g['t'] and (x >= t or not t) for x, g in zip(iou[j], f['g'])])
    d = out[k].details[k]
    got = dict(zip(d.tp_gt_ids, d.tp_pred_ids))
    where = ' of frame %d' % k
    ctx.require(len(got) == len(d.tp_gt_ids) == len(set(got.values())), 'an object is matched twice' + where)
    for g, p in got.items():
      ctx.require(g in gt and p in first and can[first[p]][gt[g]], 'pair %s, %s%s cannot match', g, p, where)
    old = {g: p for g, p in kept.items() if g in gt and p in first and can[first[p]][gt[g]]}
    for g, p in old.items():
      ctx.require(got.get(g) == p, 'the valid match %s, %s was given up%s', g, p, where)
    ps = [j for n, j in first.items() if n not in old.values()]
    gs = [j for n, j in gt.items() if n not in old]
    w = [[round(iou[a][b] * 1e6) if can[a][b] else 0 for b in gs] for a in ps]
    new = {g: p for g, p in got.items() if g not in old}
    total = sum(round(iou[first[p]][gt[g]] * 1e6) for g, p in new.items())
    if case['type'] == det.HUNGARIAN:
      best = det.solve(w, len(ps), len(gs))[1]
      ctx.require(total >= best - 25 * (len(new) + 1), 'matches of weight %d, the best have %d%s', total, best, where)
      tied |= bool(new) and not det.hungarian(w)[1]
    else:
      for j in ps:
        if f['p'][j]['id'] not in new.values():
          ctx.require(not any(can[j][b] and f['g'][b]['id'] not in new for b in gs),
                      'prediction %s was left without a match%s', f['p'][j]['id'], where)
      tied |= len(set(f['p'][j]['s'] for j in ps)) < len(ps)
    c['matches'] += len(got)
    c['objects'] += len(got)
    cost += sum(1 - iou[first[p]][gt[g]] for g, p in got.items())
    c['fps'] += sum(n not in got.values() and not f['p'][j].get('nlz') for n, j in first.items())
    for n, j in gt.items():
      if n not in got and f['g'][j]['td'] <= case['level']:
        c['misses'] += 1
        c['objects'] += 1
    owner = {p: g for g, p in kept.items()}
    for g, p in got.items():
      c['mismatches'] += kept.get(g, p) != p
      c['mismatches'] += p in owner and owner[p] not in gt
    for g, p in got.items():
      if p in owner and owner[p] not in got:
        kept.pop(owner[p], None)
    kept.update(got)
    m = out[k]
    ctx.equal(dict(misses=m.num_misses, fps=m.num_fps, mismatches=m.num_mismatches, matches=m.num_matches,
                   objects=m.num_objects_gt), c, 'counts up to frame %d' % k)
    ctx.close(m.matching_cost, cost, 'matching cost up to frame %d' % k, 1e-3, 0)
  for _ in range(3):
    again = run()
    for k, (a, b) in enumerate(zip(out, again)):
      pair = lambda m: [sorted(zip(x.tp_gt_ids, x.tp_pred_ids)) for x in m.details]
      ctx.equal(pair(b), pair(a), 'matches of the same frames again')
      ctx.equal([b.num_misses, b.num_fps, b.num_mismatches, b.num_matches],
                [a.num_misses, a.num_fps, a.num_mismatches, a.num_matches], 'counts of the same frames again')
  ctx.nontrivial(tied)


SUBS = [
    Sub('sequence', cases, check, 7000, rule='an identity switch occurs'),
    Sub('mot', mot_cases, check_mot, 6000, rule='an identity switch occurs'),
    Sub('ties', tie_cases, check_ties, 4000, rule='several matchings are equally good'),
]
